// Random draws and named generators (C21).  -DTE1 element type
#include "drv.h"
#include <cml/mathlib/random_unit.h>
#include <set>
using namespace drv;
using E = TE1;
constexpr bool FLT = std::is_floating_point<E>::value;
static E val(const Call& c, const char* k) { long d = c.s("den", 1); return d == 1 ? E(c.s(k)) : E(double(c.s(k)) / double(d)); }
static bool skip(const Call& c) { return !FLT && c.s("den", 1) != 1; }
static Nums setof(const std::set<long>& s) { Nums r; for(long x : s) r.push_back({x, 0}); return r; }
// elements in order of appearance
template<class X> static void collect(std::set<long>& s, const X& x) { for(auto& v : x) s.insert(v.hi); }

OP("rvec") {
  if(skip(c)) return;
  int n = c.s("n"), draws = c.s("draws"); std::srand(unsigned(c.s("seed")));
  E lo = val(c, "lo"), hi = val(c, "hi");
  at_n<1, 2, 3, 4, 7>(n, [&](auto N) { for_n<4>([&](auto S) {
    std::set<long> seen;
    for(int d = 0; d < draws; ++d) {
      VH<E, N, S> h(L(n, 99), 1);
      run(o, kind<E>(), sname(S), [&] { if(d % 2) h.v.random(lo, hi); else std::move(h.v).random(lo, hi); Nums r = vvals(h.v); collect(seen, r); return r; });
    }
    if(!FLT) run(o, "set", sname(S), [&] { return setof(seen); });
  }); });
}
OP("rmat") {
  if(skip(c)) return;
  int draws = c.s("draws"); std::srand(unsigned(c.s("seed")));
  E lo = val(c, "lo"), hi = val(c, "hi");
  for_n<16>([&](auto I) { 
    std::set<long> seen;
    for(int d = 0; d < draws; ++d) {
      MH<E, 2, 3, I> h(L(6, 99), 2, 3);
      run(o, kind<E>(), mname(I), [&] { if(d % 2) h.m.random(lo, hi); else std::move(h.m).random(lo, hi); Nums r = mvals(h.m); collect(seen, r); return r; });
    }
    if(!FLT) run(o, "set", mname(I), [&] { return setof(seen); });
  });
}
OP("rint") {
#if !ISF
  std::srand(unsigned(c.s("seed")));
  auto go = [&](auto z) {
    using T = decltype(z);
    std::set<long> seen;
    for(int d = 0; d < c.s("draws"); ++d) { T x = cml::random_integer<T>(T(c.s("lo")), T(c.s("hi"))); seen.insert(long(x)); run(o, "i", "random_integer", [&] { return Nums{enc(x)}; }); }
    run(o, "set", "random_integer", [&] { return setof(seen); });
  };
  go(int()); go(long()); go(short());
#endif
}
OP("rbin") {
#if !ISF
  std::srand(unsigned(c.s("seed")));
  std::set<long> b, p;
  for(int d = 0; d < c.s("draws"); ++d) { b.insert(cml::random_binary()); p.insert(cml::random_polar()); }
  run(o, "bin", "random_binary", [&] { return setof(b); });
  run(o, "pol", "random_polar", [&] { return setof(p); });
#endif
}
OP("rreal") {
#if ISF
  std::srand(unsigned(c.s("seed")));
  E lo = val(c, "lo"), hi = val(c, "hi");
  for(int d = 0; d < c.s("draws"); ++d) run(o, kind<E>(), "random_real", [&] { return Nums{enc(cml::random_real<E>(lo, hi))}; });
#endif
}
OP("runit1") {
#if ISF
  std::srand(unsigned(c.s("seed")));
  for(int d = 0; d < c.s("draws"); ++d) run(o, "d", "random_unit", [&] { return Nums{enc(cml::random_unit())}; });
#endif
}
OP("ruvec") {
#if ISF
  int n = c.s("n"), draws = c.s("draws"); std::srand(unsigned(c.s("seed")));
  std::mt19937 gen(unsigned(c.s("seed")));
  at_n<1, 2, 3, 4, 6>(n, [&](auto N) { for_n<4>([&](auto S) {
    int pos[8] = {}, neg[8] = {};
    for(int d = 0; d < draws; ++d) {
      VH<E, N, S> h(L(n, 99));
      run(o, kind<E>(), sname(S), [&] { if(d % 2) cml::random_unit(h.v); else cml::random_unit(h.v, gen); for(int i = 0; i < n; ++i) (h.v[i] < 0 ? neg : pos)[i]++; return vvals(h.v); });
    }
    run(o, "signs", sname(S), [&] { Nums r; for(int i = 0; i < n; ++i) { r.push_back({pos[i] > 0, 0}); r.push_back({neg[i] > 0, 0}); } return r; });
  }); });
#endif
}
template<int N, int S, int D, class A> void cone(const Call& c, Obs& o, A ang, int draws)
{
  if constexpr(S == 0 || D == S) {
    VH<E, N, D> dv(c.v("d"), c.s("den"));
    E lowest = 2;
    for(int d = 0; d < draws; ++d) {
      VH<E, N, S> h(L(N, 99));
      run(o, kind<E>(), std::string(sname(S)) + "." + sname(D), [&] { cml::random_unit(h.v, dv.v, ang); lowest = std::min(lowest, E(cml::dot(h.v, dv.v))); return vvals(h.v); });
    }
    run(o, std::string("low") + en<E>(), std::string(sname(S)) + "." + sname(D), [&] { return Nums{enc(lowest)}; });
  }
}
// half-angle with cosine p/q and sine s/q
OP("rcone") {
#if ISF
  int n = c.s("n"), draws = c.s("draws"); std::srand(unsigned(c.s("seed")));
  E ang = E(std::atan2(double(c.s("s")), double(c.s("p"))));
  if(c.s("p") == 0) ang = cml::constants<E>::pi_over_2();
  at_n<1, 2, 3, 4, 5>(n, [&](auto N) { for_n<4>([&](auto S) { for_n<6>([&](auto D) { cone<N, S, D>(c, o, ang, draws); }); }); });
#endif
}
OP("rconebad") {
#if ISF
  int n = c.s("n");
  double a[] = {0., -0.5, 1.58, 3., -1e-9, double(NAN)};
  at_n<2, 3>(n, [&](auto N) { for_n<4>([&](auto S) {
    VH<E, N, 0> dv(c.v("d"), c.s("den"));
    VH<E, N, S> h(L(n, 9));
    run(o, "r", sname(S), [&] { cml::random_unit(h.v, dv.v, E(a[c.s("which")])); return vvals(h.v); });
    run(o, "x", sname(S), [&] { return vvals(h.v); });
  }); });
#endif
}
OP("rzero") {
#if ISF
  cml::vector<E, cml::dynamic<>> v;
  run(o, "r", "dynamic", [&] { cml::random_unit(v); return vvals(v); });
#endif
}
OP("gvec") {
#if ISF
  using namespace cml;
  int n = c.s("n"), i = c.s("i");
  at_n<1, 2, 3, 4, 6>(n, [&](auto N) {
    run(o, "zero", "zero<N>", [&] { return vvals(cml::zero<N>()); });
    run(o, "axis", "axis<N>", [&] { return vvals(cml::axis<N>(i)); });
  });
  if(n == 2) { run(o, "zero", "zero_2D", [&] { return vvals(zero_2D()); }); run(o, "axis", "axis_2D", [&] { return vvals(axis_2D(i)); });
    run(o, "axis", "named", [&] { return i == 0 ? vvals(x_axis_2D()) : vvals(y_axis_2D()); }); }
  if(n == 3) { run(o, "zero", "zero_3D", [&] { return vvals(zero_3D()); }); run(o, "axis", "axis_3D", [&] { return vvals(axis_3D(i)); });
    run(o, "axis", "named", [&] { return i == 0 ? vvals(x_axis_3D()) : i == 1 ? vvals(y_axis_3D()) : vvals(z_axis_3D()); }); }
  if(n == 4) run(o, "zero", "zero_4D", [&] { return vvals(zero_4D()); });
#endif
}
template<int R, int C> static void gm(Obs& o, int r, int q) { if(r == R && q == C) { run(o, "zero", "zero<R,C>", [&] { return mvals(cml::zero<R, C>()); }); run(o, "iden", "identity<R,C>", [&] { return mvals(cml::identity<R, C>()); }); } }
OP("gmat") {
#if ISF
  using namespace cml;
  int r = c.s("r"), q = c.s("c");
  gm<2, 2>(o, r, q); gm<3, 3>(o, r, q); gm<4, 4>(o, r, q); gm<2, 3>(o, r, q); gm<4, 2>(o, r, q); gm<1, 1>(o, r, q);
  if(r == 2 && q == 2) { run(o, "zero", "2x2", [&] { return mvals(zero_2x2()); }); run(o, "iden", "2x2", [&] { return mvals(identity_2x2()); }); }
  if(r == 3 && q == 3) { run(o, "zero", "3x3", [&] { return mvals(zero_3x3()); }); run(o, "iden", "3x3", [&] { return mvals(identity_3x3()); }); }
  if(r == 4 && q == 4) { run(o, "zero", "4x4", [&] { return mvals(zero_4x4()); }); run(o, "iden", "4x4", [&] { return mvals(identity_4x4()); }); }
#endif
}
