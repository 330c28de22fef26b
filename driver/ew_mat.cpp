// Element-wise matrix algebra over storage x basis x layout pairs.
// -DTE1 -DTE2 -DTES element types; left configurations I in [LO,HI).
#include "drv.h"
using namespace drv;
#ifndef LO
#define LO 0
#define HI 16
#endif
static bool skip(const Call& c)
{
  bool f = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value || std::is_same<TES, float>::value;
  long d = c.s("den", 1);
  return (c.s("wide", 0) && f) || !fits<TE1>(c.v("a"), d) || (c.has("b") && !fits<TE2>(c.v("b"), d)) || (c.s("sd", 1) != 1 && std::is_integral<TES>::value);
}
template<class X> static void both(Obs& o, const std::string& c, X&& mk)
{
  using R = decltype(mk());
  using V = cml::value_type_trait_of_t<std::decay_t<R>>;
  run(o, kind<V>(), c + "/lazy", [&] { return mvals(mk()); });
  if constexpr(std::decay_t<R>::matrix_basis != cml::any_basis_c && !std::is_same<typename cml::matrix_traits<std::decay_t<R>>::layout_tag, cml::any_major>::value)
    run(o, kind<V>(), c + "/eager", [&] { cml::temporary_of_t<std::decay_t<R>> t = mk(); return mvals(t); });
  run(o, kind<V>(), c + "/dyn", [&] { cml::matrix<V, cml::dynamic<>, cml::row_basis, cml::col_major> t; t = mk(); return mvals(t); });
}
template<int I, int J, int R, int C, class F> static void pair(const Call& c, F&& f)
{
  int r = int(c.s("r")), k = int(c.s("c"));
  long d = c.s("den", 1);
  MH<TE1, R, C, I> A(c.v("a"), r, k, d);
  MH<TE2, R, C, J> B(c.v("b"), r, k, d);
  f(A, B, mname(I) + ":" + en<TE1>() + "," + mname(J) + ":" + en<TE2>());
}
template<class F> static void at_shape(const Call& c, F&& f)
{
  int r = int(c.s("r")), k = int(c.s("c"));
  auto g = [&](auto R, auto C) { if(r == decltype(R)::value && k == decltype(C)::value) f(R, C); };
  g(ic<2>{}, ic<2>{}); g(ic<3>{}, ic<2>{}); g(ic<3>{}, ic<3>{}); g(ic<1>{}, ic<4>{}); g(ic<4>{}, ic<4>{});
}
template<class F> static void pairs(const Call& c, F&& f)
{
  if(skip(c)) return;
  int r = int(c.s("r")), k = int(c.s("c"));
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      // dynamically-sized: every basis/layout pair, any shape
      if constexpr(I % 2 == 1)
        for_n<4>([&](auto j) {
          constexpr int J = decltype(j)::value * 4;
          pair<I, J + 1, 0, 0>(c, f);
#ifdef FULL
          pair<I, J + 3, 0, 0>(c, f);
#endif
        });
      if(r == 2 && k == 3) {
#ifdef FULL
        for_n<16>([&](auto j) { constexpr int J = decltype(j)::value; if constexpr(I % 2 == 0 || J % 2 == 0) pair<I, J, 2, 3>(c, f); });
#else
        pair<I, (I * 5 + 3) % 16, 2, 3>(c, f); pair<I, (I * 3 + 6) % 16, 2, 3>(c, f);
#endif
      }
      else at_shape(c, [&](auto R, auto C) { pair<I, (I * 5 + 7) % 16, decltype(R)::value, decltype(C)::value>(c, f); });
    }
  });
}
OP("madd") { pairs(c, [&](auto& A, auto& B, const std::string& n) { both(o, n, [&] { return A.m + B.m; }); }); }
OP("msub") { pairs(c, [&](auto& A, auto& B, const std::string& n) { both(o, n, [&] { return A.m - B.m; }); }); }
OP("mhad") { pairs(c, [&](auto& A, auto& B, const std::string& n) { both(o, n, [&] { return cml::hadamard(A.m, B.m); }); }); }
OP("mpm") {
  pairs(c, [&](auto& A, auto& B, const std::string& n) {
    long w = c.s("which");
    run(o, kind<TE1>(), n, [&] {
      if(w == 0) A.m += B.m; else if(w == 1) A.m -= B.m; else A.m = B.m;
      Nums r = mvals(A.m);
      for(auto& x : mvals(B.m)) r.push_back(x);
      return r;
    });
  });
}
template<class F> static void singles(const Call& c, F&& f)
{
  if(skip(c)) return;
  int r = int(c.s("r")), k = int(c.s("c"));
  long d = c.s("den", 1);
  auto one = [&](auto i, auto R, auto C) {
    constexpr int I = decltype(i)::value;
    MH<TE1, decltype(R)::value, decltype(C)::value, I> A(c.v("a"), r, k, d);
    f(A, mname(I) + ":" + en<TE1>() + "," + en<TES>());
  };
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      if constexpr(I % 2 == 1) one(i, ic<0>{}, ic<0>{});
      else if(r == 2 && k == 3) one(i, ic<2>{}, ic<3>{});
      else at_shape(c, [&](auto R, auto C) { one(i, R, C); });
    }
  });
}
OP("mmuls") { singles(c, [&](auto& A, const std::string& n) { TES s = scalar<TES>(c); both(o, n, [&] { return A.m * s; }); both(o, n + "/left", [&] { return s * A.m; }); }); }
OP("mdivs") { singles(c, [&](auto& A, const std::string& n) { TES s = scalar<TES>(c); both(o, n, [&] { return A.m / s; }); }); }
OP("mneg") { singles(c, [&](auto& A, const std::string& n) { both(o, n, [&] { return -A.m; }); both(o, n, [&] { return -(+A.m); }); }); }
OP("min") {
  singles(c, [&](auto& A, const std::string& n) {
    long w = c.s("which");
    TES s = scalar<TES>(c);
    // on a temporary
    if(w < 4) run(o, kind<TE1>(), n + "/t", [&] { cml::temporary_of_t<std::decay_t<decltype(A.m)>> t(A.m); auto& r = t;
      if(w == 0) std::move(r) *= s; else if(w == 1) std::move(r) /= s; else if(w == 2) std::move(r).fill(TE1(s)); else std::move(r).zero();
      return mvals(t); });
    run(o, kind<TE1>(), n, [&] {
      if(w == 0) A.m *= s; else if(w == 1) A.m /= s; else if(w == 2) A.m.fill(TE1(s)); else if(w == 3) A.m.zero();
      else if(w == 10) A.m += A.m; else if(w == 11) A.m -= A.m;
      else { int k = int(c.s("s")), i = k / int(c.s("c")), j = k % int(c.s("c")); if(w == 8) A.m *= A.m(i, j); else A.m /= A.m(i, j); }
      return mvals(A.m);
    });
  });
}
