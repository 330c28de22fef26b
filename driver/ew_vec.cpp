// Element-wise vector algebra over storage x storage x element type.
// -DE1= -DE2= -DES= element types of the operands and the scalar.
#include "drv.h"
using namespace drv;
static bool skip(const Call& c)
{
  // wide integers do not fit a float mantissa
  bool f = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value || std::is_same<TES, float>::value;
  long d = c.s("den", 1);
  return (c.s("wide", 0) && f) || !fits<TE1>(c.v("a"), d) || (c.has("b") && !fits<TE2>(c.v("b"), d)) || (c.s("sd", 1) != 1 && std::is_integral<TES>::value);
}
static std::string cfg(int s1, int s2) { return std::string(sname(s1)) + ":" + en<TE1>() + "," + sname(s2) + ":" + en<TE2>() + "," + en<TES>(); }

template<class X> static void both(Obs& o, const std::string& c, X&& mk)
{
  using R = decltype(mk());
  using V = cml::value_type_trait_of_t<std::decay_t<R>>;
  run(o, kind<V>(), c + "/lazy", [&] { return vvals(mk()); });
  run(o, kind<V>(), c + "/eager", [&] { cml::temporary_of_t<std::decay_t<R>> t = mk(); return vvals(t); });
}

// pairs of storages; fixed sizes N, or N=0 for dynamic-only
template<int S1, int S2, int N, class F> static void pair(const L& a, const L& b, long den, F&& f)
{
  VH<TE1, N, S1> A(a, den);
  VH<TE2, N, S2> B(b, den);
  f(A, B, cfg(S1, S2), ic<S1>{});
}
template<class F> static void pairs(const Call& c, F&& f)
{
  if(skip(c)) return;
  const L &a = c.v("a"), &b = c.v("b");
  long d = c.s("den", 1);
  int n = int(a.size());
  pair<1, 1, 0>(a, b, d, f); pair<1, 3, 0>(a, b, d, f); pair<3, 1, 0>(a, b, d, f); pair<3, 3, 0>(a, b, d, f);
  pair<1, 5, 0>(a, b, d, f); pair<3, 5, 0>(a, b, d, f);
#ifdef FULL
  at_n<1, 2, 3, 4, 5>(n, [&](auto N) {
    constexpr int K = decltype(N)::value;
    pair<0, 1, K>(a, b, d, f); pair<0, 2, K>(a, b, d, f); pair<0, 3, K>(a, b, d, f);
    pair<1, 0, K>(a, b, d, f); pair<1, 2, K>(a, b, d, f);
    pair<2, 0, K>(a, b, d, f); pair<2, 1, K>(a, b, d, f); pair<2, 2, K>(a, b, d, f); pair<2, 3, K>(a, b, d, f); pair<0, 4, K>(a, b, d, f);
    pair<3, 0, K>(a, b, d, f); pair<3, 2, K>(a, b, d, f); pair<1, 4, K>(a, b, d, f);
  });
#else
  at_n<2, 3, 4>(n, [&](auto N) {
    constexpr int K = decltype(N)::value;
    pair<0, 2, K>(a, b, d, f); pair<2, 1, K>(a, b, d, f); pair<1, 0, K>(a, b, d, f); pair<0, 4, K>(a, b, d, f);
  });
#endif
  at_n<1, 2, 3, 4, 5, 6, 8>(n, [&](auto N) { pair<0, 0, decltype(N)::value>(a, b, d, f); });
}

OP("vadd") { pairs(c, [&](auto& A, auto& B, const std::string& n, auto) { both(o, n, [&] { return A.v + B.v; }); }); }
OP("vsub") { pairs(c, [&](auto& A, auto& B, const std::string& n, auto) { both(o, n, [&] { return A.v - B.v; }); }); }
OP("vhad") { pairs(c, [&](auto& A, auto& B, const std::string& n, auto) { both(o, n, [&] { return cml::hadamard(A.v, B.v); }); }); }
OP("vpm") {
  // in-place forms; operand B must not change
  pairs(c, [&](auto& A, auto& B, const std::string& n, auto) {
    long w = c.s("which");
    run(o, kind<TE1>(), n, [&] {
      if(w == 0) A.v += B.v; else if(w == 1) A.v -= B.v; else if(w == 2) A.v.minimize(B.v); else if(w == 3) A.v.maximize(B.v);
      else A.v = B.v;
      Nums r = vvals(A.v);
      for(auto& x : vvals(B.v)) r.push_back(x);
      return r;
    });
    (void) o;
  });
}
template<class F> static void singles(const Call& c, F&& f)
{
  if(skip(c)) return;
  const L& a = c.v("a");
  long d = c.s("den", 1);
  auto one = [&](auto N, auto S) { VH<TE1, decltype(N)::value, decltype(S)::value> A(a, d); f(A, cfg(decltype(S)::value, decltype(S)::value), S); };
  one(ic<0>{}, ic<1>{}); one(ic<0>{}, ic<3>{});
  at_n<1, 2, 3, 4, 5, 6>(int(a.size()), [&](auto N) { one(N, ic<0>{}); one(N, ic<2>{}); });
}
template<class F> static void singlesc(const Call& c, F&& f)
{
  if(skip(c)) return;
  const L& a = c.v("a");
  long d = c.s("den", 1);
  auto one = [&](auto N, auto S) { VH<TE1, decltype(N)::value, decltype(S)::value> A(a, d); f(A, cfg(decltype(S)::value, decltype(S)::value), S); };
  one(ic<0>{}, ic<5>{});
  at_n<2, 3, 4>(int(a.size()), [&](auto N) { one(N, ic<4>{}); });
}
OP("vmuls") { auto f = [&](auto& A, const std::string& n, auto) { TES s = scalar<TES>(c); both(o, n, [&] { return A.v * s; }); both(o, n + "/left", [&] { return s * A.v; }); }; singles(c, f); singlesc(c, f); }
OP("vdivs") { auto f = [&](auto& A, const std::string& n, auto) { TES s = scalar<TES>(c); both(o, n, [&] { return A.v / s; }); }; singles(c, f); singlesc(c, f); }
OP("vneg") { auto f = [&](auto& A, const std::string& n, auto) { both(o, n, [&] { return -A.v; }); both(o, n, [&] { return -(+A.v); }); }; singles(c, f); singlesc(c, f); }
OP("vin") {
  singles(c, [&](auto& A, const std::string& n, auto) {
    long w = c.s("which");
    TES s = scalar<TES>(c);
    // on a temporary
    if(w < 6) run(o, kind<TE1>(), n + "/t", [&] { cml::temporary_of_t<std::decay_t<decltype(A.v)>> t(A.v);
      if(w == 0) std::move(t) *= s; else if(w == 1) std::move(t) /= s; else if(w == 2) std::move(t).fill(TE1(s)); else if(w == 3) std::move(t).zero();
      else if(w == 4) std::move(t).cardinal(int(c.s("s"))); else std::move(t).put(int(c.s("s")), TE1(c.s("e")));
      return vvals(t); });
    run(o, kind<TE1>(), n, [&] {
      if(w == 0) A.v *= s; else if(w == 1) A.v /= s; else if(w == 2) A.v.fill(TE1(s)); else if(w == 3) A.v.zero();
      else if(w == 4) A.v.cardinal(int(c.s("s"))); else if(w == 5) A.v.put(int(c.s("s")), TE1(c.s("e"))); else if(w == 6) A.v[int(c.s("s"))] = TE1(c.s("e")); else if(w == 7) A.v.get(int(c.s("s"))) = TE1(c.s("e"));
      else if(w == 8) A.v *= A.v[int(c.s("s"))]; else if(w == 9) A.v /= A.v[int(c.s("s"))]; else if(w == 10) A.v += A.v; else if(w == 11) A.v -= A.v;
      else {
        constexpr int K = cml::array_size_of_c<std::decay_t<decltype(A.v)>>::value;
        int n = int(A.v.size());
        if constexpr(K < 0 || K == 2) if(n == 2) A.v.set(A.v[1], A.v[0]);
        if constexpr(K < 0 || K == 3) if(n == 3) A.v.set(A.v[1], A.v[2], A.v[0]);
        if constexpr(K < 0 || K == 4) if(n == 4) A.v.set(A.v[1], A.v[2], A.v[3], A.v[0]);
      }
      return vvals(A.v);
    });
  });
}
