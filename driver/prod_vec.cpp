// Vector products, lengths and geometry helpers.  -DTE1 -DTE2
#include "drv.h"
#include <cml/vector/outer_product.h>
using namespace drv;
constexpr bool INTS = std::is_integral<TE1>::value && std::is_integral<TE2>::value;
constexpr bool ANYI = std::is_integral<TE1>::value || std::is_integral<TE2>::value;
static bool skip(const Call& c)
{
  bool f = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value;
  long d = c.s("den", 1);
  return (c.s("wide", 0) && f) || !fits<TE1>(c.v("a"), d) || (c.has("b") && !fits<TE2>(c.v("b"), d)) ||
         (c.has("c") && (!fits<TE1>(c.v("c"), d) || !fits<TE2>(c.v("c"), d)));
}
static std::string cfg(int s1, int s2) { return std::string(sname(s1)) + ":" + en<TE1>() + "," + sname(s2) + ":" + en<TE2>(); }
template<int S1, int S2, int N, class F> static void pair(const L& a, const L& b, long den, F&& f)
{
  VH<TE1, N, S1> A(a, den);
  VH<TE2, N, S2> B(b, den);
  f(A.v, B.v, cfg(S1, S2));
}
template<int... Ns, class F> static void pairs(const Call& c, F&& f)
{
  if(skip(c)) return;
  const L &a = c.v("a"), &b = c.v("b");
  long d = c.s("den", 1);
  int n = int(a.size());
  pair<1, 1, 0>(a, b, d, f); pair<1, 3, 0>(a, b, d, f); pair<3, 1, 0>(a, b, d, f); pair<5, 3, 0>(a, b, d, f); pair<3, 5, 0>(a, b, d, f);
  at_n<Ns...>(n, [&](auto N) {
    constexpr int K = decltype(N)::value;
    pair<0, 0, K>(a, b, d, f); pair<0, 1, K>(a, b, d, f); pair<1, 2, K>(a, b, d, f); pair<2, 0, K>(a, b, d, f); pair<3, 0, K>(a, b, d, f); pair<0, 4, K>(a, b, d, f); pair<4, 2, K>(a, b, d, f);
  });
}
template<int... Ns, class F> static void singles(const Call& c, F&& f)
{
  if(skip(c)) return;
  const L& a = c.v("a");
  long d = c.s("den", 1);
  auto one = [&](auto N, auto S) { VH<TE1, decltype(N)::value, decltype(S)::value> A(a, d); f(A, cfg(decltype(S)::value, decltype(S)::value), S); };
  one(ic<0>{}, ic<1>{}); one(ic<0>{}, ic<3>{}); one(ic<0>{}, ic<5>{});
  at_n<Ns...>(int(a.size()), [&](auto N) { one(N, ic<0>{}); one(N, ic<2>{}); one(N, ic<4>{}); });
}
using P = decltype(TE1() + TE2());
template<class X> static void both(Obs& o, const std::string& c, X&& mk)
{
  using R = std::decay_t<decltype(mk())>;
  using V = cml::value_type_trait_of_t<R>;
  run(o, kind<V>(), c, [&] { return vvals(mk()); });
  run(o, kind<V>(), c + "/eager", [&] { cml::temporary_of_t<R> t = mk(); return vvals(t); });
}
OP("dot") { pairs<1, 2, 3, 4, 5, 6>(c, [&](auto& A, auto& B, const std::string& n) { auto r = [&] { return cml::dot(A, B); }; run(o, kind<decltype(r())>(), n, [&] { return Nums{enc(r())}; }); }); }
OP("manhattan") {
  if constexpr(!INTS) pairs<1, 2, 3, 4>(c, [&](auto& A, auto& B, const std::string& n) { auto r = [&] { return cml::manhattan_distance(A, B); }; run(o, kind<decltype(r())>(), n, [&] { return Nums{enc(r())}; }); });
}
OP("perp_dot") { pairs<2>(c, [&](auto& A, auto& B, const std::string& n) { auto r = [&] { return cml::perp_dot(A, B); }; run(o, kind<decltype(r())>(), n, [&] { return Nums{enc(r())}; }); }); }
OP("cross") { pairs<3>(c, [&](auto& A, auto& B, const std::string& n) { both(o, n, [&] { return cml::cross(A, B); }); }); }
OP("triple") {
  pairs<3>(c, [&](auto& A, auto& B, const std::string& n) {
    VH<TE1, 3, 0> C(c.v("c"), c.s("den", 1));
    VH<TE2, 3, 1> D(c.v("c"), c.s("den", 1));
    run(o, kind<P>(), n, [&] { return Nums{enc(cml::triple_product(A, B, C.v))}; });
    run(o, kind<P>(), n, [&] { return Nums{enc(cml::triple_product(A, B, D.v))}; });
  });
}
OP("outer") {
  if(skip(c)) return;
  const L &a = c.v("a"), &b = c.v("b");
  long d = c.s("den", 1);
  auto f = [&](auto& A, auto& B, const std::string& n) {
    run(o, kind<P>(), n, [&] { return mvals(cml::outer(A.v, B.v)); });
    run(o, kind<P>(), n, [&] { cml::matrix<P, cml::dynamic<>, cml::col_basis, cml::row_major> t; t = cml::outer(A.v, B.v); return mvals(t); });
    run(o, kind<P>(), n, [&] { cml::matrix<P, cml::dynamic<>, cml::row_basis, cml::col_major> t; t = cml::outer(A.v, B.v); return mvals(t); });
  };
  { VH<TE1, 0, 1> A(a, d); VH<TE2, 0, 1> B(b, d); VH<TE2, 0, 3> C(b, d); f(A, B, "dyn,dyn"); f(A, C, "dyn,ext"); }
  at_n<1, 2, 3, 4>(int(a.size()), [&](auto N) {
    VH<TE1, decltype(N)::value, 0> A(a, d); VH<TE1, decltype(N)::value, 2> AE(a, d);
    VH<TE2, 0, 1> B(b, d); f(A, B, "fixed,dyn");
    at_n<1, 2, 3, 4>(int(b.size()), [&](auto M) { VH<TE2, decltype(M)::value, 0> C(b, d); VH<TE2, decltype(M)::value, 4> D(b, d); f(A, C, "fixed,fixed"); f(AE, C, "ext,fixed"); f(A, D, "fixed,cext"); });
  });
}
OP("lensq") { singles<1, 2, 3, 4, 5, 6>(c, [&](auto& A, const std::string& n, auto) { run(o, kind<TE1>(), n, [&] { return Nums{enc(A.v.length_squared())}; }); run(o, kind<TE1>(), n, [&] { return Nums{enc(cml::length_squared(A.v))}; }); }); }
OP("length") {
  if constexpr(!ANYI) singles<1, 2, 3, 4, 5, 6>(c, [&](auto& A, const std::string& n, auto) {
    // scaled by 2^k: the length scales with it
    for(int k : {0, 20, -20}) {
      auto f = [&](auto r) { return Nums{enc(r / std::ldexp(1.0, k))}; };
      run(o, kind<TE1>(), n + "*2^" + std::to_string(k), [&] { auto t = cml::temporary_of_t<std::decay_t<decltype(A.v)>>(A.v); t *= std::ldexp(1.0, k); return f(t.length()); });
      run(o, kind<TE1>(), n + "*2^" + std::to_string(k), [&] { return f(cml::length(A.v * std::ldexp(1.0, k))); });
    }
  });
}
OP("normalize") {
  if constexpr(!ANYI) singles<1, 2, 3, 4, 5, 6>(c, [&](auto& A, const std::string& n, auto S) {
    for(int k : {0, 20, -20}) {
      std::string m = n + "*2^" + std::to_string(k);
      using T = cml::temporary_of_t<std::decay_t<decltype(A.v)>>;
      run(o, kind<TE1>(), m + "/member", [&] { T t(A.v); t *= std::ldexp(1.0, k); t.normalize(); return vvals(t); });
      run(o, kind<TE1>(), m + "/free", [&] { return vvals(cml::normalize(A.v * TE1(std::ldexp(1.0, k)))); });
      run(o, kind<TE1>(), m + "/node", [&] { const T t(A.v * TE1(std::ldexp(1.0, k))); return vvals(t.normalize()); });
      run(o, kind<TE1>(), m + "/tmp", [&] { return vvals(T(A.v * TE1(std::ldexp(1.0, k))).normalize()); });
    }
    run(o, kind<TE1>(), n + "/const", [&] { const auto& k = A.v; return vvals(k.normalize()); });
    if constexpr(decltype(S)::value < 4) run(o, kind<TE1>(), n + "/inplace", [&] { A.v.normalize(); return vvals(A.v); });
  });
}
OP("subvector") { singles<2, 3, 4, 5, 6>(c, [&](auto& A, const std::string& n, auto) { int i = int(c.s("i")); both(o, n, [&] { return A.v.subvector(i); }); both(o, n, [&] { return cml::subvector(A.v, i); });
    if constexpr(std::is_same<TE1, TE2>::value) { both(o, n + "/expr", [&] { return (A.v + A.v * TE1(0)).subvector(i); }); } }); }
OP("perp") { if constexpr(std::is_same<TE1, TE2>::value) singles<2>(c, [&](auto& A, const std::string& n, auto) { run(o, kind<TE1>(), n, [&] { return vvals(cml::perp(A.v)); }); }); }
OP("projv") { if constexpr(!ANYI) pairs<1, 2, 3, 4>(c, [&](auto& A, auto& B, const std::string& n) { run(o, kind<P>(), n, [&] { return vvals(cml::project_to_vector(A, B)); }); }); }
OP("projh") { if constexpr(!ANYI) pairs<1, 2, 3, 4>(c, [&](auto& A, auto& B, const std::string& n) { run(o, kind<P>(), n, [&] { return vvals(cml::project_to_hplane(A, B)); }); }); }
