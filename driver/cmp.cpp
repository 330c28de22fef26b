// Comparisons and hashing (C09).  -DTE1 -DTE2 element types
#include "drv.h"
#include <cml/util/vector_hash.h>
#include <unordered_set>
using namespace drv;
using E1 = TE1; using E2 = TE2;
constexpr bool INT_ = std::is_integral<E1>::value || std::is_integral<E2>::value;
static bool skip(const Call& c) { return INT_ && c.s("den", 1) != 1; }
template<class A, class B> Nums six(const A& a, const B& b) { Nums r; for(bool x : {a == b, a != b, a < b, a > b, a <= b, a >= b}) r.push_back({x, 0}); return r; }
// zeros of the second operand are written as negative zeros
template<class V> void negz(const Call& c, V& v)
{
  using E = cml::value_type_trait_of_t<V>;
  if constexpr(std::is_floating_point<E>::value) if(c.s("nz", 0)) for(int i = 0; i < v.size(); ++i) if(v.get(i) == 0) v.put(i, -E(0));
}
OP("vcmp") {
  if(skip(c)) return;
  const L &a = c.v("a"), &b = c.v("b"); long den = c.s("den");
  auto go = [&](auto& A, auto& B, const std::string& n) {
    run(o, "r", n, [&] { return six(A.v, B.v); });
    run(o, "r", n + "/expr", [&] { return six(-(-A.v), B.v); });
    run(o, "r", n + "/expr2", [&] { return six(A.v, B.v * E2(1)); });
  };
  { VH<E1, 0, 1> A(a, den); VH<E2, 0, 1> B(b, den); negz(c, B.v); go(A, B, "dyn.dyn"); }
  { VH<E1, 0, 3> A(a, den); VH<E2, 0, 1> B(b, den); negz(c, B.v); go(A, B, "ext.dyn"); }
  { VH<E1, 0, 1> A(a, den); VH<E2, 0, 5> B(b, den); go(A, B, "dyn.cext"); }
  at_n<1, 2, 3, 4>(int(a.size()), [&](auto N) {
    { VH<E1, N, 0> A(a, den); VH<E2, 0, 1> B(b, den); negz(c, B.v); go(A, B, "fixed.dyn"); }
    { VH<E1, N, 2> A(a, den); VH<E2, 0, 3> B(b, den); negz(c, B.v); go(A, B, "extf.ext"); }
    at_n<1, 2, 3, 4>(int(b.size()), [&](auto M) {
      { VH<E1, N, 0> A(a, den); VH<E2, M, 0> B(b, den); negz(c, B.v); go(A, B, "fixed.fixed"); }
      { VH<E1, N, 4> A(a, den); VH<E2, M, 2> B(b, den); negz(c, B.v); go(A, B, "cextf.extf"); }
    });
  });
}
OP("vhash") { if constexpr(std::is_same<E1, E2>::value) {
  if(skip(c)) return;
  const L &a = c.v("a"), &b = c.v("b"); long den = c.s("den");
  auto h = [](const auto& v) { return std::hash<std::decay_t<decltype(v)>>()(v); };
  VH<E1, 0, 1> A(a, den), B(b, den); VH<E1, 0, 3> X(a, den), Y(b, den); negz(c, B.v); negz(c, Y.v);
  run(o, "h", "dyn.dyn", [&] { return Nums{enc(int(h(A.v) == h(B.v)))}; });
  run(o, "h", "dyn.ext", [&] { return Nums{enc(int(h(A.v) == h(Y.v)))}; });
  run(o, "h", "ext.dyn", [&] { return Nums{enc(int(h(X.v) == h(B.v)))}; });
  run(o, "h", "again", [&] { return Nums{enc(int(h(A.v) == h(A.v) && h(X.v) == h(A.v)))}; });
  run(o, "set", "dyn", [&] { std::unordered_set<typename VH<E1, 0, 1>::T> s; s.insert(A.v); s.insert(B.v); s.insert(A.v); return Nums{enc(int(s.size()))}; });
  at_n<1, 2, 3, 4>(int(a.size()), [&](auto N) {
    VH<E1, N, 0> F(a, den); VH<E1, N, 2> G(a, den);
    run(o, "h", "fixed.dyn", [&] { return Nums{enc(int(h(F.v) == h(B.v)))}; });
    run(o, "h", "extf.ext", [&] { return Nums{enc(int(h(G.v) == h(Y.v)))}; });
    if(a.size() == b.size()) {
      VH<E1, N, 0> P(b, den); negz(c, P.v);
      run(o, "h", "fixed.fixed", [&] { return Nums{enc(int(h(F.v) == h(P.v)))}; });
      run(o, "set", "fixed", [&] { std::unordered_set<typename VH<E1, N, 0>::T> s; s.insert(F.v); s.insert(P.v); s.insert(F.v); return Nums{enc(int(s.size()))}; });
    }
  });
} }
template<class A, class B> Nums two(const A& a, const B& b) { return {enc(int(a == b)), enc(int(a != b)), enc(int(b == a)), enc(int(b != a))}; }
OP("mcmp") {
  if(skip(c)) return;
  const L &a = c.v("a"), &b = c.v("b"); long den = c.s("den"); int r = c.s("r"), q = c.s("c"), r2 = c.s("r2"), q2 = c.s("c2");
  auto go = [&](auto& A, auto& B, const std::string& n) { run(o, "r", n, [&] { return two(A.m, B.m); }); run(o, "r", n + "/expr", [&] { return two(-(-A.m), B.m); }); };
  for_n<4>([&](auto K) { constexpr int I = K * 4 + 1;   // dynamic, every basis and layout
    MH<E1, 0, 0, I> A(a, r, q, den);
    for_n<4>([&](auto J) { MH<E2, 0, 0, J * 4 + 1> B(b, r2, q2, den); go(A, B, mname(I) + "." + mname(J * 4 + 1)); });
    MH<E2, 0, 0, 15 - K * 4> X(b, r2, q2, den); go(A, X, mname(I) + ".ext");
    auto fx = [&](auto RR, auto CC) { if(r2 == RR && q2 == CC) {
      MH<E2, RR, CC, 12 - K * 4> F(b, r2, q2, den); go(A, F, mname(I) + ".fixed");
      MH<E2, RR, CC, K * 4 + 2> G(b, r2, q2, den); go(A, G, mname(I) + ".extf");
      if(r == RR && q == CC) { MH<E1, RR, CC, K * 4> H(a, r, q, den); go(H, F, "fixed.fixed"); go(H, G, "fixed.extf"); } } };
    fx(ic<2>{}, ic<3>{}); fx(ic<3>{}, ic<2>{}); fx(ic<2>{}, ic<2>{}); fx(ic<1>{}, ic<4>{}); fx(ic<4>{}, ic<1>{});
  });
  if(r == 2 && q == 3 && r2 == 3 && q2 == 2) { MH<E1, 2, 3, 0> A(a, r, q, den); MH<E2, 3, 2, 0> B(b, r2, q2, den); go(A, B, "fixed2x3.fixed3x2"); }
}
OP("qcmp") {
  if(skip(c)) return;
  const L &a = c.v("a"), &b = c.v("b"); long den = c.s("den");
  for_n<4>([&](auto I) { for_n<4>([&](auto J) {
    if constexpr(I % 2 == J % 2) {
      auto A = mkq<QT<E1, I>>(a, den); auto B = mkq<QT<E2, J>>(b, den);
      if constexpr(std::is_floating_point<E2>::value) if(c.s("nz", 0)) for(int i = 0; i < 4; ++i) if(B.get(i) == 0) B.put(i, -E2(0));
      std::string k = I % 2 ? "wfirst" : "wlast";
      run(o, k, qname(I) + "." + qname(J), [&] { return six(A, B); });
      run(o, k, qname(I) + "." + qname(J) + "/expr", [&] { return six(-(-A), B * E2(1)); });
    } }); });
}
