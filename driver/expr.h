// Named objects and helpers for the generated expression programs (C02).
#pragma once
#include "drv.h"
namespace ex {
using drv::L; using drv::Nums; using drv::enc; using drv::ic;

template<class EF, class ED, int CFG> struct S {
  using basis = std::conditional_t<CFG % 2 == 0, cml::col_basis, cml::row_basis>;
  using layout = std::conditional_t<(CFG / 2) % 2 == 0, cml::row_major, cml::col_major>;
  template<int N> using VF = cml::vector<EF, cml::fixed<N>>;
  using VD = cml::vector<ED, cml::dynamic<>>;
  template<int N> using VX = cml::vector<EF, cml::external<N>>;
  using VY = cml::vector<ED, cml::external<>>;
  template<int R, int C> using MF = cml::matrix<EF, cml::fixed<R, C>, basis, layout>;
  using MD = cml::matrix<ED, cml::dynamic<>, basis, layout>;
  template<int R, int C> using MX = cml::matrix<EF, cml::external<R, C>, basis, layout>;
  using MY = cml::matrix<ED, cml::external<>, basis, layout>;
  using Q = drv::QT<EF, ((CFG / 2) % 2) + 2 * (CFG / 4)>;

  EF bf[64]; ED bd[64];
  double k2 = 2, k3 = 3;       // named scalars
  VF<2> v2_0; VD v2_1; VX<2> v2_2; VY v2_3;
  VF<3> v3_0; VD v3_1; VX<3> v3_2; VY v3_3;
  MF<2, 2> m22_0; MD m22_1; MX<2, 2> m22_2; MY m22_3;
  MF<2, 3> m23_0; MD m23_1; MX<2, 3> m23_2; MY m23_3;
  MF<3, 2> m32_0; MD m32_1; MX<3, 2> m32_2; MY m32_3;
  MF<3, 3> m33_0; MD m33_1; MX<3, 3> m33_2; MY m33_3;
  Q q0, q1, q2;

  S() : v2_1(2), v2_2(bf), v2_3(bd, 2), v3_1(3), v3_2(bf + 2), v3_3(bd + 2, 3), m22_1(2, 2), m22_2(bf + 5), m22_3(bd + 5, 2, 2), m23_1(2, 3), m23_2(bf + 9),
        m23_3(bd + 9, 2, 3), m32_1(3, 2), m32_2(bf + 15), m32_3(bd + 15, 3, 2), m33_1(3, 3), m33_2(bf + 21), m33_3(bd + 21, 3, 3) {}
  S(const S&) = delete;

  using EFT = EF;
  template<class V> static void putv(V& v, int n, const L& a, int& p) { for(int i = 0; i < n; ++i) v.put(i, a.at(p++)); }
  template<class M> static void putm(M& m, int r, int c, const L& a, int& p) { for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m.put(i, j, a.at(p++)); }
  static void putq(Q& q, const L& a, int& p)
  {
    using O = typename Q::order_type;
    q.put(int(O::W), a.at(p)); q.put(int(O::X), a.at(p + 1)); q.put(int(O::Y), a.at(p + 2)); q.put(int(O::Z), a.at(p + 3));
    p += 4;
  }
  void set(const L& a)
  {
    int p = 0;
    putv(v2_0, 2, a, p); putv(v2_1, 2, a, p); putv(v2_2, 2, a, p); putv(v2_3, 2, a, p);
    putv(v3_0, 3, a, p); putv(v3_1, 3, a, p); putv(v3_2, 3, a, p); putv(v3_3, 3, a, p);
    putm(m22_0, 2, 2, a, p); putm(m22_1, 2, 2, a, p); putm(m22_2, 2, 2, a, p); putm(m22_3, 2, 2, a, p);
    putm(m23_0, 2, 3, a, p); putm(m23_1, 2, 3, a, p); putm(m23_2, 2, 3, a, p); putm(m23_3, 2, 3, a, p);
    putm(m32_0, 3, 2, a, p); putm(m32_1, 3, 2, a, p); putm(m32_2, 3, 2, a, p); putm(m32_3, 3, 2, a, p);
    putm(m33_0, 3, 3, a, p); putm(m33_1, 3, 3, a, p); putm(m33_2, 3, 3, a, p); putm(m33_3, 3, 3, a, p);
    putq(q0, a, p); putq(q1, a, p); putq(q2, a, p);
  }
  void change(const L& a) { set(a); k2 = 91; k3 = -17; }
  template<class V> static void addv(Nums& o, const V& v) { for(int i = 0; i < v.size(); ++i) o.push_back(enc(v.get(i))); }
  template<class M> static void addm(Nums& o, const M& v) { for(int i = 0; i < v.rows(); ++i) for(int j = 0; j < v.cols(); ++j) o.push_back(enc(v.get(i, j))); }
  template<class X> static void addq(Nums& o, const X& q) { o.push_back(enc(q.w())); o.push_back(enc(q.x())); o.push_back(enc(q.y())); o.push_back(enc(q.z())); }
  void all(Nums& o) const
  {
    addv(o, v2_0); addv(o, v2_1); addv(o, v2_2); addv(o, v2_3); addv(o, v3_0); addv(o, v3_1); addv(o, v3_2); addv(o, v3_3);
    addm(o, m22_0); addm(o, m22_1); addm(o, m22_2); addm(o, m22_3); addm(o, m23_0); addm(o, m23_1); addm(o, m23_2); addm(o, m23_3);
    addm(o, m32_0); addm(o, m32_1); addm(o, m32_2); addm(o, m32_3); addm(o, m33_0); addm(o, m33_1); addm(o, m33_2); addm(o, m33_3);
    addq(o, q0); addq(o, q1); addq(o, q2);
  }
  // a target of the given kind, filled with fives
  template<class T> static void five(T& t)
  {
    using drv::enc;
    if constexpr(cml::is_vector<T>::value) { for(int i = 0; i < t.size(); ++i) t.put(i, 5); }
    else if constexpr(cml::is_matrix<T>::value) { for(int i = 0; i < t.rows(); ++i) for(int j = 0; j < t.cols(); ++j) t.put(i, j, 5); }
    else { for(int i = 0; i < 4; ++i) t.put(i, 5); }
  }
};

template<class X> void add(Nums& o, const X& x)
{
  if constexpr(cml::is_vector<X>::value) S<double, double, 0>::addv(o, x);
  else if constexpr(cml::is_matrix<X>::value) S<double, double, 0>::addm(o, x);
  else S<double, double, 0>::addq(o, x);
}
template<class T> T copy(const T& x) { return T(x); }
template<class T> T byval(const T& x) { return x; }
template<class T> const T cbyval(const T& x) { return x; }
template<class X> auto tmpv(const X& x) { cml::temporary_of_t<X> r(x); return r; }
using Fn = void (*)(const drv::Call&, drv::Obs&);
}
