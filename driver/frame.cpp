// Orthonormal frames, aligning and aiming (C17).
// -DTE1 element type of the results, -DTE2 of the vectors
#include "drv.h"
using namespace drv;
#ifndef LO
#define LO 0
#define HI 16
#endif
constexpr bool FL = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value;
static const char* K() { return FL ? "f" : "d"; }
static const char* KQ() { return FL ? "qf" : "qd"; }
template<int I, class M> static Nums col(const M& m)
{
  Nums r;
  if(MC<I>::row_basis) { for(int j = 0; j < m.cols(); ++j) for(int i = 0; i < m.rows(); ++i) r.push_back(enc(m.get(i, j))); }
  else for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) r.push_back(enc(m.get(i, j)));
  return r;
}
// n x k in the column convention, filled with garbage
template<int N, int KK, class F> static void mk(F&& f)
{
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      constexpr int R = MC<I>::row_basis ? KK : N, C = MC<I>::row_basis ? N : KK;
      L g(N * KK, 9);
      MH<TE1, I % 2 == 0 ? R : 0, I % 2 == 0 ? C : 0, I> A(g, R, C);
      f(i, A.m, mname(I) + std::to_string(N) + std::to_string(KK) + ":" + en<TE1>() + "," + en<TE2>());
    }
  });
}
template<int N, class F> static void vv(const L& b, long den, F&& f)
{
  { VH<TE2, N, 0> v(b, den); f(v.v, "/fixed"); }
  { VH<TE2, 0, 1> v(b, den); f(v.v, "/dyn"); }
  { VH<TE2, N, 4> v(b, den); f(v.v, "/cext"); }
  { VH<TE2, 0, 3> v(b, den); f(-(-v.v), "/expr"); }
}
// axes as the columns of a matrix
template<class... V> static Nums cols(const V&... v)
{
  Nums r;
  for(int i = 0; i < int(sizeof...(V)); ++i) { (r.push_back(enc(v.get(i))), ...); }
  return r;
}
OP("frame2") {
  auto od = cml::axis_order2D(c.s("order"));
  bool norm = c.s("norm") != 0;
  vv<2>(c.v("b"), c.s("bd"), [&](const auto& a, const std::string& s) {
    if(LO == 0) {
      run(o, K(), "ob2" + s, [&] { cml::vector<TE1, cml::fixed<2>> x, y; cml::orthonormal_basis_2D(a, x, y, norm, od); return cols(x, y); });
      run(o, K(), "ob2d" + s, [&] { cml::vector<TE1, cml::dynamic<>> x, y; cml::orthonormal_basis_2D(a, x, y, norm, od); return cols(x, y); });
      run(o, K(), "ob2e" + s, [&] { Buf<TE1> b(4); cml::vector<TE1, cml::external<2>> x(b.p()); cml::vector<TE1, cml::external<>> y(b.p() + 2, 2); cml::orthonormal_basis_2D(a, x, y, norm, od); return cols(x, y); });
      if(norm && c.s("order") == 0) run(o, K(), "ob2def" + s, [&] { cml::vector<TE1, cml::fixed<2>> x, y; cml::orthonormal_basis_2D(a, x, y); return cols(x, y); });
    }
    auto f = [&](auto i, auto& m, const std::string& n) {
      run(o, K(), n + s, [&] { cml::matrix_rotation_align_2D(m, a, norm, od); return col<decltype(i)::value>(m); });
      if(norm && c.s("order") == 0) run(o, K(), n + "def" + s, [&] { m.fill(TE1(7)); cml::matrix_rotation_align_2D(m, a); return col<decltype(i)::value>(m); });
    };
    mk<2, 2>(f); mk<3, 3>(f);
  });
}
template<class E, class F> static void quats(F&& f)
{
  for_n<4>([&](auto i) { f(i, QT<E, decltype(i)::value>(E(9), E(9), E(9), E(9)), qname(decltype(i)::value) + ":" + en<TE1>() + "," + en<TE2>()); });
}
OP("frame3") {
  auto od = cml::axis_order(c.s("order"));
  bool norm = c.s("norm") != 0, def = norm && c.s("order") == 10;
  L pos = c.v("p"), tgt;
  pos.sc = tgt.sc = c.v("b").sc;
  for(int i = 0; i < 3; ++i) tgt.push_back(pos[i] * c.s("bd") + c.v("b")[i]);   // target = pos + b/bd
  VH<TE2, 3, 0> P(pos), T(tgt, c.s("bd"));
  int k = 0;
  vv<3>(c.v("b"), c.s("bd"), [&](const auto& a, const std::string& s) {
    int k2 = 0, k1 = k++;
    vv<3>(c.v("c"), c.s("cd"), [&](const auto& r, const std::string& s2) {
      int k3 = k2++;
      if(k3 != k1 && k3 != (k1 + 1) % 4) return;
      if(LO == 0) {
        run(o, K(), "ob" + s + s2, [&] { cml::vector<TE1, cml::fixed<3>> x, y, z; cml::orthonormal_basis(a, r, x, y, z, norm, od); return cols(x, y, z); });
        run(o, K(), "obd" + s + s2, [&] { cml::vector<TE1, cml::dynamic<>> x, y, z; cml::orthonormal_basis(a, r, x, y, z, norm, od); return cols(x, y, z); });
        run(o, K(), "obe" + s + s2, [&] { Buf<TE1> b(9); cml::vector<TE1, cml::external<3>> x(b.p()), y(b.p() + 3); cml::vector<TE1, cml::external<>> z(b.p() + 6, 3); cml::orthonormal_basis(a, r, x, y, z, norm, od); return cols(x, y, z); });
        if(def) run(o, K(), "obdef" + s + s2, [&] { cml::vector<TE1, cml::fixed<3>> x, y, z; cml::orthonormal_basis(a, r, x, y, z); return cols(x, y, z); });
        quats<TE1>([&](auto, auto q, const std::string& n) {
          run(o, KQ(), n + s + s2, [&] { cml::quaternion_rotation_align(q, a, r, norm, od); return qvals(q); });
          if(def) run(o, KQ(), n + "def" + s + s2, [&] { cml::quaternion_rotation_align(q, a, r); return qvals(q); });
          if(norm) run(o, KQ(), n + "aim" + s + s2, [&] { q *= TE1(3); cml::quaternion_rotation_aim_at(q, P.v, T.v, r, od); return qvals(q); });
        });
      }
      auto f = [&](auto i, auto& m, const std::string& n) {
        run(o, K(), n + s + s2, [&] { cml::matrix_rotation_align(m, a, r, norm, od); return col<decltype(i)::value>(m); });
        if(norm) run(o, K(), n + "aim" + s + s2, [&] { m.fill(TE1(7)); cml::matrix_rotation_aim_at(m, P.v, T.v, r, od); return col<decltype(i)::value>(m); });
        if(def) run(o, K(), n + "def" + s + s2, [&] { m.fill(TE1(7)); cml::matrix_rotation_align(m, a, r); return col<decltype(i)::value>(m); });
        if(def) run(o, K(), n + "aimdef" + s + s2, [&] { m.fill(TE1(7)); cml::matrix_rotation_aim_at(m, P.v, T.v, r); return col<decltype(i)::value>(m); });
      };
      if(k3 == k1) { mk<3, 3>(f); mk<4, 4>(f); }
    });
  });
}
OP("qbasis") {
  if(LO == 0) for_n<4>([&](auto i) {
    auto q = mkq<QT<TE1, decltype(i)::value>>(c.v("q"), c.s("dq"));
    std::string n = qname(decltype(i)::value) + ":" + en<TE1>();
    run(o, K(), n, [&] { cml::vector<TE2, cml::fixed<3>> x, z; cml::vector<TE2, cml::dynamic<>> y(3); cml::quaternion_get_basis_vectors(q, x, y, z); return cols(x, y, z); });
    run(o, K(), n + "/i", [&] { return cols(cml::quaternion_get_basis_vector(q, 0), cml::quaternion_get_basis_vector(q, 1), cml::quaternion_get_basis_vector(q, 2)); });
    run(o, K(), n + "/n", [&] { return cols(cml::quaternion_get_x_basis_vector(q), cml::quaternion_get_y_basis_vector(q), cml::quaternion_get_z_basis_vector(q)); });
    run(o, K(), n + "/x", [&] { return cols(cml::quaternion_get_x_basis_vector(-q), cml::quaternion_get_y_basis_vector(-q), cml::quaternion_get_z_basis_vector(-q)); });
  });
}
