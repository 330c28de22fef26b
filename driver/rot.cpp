// Rotation constructors (PART 1) and recovery (PART 2).
// -DTE1 element type of the result (or source), -DTE2 element type of angles and axes
#include "drv.h"
using namespace drv;
#ifndef LO
#define LO 0
#define HI 16
#endif
constexpr bool FL = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value;
static const char* K() { return FL ? "f" : "d"; }
/// elements in the column convention
template<int I, class M> static Nums phys(const M& m, int n)
{
  Nums r;
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) r.push_back(MC<I>::row_basis ? enc(m.get(j, i)) : enc(m.get(i, j)));
  return r;
}
static TE2 ang(const Call& c, const char* ca, const char* sa, int k = 0, double mul = 1) { return TE2(mul * std::atan2(double(c.s(sa)), double(c.s(ca))) + 2 * M_PI * k); }
template<int I, int N, class F> static void mk1(F&& f)
{
  // start from garbage, so that every element has to be written
  L g(N * N, 9);
  MH<TE1, I % 2 == 0 ? N : 0, I % 2 == 0 ? N : 0, I> A(g, N, N);
  f(A.m, mname(I) + std::to_string(N) + ":" + en<TE1>() + "," + en<TE2>());
}
// every matrix configuration of order A and B
template<int A, int B, class F> static void mats(F&& f)
{
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) { mk1<I, A>([&](auto& m, const std::string& n) { f(i, m, n, A); }); if constexpr(B != A) mk1<I, B>([&](auto& m, const std::string& n) { f(i, m, n, B); }); }
  });
}
template<class F> static void quats(F&& f)
{
  if(LO != 0) return;
  for_n<4>([&](auto i) { f(i, QT<TE1, decltype(i)::value>(TE1(9), TE1(9), TE1(9), TE1(9)), qname(decltype(i)::value) + ":" + en<TE1>() + "," + en<TE2>()); });
}
// vectors in several storages: f(vector, name)
template<class F> static void vecs(const L& a, long den, F&& f)
{
  { VH<TE2, 3, 0> v(a, den); f(v.v, "/fixed"); }
  { VH<TE2, 0, 1> v(a, den); f(v.v, "/dyn"); }
  { VH<TE2, 3, 4> v(a, den); f(v.v, "/cext"); }
  { VH<TE2, 0, 3> v(a, den); f(v.v, "/ext"); f(-(-v.v), "/expr"); }
}
// the rotation matrix a/den, turned further by the small angle +-10^-p about axis pa
static double eps(const Call& c) { long p = c.s("p"); return p == 0 ? 0. : (p < 0 ? -1. : 1.) * std::pow(10., -double(std::abs(p))); }
template<class M> static void bend(const Call& c, M& m, bool row_basis)
{
  double e = eps(c);
  if(e == 0.) return;
  int a = int(c.s("pa")), j = (a + 1) % 3, k = (a + 2) % 3;
  for(int r = 0; r < 3; ++r) {
    // columns j, k of the column convention, from the exact integers
    double x = double(c.v("a")[3 * r + j]) / double(c.s("den")), y = double(c.v("a")[3 * r + k]) / double(c.s("den"));
    double u = x * std::cos(e) + y * std::sin(e), v = -x * std::sin(e) + y * std::cos(e);
    if(row_basis) { m(j, r) = typename M::value_type(u); m(k, r) = typename M::value_type(v); } else { m(r, j) = typename M::value_type(u); m(r, k) = typename M::value_type(v); }
  }
}
template<class Q> static Q bentq(const Call& c)
{
  auto q = mkq<cml::quaternion<double>>(c.v("a"), c.s("den"));
  double e = eps(c);
  using D = cml::quaternion<double>;
  int a = int(c.s("pa"));
  D t(a == 0 ? std::sin(e / 2) : 0., a == 1 ? std::sin(e / 2) : 0., a == 2 ? std::sin(e / 2) : 0., std::cos(e / 2));
  D h(q.w() * t.x() + q.x() * t.w() + q.y() * t.z() - q.z() * t.y(), q.w() * t.y() - q.x() * t.z() + q.y() * t.w() + q.z() * t.x(),
    q.w() * t.z() + q.x() * t.y() - q.y() * t.x() + q.z() * t.w(), q.w() * t.w() - q.x() * t.x() - q.y() * t.y() - q.z() * t.z());
  Q r(TE1(0), TE1(0), TE1(0), TE1(0));
  r.set(TE1(h.w()), cml::vector<TE1, cml::fixed<3>>(TE1(h.x()), TE1(h.y()), TE1(h.z())));
  return r;
}
// quaternion from the rotation matrix a/den (column convention, in row order)
OP("qrotm") {
  quats([&](auto, auto q, const std::string& n) {
    for_n<16>([&](auto i) {
      constexpr int I = decltype(i)::value;
      L a = c.v("a");
      if(MC<I>::row_basis) a = {a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]};
      MH<TE2, I % 2 == 0 ? 3 : 0, I % 2 == 0 ? 3 : 0, I> A(a, 3, 3, c.s("den"));
      bend(c, A.m, MC<I>::row_basis);
      run(o, K(), n + mname(I), [&] { q *= TE1(7); cml::quaternion_rotation_matrix(q, A.m); return qvals(q); });
      if(I < 2) run(o, K(), n + mname(I) + "/x", [&] { q *= TE1(7); cml::quaternion_rotation_matrix(q, A.m * TE2(1)); return qvals(q); });
    });
  });
}
#if PART == 1
OP("rot2") {
  TE2 t = ang(c, "ca", "sa", int(c.s("k")));
  mats<2, 3>([&](auto i, auto& m, const std::string& n, int N) { run(o, K(), n, [&] { cml::matrix_rotation_2D(m, t); return phys<decltype(i)::value>(m, N); }); });
}
OP("rotw") {
  TE2 t = ang(c, "ca", "sa", int(c.s("k")));
  int ax = int(c.s("axis"));
  mats<3, 4>([&](auto i, auto& m, const std::string& n, int N) {
    run(o, K(), n, [&] { cml::matrix_rotation_world_axis(m, ax, t); return phys<decltype(i)::value>(m, N); });
    run(o, K(), n + "/n", [&] { m.fill(TE1(3)); if(ax == 0) cml::matrix_rotation_world_x(m, t); else if(ax == 1) cml::matrix_rotation_world_y(m, t); else cml::matrix_rotation_world_z(m, t); return phys<decltype(i)::value>(m, N); });
  });
}
// angle = 2 * half angle (ca, sa) for axis and quaternion forms
OP("rotaa") {
  TE2 t = ang(c, "ca", "sa", int(c.s("k")), 2);
  mats<3, 4>([&](auto i, auto& m, const std::string& n, int N) {
    vecs(c.v("b"), c.s("du"), [&](const auto& u, const std::string& s) { run(o, K(), n + s, [&] { cml::matrix_rotation_axis_angle(m, u, t); return phys<decltype(i)::value>(m, N); }); });
    if(c.s("du") == 1) { const L& b = c.v("b"); cml::vector<int, cml::fixed<3>> u(0, 0, 0); for(int j = 0; j < 3; ++j) u[j] = int(b[j]); run(o, K(), n + "i", [&] { cml::matrix_rotation_axis_angle(m, u, t); return phys<decltype(i)::value>(m, N); }); }
  });
}
static TE2 eang(const Call& c, int j) { return TE2(2 * std::atan2(double(c.v("sa")[j]), double(c.v("ca")[j]))); }
// an angle that is exactly zero, given in a narrower type than the others: f(t0, t1, t2, name)
template<class F> static void narrow0(TE2 t0, TE2 t1, TE2 t2, F&& f)
{
  if constexpr(!FL) {
    if(t0 == 0) f(0.f, t1, t2, "/z0");
    if(t1 == 0) f(t0, 0.f, t2, "/z1");
    if(t2 == 0) f(t0, t1, 0.f, "/z2");
    if(t0 == 0 && t1 == 0) f(0, 0.f, t2, "/z01");
    if(t1 == 0 && t2 == 0) f(t0, 0, 0.f, "/z12");
  }
}
OP("rote") {
  auto od = cml::euler_order(c.s("order"));
  TE2 t0 = eang(c, 0), t1 = eang(c, 1), t2 = eang(c, 2);
  cml::vector<TE2, cml::fixed<3>> v(t0, t1, t2);
  cml::vector<TE2, cml::dynamic<>> w(t0, t1, t2);
  mats<3, 4>([&](auto i, auto& m, const std::string& n, int N) {
    run(o, K(), n, [&] { cml::matrix_rotation_euler(m, t0, t1, t2, od); return phys<decltype(i)::value>(m, N); });
    run(o, K(), n + "/v", [&] { m.fill(TE1(2)); cml::matrix_rotation_euler(m, v, od); return phys<decltype(i)::value>(m, N); });
    run(o, K(), n + "/w", [&] { m.fill(TE1(2)); cml::matrix_rotation_euler(m, w * TE2(1), od); return phys<decltype(i)::value>(m, N); });
    if constexpr(decltype(i)::value < 2) narrow0(t0, t1, t2, [&](auto a, auto b, auto d, const char* z) { run(o, K(), n + z, [&] { m.fill(TE1(2)); cml::matrix_rotation_euler(m, a, b, d, od); return phys<decltype(i)::value>(m, N); }); });
  });
}
OP("roted") {
  auto od = cml::euler_order(c.s("order"));
  int ax = int(c.s("axis"));
  TE2 t0 = eang(c, 0), t1 = eang(c, 1), t2 = eang(c, 2);
  cml::vector<TE2, cml::dynamic<>> w(t0, t1, t2);
  mats<3, 4>([&](auto i, auto& m, const std::string& n, int) {
    run(o, K(), n, [&] { cml::matrix_rotation_euler_derivatives(m, ax, t0, t1, t2, od); return phys<decltype(i)::value>(m, 3); });
    run(o, K(), n + "/w", [&] { m.fill(TE1(2)); cml::matrix_rotation_euler_derivatives(m, ax, w, od); return phys<decltype(i)::value>(m, 3); });
    if constexpr(decltype(i)::value < 2) narrow0(t0, t1, t2, [&](auto a, auto b, auto d, const char* z) { run(o, K(), n + z, [&] { m.fill(TE1(2)); cml::matrix_rotation_euler_derivatives(m, ax, a, b, d, od); return phys<decltype(i)::value>(m, 3); }); });
  });
}
// matrix from a unit quaternion a/den
OP("rotq") {
  for_n<4>([&](auto j) {
    auto q = mkq<QT<TE2, decltype(j)::value>>(c.v("a"), c.s("den"));
    mats<3, 4>([&](auto i, auto& m, const std::string& n, int N) {
      run(o, K(), n + qname(decltype(j)::value), [&] { cml::matrix_rotation_quaternion(m, q); return phys<decltype(i)::value>(m, N); });
      run(o, K(), n + qname(decltype(j)::value) + "/neg", [&] { cml::matrix_rotation_quaternion(m, -q); return phys<decltype(i)::value>(m, N); });
    });
  });
}
OP("qrotw") {
  TE2 t = ang(c, "ca", "sa", int(c.s("k")), 2);
  int ax = int(c.s("axis"));
  quats([&](auto, auto q, const std::string& n) {
    run(o, K(), n, [&] { cml::quaternion_rotation_world_axis(q, ax, t); return qvals(q); });
    run(o, K(), n + "/n", [&] { q *= TE1(7); if(ax == 0) cml::quaternion_rotation_world_x(q, t); else if(ax == 1) cml::quaternion_rotation_world_y(q, t); else cml::quaternion_rotation_world_z(q, t); return qvals(q); });
  });
}
OP("qrotaa") {
  TE2 t = ang(c, "ca", "sa", int(c.s("k")), 2);
  quats([&](auto, auto q, const std::string& n) { vecs(c.v("b"), c.s("du"), [&](const auto& u, const std::string& s) { run(o, K(), n + s, [&] { cml::quaternion_rotation_axis_angle(q, u, t); return qvals(q); }); });
    if(c.s("du") == 1) { const L& b = c.v("b"); cml::vector<int, cml::fixed<3>> u(0, 0, 0); for(int j = 0; j < 3; ++j) u[j] = int(b[j]); run(o, K(), n + "i", [&] { cml::quaternion_rotation_axis_angle(q, u, t); return qvals(q); }); } });
}
OP("qrote") {
  auto od = cml::euler_order(c.s("order"));
  TE2 t0 = eang(c, 0), t1 = eang(c, 1), t2 = eang(c, 2);
  cml::vector<TE2, cml::fixed<3>> v(t0, t1, t2);
  cml::vector<TE2, cml::dynamic<>> w(t0, t1, t2);
  quats([&](auto, auto q, const std::string& n) {
    run(o, K(), n, [&] { cml::quaternion_rotation_euler(q, t0, t1, t2, od); return qvals(q); });
    run(o, K(), n + "/v", [&] { q *= TE1(7); cml::quaternion_rotation_euler(q, v, od); return qvals(q); });
    run(o, K(), n + "/w", [&] { q *= TE1(7); cml::quaternion_rotation_euler(q, w * TE2(1), od); return qvals(q); });
    narrow0(t0, t1, t2, [&](auto a, auto b, auto d, const char* z) { run(o, K(), n + z, [&] { q *= TE1(7); cml::quaternion_rotation_euler(q, a, b, d, od); return qvals(q); }); });
  });
}
// turning a vector (b/du) by the rotation of the unit quaternion a/den, in several ways
OP("turn") {
  for_n<4>([&](auto j) {
    constexpr int J = decltype(j)::value;
    auto q = mkq<QT<TE2, J>>(c.v("a"), c.s("den"));
    using QQ = QT<TE2, J>;
    vecs(c.v("b"), c.s("du"), [&](const auto& v, const std::string& s) {
      run(o, K(), qname(J) + s, [&] { QQ p(TE2(0), v); QQ r = J / 2 == 0 ? QQ(q * p * cml::conjugate(q)) : QQ(cml::conjugate(q) * p * q); return vvals(r.imaginary()); });
      if(J == 0) mats<3, 3>([&](auto i, auto& m, const std::string& n, int) {
        run(o, K(), n + s, [&] { cml::matrix_rotation_quaternion(m, q); if(MC<decltype(i)::value>::row_basis) return vvals(v * m); else return vvals(m * v); });
      });
    });
  });
}
#endif
#if PART == 2
// recovered values are logged as cosines and sines
static TE1 cs(TE1 t) { return TE1(std::cos(double(t))); }
static TE1 sn(TE1 t) { return TE1(std::sin(double(t))); }
template<class V> static Nums aa(const V& v, double t) { Nums r = vvals(v); r.push_back(enc(cs(TE1(t)))); r.push_back(enc(sn(TE1(t)))); r.push_back(enc(TE1(t))); return r; }
template<class F> static void srcm(const Call& c, F&& f)
{
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      L a = c.v("a");
      if(MC<I>::row_basis) a = {a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]};
      MH<TE1, I % 2 == 0 ? 3 : 0, I % 2 == 0 ? 3 : 0, I> A(a, 3, 3, c.s("den"));
      bend(c, A.m, MC<I>::row_basis);
      f(A.m, mname(I) + ":" + en<TE1>() + "," + en<TE2>());
      if constexpr(I % 4 < 2) {
        // embedded in a larger matrix with a translation
        L g(16, 5);
        MH<TE1, I % 2 == 0 ? 4 : 0, I % 2 == 0 ? 4 : 0, I> B(g, 4, 4);
        for(int r = 0; r < 3; ++r) for(int k = 0; k < 3; ++k) B.m(r, k) = A.m(r, k);
        f(B.m, mname(I) + "4:" + en<TE1>() + "," + en<TE2>());
      }
    }
  });
}
template<class X, class F> static void recover_aa(Obs& o, const Call& c, const X& x, const std::string& n, F&& f)
{
  bool tol = c.s("tol");
  double tv = FL ? 1e-3 : 1e-6;
  if(tol) run(o, K(), n, [&] { cml::vector<TE2, cml::fixed<3>> ax(TE2(9), TE2(9), TE2(9)); TE2 t = 9; f(x, ax, t, TE1(tv)); return aa(ax, t); });
  else run(o, K(), n, [&] { cml::vector<TE2, cml::fixed<3>> ax(TE2(9), TE2(9), TE2(9)); TE2 t = 9; f(x, ax, t, 0); return aa(ax, t); });
  if(!tol) run(o, K(), n + "/dyn", [&] { cml::vector<TE2, cml::dynamic<>> ax; TE2 t = 9; f(x, ax, t, 0); return aa(ax, t); });
  if(!tol) run(o, K(), n + "/ext", [&] { Buf<TE2> b(3); cml::vector<TE2, cml::external<>> ax(b.p(), 3); TE2 t = 9; f(x, ax, t, 0); return aa(ax, t); });
}
OP("toaa") {
  srcm(c, [&](const auto& m, const std::string& n) {
    recover_aa(o, c, m, n, [](const auto& x, auto& ax, auto& t, auto tol) { if constexpr(std::is_same<decltype(tol), int>::value) cml::matrix_to_axis_angle(x, ax, t); else cml::matrix_to_axis_angle(x, ax, t, tol); });
    run(o, K(), n + "/tuple", [&] { auto r = c.s("tol") ? cml::matrix_to_axis_angle(m, TE1(FL ? 1e-3 : 1e-6)) : cml::matrix_to_axis_angle(m); return aa(std::get<0>(r), std::get<1>(r)); });
  });
}
OP("qtoaa") {
  if(LO == 0) for_n<4>([&](auto i) {
    auto q = bentq<QT<TE1, decltype(i)::value>>(c);
    std::string n = qname(decltype(i)::value) + ":" + en<TE1>() + "," + en<TE2>();
    recover_aa(o, c, q, n, [](const auto& x, auto& ax, auto& t, auto tol) { if constexpr(std::is_same<decltype(tol), int>::value) cml::quaternion_to_axis_angle(x, ax, t); else cml::quaternion_to_axis_angle(x, ax, t, tol); });
    run(o, K(), n + "/tuple", [&] { auto r = c.s("tol") ? cml::quaternion_to_axis_angle(q, TE1(FL ? 1e-3 : 1e-6)) : cml::quaternion_to_axis_angle(q); return aa(std::get<0>(r), std::get<1>(r)); });
  });
}
// builds a rotation by a tiny angle and recovers it
static const double TINY = std::ldexp(1., FL ? -8 : -20);
template<class F> static void tinym(F&& f)
{
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) { MH<TE1, I % 2 == 0 ? 3 : 0, I % 2 == 0 ? 3 : 0, I> A(L(9, 0), 3, 3); f(A.m, mname(I) + ":" + en<TE1>() + "," + en<TE2>()); }
  });
}
template<class V> static Nums tinyv(const V& v, double t) { Nums r = vvals(v); r.push_back(enc(t / TINY)); return r; }
OP("tinyaa") {
  auto cu = conv<TE2>(c.v("b"), c.s("du"));
  cml::vector<TE2, cml::fixed<3>> u(cu[0], cu[1], cu[2]);
  TE2 t = TE2(c.s("tp") / 16. * TINY);
  using V = cml::vector<TE2, cml::fixed<3>>;
  auto rec = [&](const auto& m) { V ax; TE2 s; cml::matrix_to_axis_angle(m, ax, s); return tinyv(ax, s); };
  auto recq = [&](const auto& q) { V ax; TE2 s; cml::quaternion_to_axis_angle(q, ax, s); return tinyv(ax, s); };
  tinym([&](auto& m, const std::string& n) {
    run(o, K(), n, [&] { cml::matrix_rotation_axis_angle(m, u, t); return rec(m); });
    for_n<4>([&](auto j) {
      constexpr int J = decltype(j)::value;
      run(o, K(), n + qname(J), [&] { cml::matrix_rotation_axis_angle(m, u, t); QT<TE1, J> q; cml::quaternion_rotation_matrix(q, m); return recq(q); });
      run(o, K(), n + qname(J) + "/m", [&] { QT<TE1, J> q; cml::quaternion_rotation_axis_angle(q, u, t); cml::matrix_rotation_quaternion(m, q); return rec(m); });
    });
  });
  if(LO == 0) for_n<4>([&](auto j) {
    constexpr int J = decltype(j)::value;
    run(o, K(), qname(J), [&] { QT<TE1, J> q; cml::quaternion_rotation_axis_angle(q, u, t); return recq(q); });
  });
}
OP("tinyeul") {
  auto od = cml::euler_order(c.s("order"));
  const L& a = c.v("a");
  cml::vector<TE2, cml::fixed<3>> v(TE2(a[0] / 16. * TINY), TE2(a[1] / 16. * TINY), TE2(a[2] / 16. * TINY));
  auto log = [](const auto& w) { return Nums{enc(w[0] / TINY), enc(w[1] / TINY), enc(w[2] / TINY)}; };
  tinym([&](auto& m, const std::string& n) {
    run(o, K(), n, [&] { cml::matrix_rotation_euler(m, v, od); return log(cml::matrix_to_euler(m, od)); });
    run(o, K(), n + "/o", [&] { cml::matrix_rotation_euler(m, v, od); TE2 x, y, z; cml::matrix_to_euler(m, x, y, z, od); return Nums{enc(x / TINY), enc(y / TINY), enc(z / TINY)}; });
  });
  if(LO == 0) for_n<4>([&](auto j) {
    constexpr int J = decltype(j)::value;
    run(o, K(), qname(J), [&] { QT<TE1, J> q; cml::quaternion_rotation_euler(q, v, od); return log(cml::quaternion_to_euler(q, od)); });
  });
}
static Nums eu(double a, double b, double d) { Nums r; for(double t : {a, b, d}) { r.push_back(enc(cs(TE1(t)))); r.push_back(enc(sn(TE1(t)))); } return r; }
OP("toeul") {
  auto od = cml::euler_order(c.s("order"));
  TE1 tv = TE1(FL ? 1e-3 : 1e-6);
  bool tol = c.s("tol");
  srcm(c, [&](const auto& m, const std::string& n) {
    run(o, K(), n, [&] { TE2 a = 9, b = 9, d = 9; if(tol) cml::matrix_to_euler(m, a, b, d, od, tv); else cml::matrix_to_euler(m, a, b, d, od); return eu(a, b, d); });
    run(o, K(), n + "/v", [&] { auto v = tol ? cml::matrix_to_euler(m, od, tv) : cml::matrix_to_euler(m, od); return eu(v[0], v[1], v[2]); });
    run(o, K(), n + "/V", [&] { using V = cml::vector<TE2, cml::dynamic<>>; V v = tol ? cml::matrix_to_euler<V>(m, od, tv) : cml::matrix_to_euler<V>(m, od); return eu(v[0], v[1], v[2]); });
  });
}
OP("qtoeul") {
  auto od = cml::euler_order(c.s("order"));
  TE1 tv = TE1(FL ? 1e-3 : 1e-6);
  bool tol = c.s("tol");
  if(LO == 0) for_n<4>([&](auto i) {
    auto q = bentq<QT<TE1, decltype(i)::value>>(c);
    std::string n = qname(decltype(i)::value) + ":" + en<TE1>() + "," + en<TE2>();
    run(o, K(), n, [&] { TE2 a = 9, b = 9, d = 9; if(tol) cml::quaternion_to_euler(q, a, b, d, od, tv); else cml::quaternion_to_euler(q, a, b, d, od); return eu(a, b, d); });
    run(o, K(), n + "/v", [&] { auto v = tol ? cml::quaternion_to_euler(q, od, tv) : cml::quaternion_to_euler(q, od); return eu(v[0], v[1], v[2]); });
    run(o, K(), n + "/V", [&] { using V = cml::vector<TE2, cml::dynamic<>>; V v = tol ? cml::quaternion_to_euler<V>(q, od, tv) : cml::quaternion_to_euler<V>(q, od); return eu(v[0], v[1], v[2]); });
  });
}
#endif
