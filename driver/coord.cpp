// Coordinate conversions, angles, turning vectors (C18).
// -DTE1 element type of vectors, -DTE2 of scalars
#include "drv.h"
using namespace drv;
constexpr bool FL = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value;
static const char* K() { return FL ? "f" : "d"; }
static TE2 ang(const Call& c, const char* a, const char* b) { return TE2(std::atan2(double(c.s(b)), double(c.s(a))) + 2 * M_PI * c.s("k", 0)); }
template<class E> static E sc(const Call& c, const char* k) { return conv<E>(c.v(k), c.s("den"))[0]; }
static std::string nm() { return std::string(":") + en<TE1>() + "," + en<TE2>(); }
// writable results in every storage
template<int N, class F> static void outs(F&& f)
{
  { cml::vector<TE1, cml::fixed<N>> v; v.fill(TE1(9)); f(v, "fixed" + nm()); }
  { cml::vector<TE1, cml::dynamic<>> v(N); v.fill(TE1(9)); f(v, "dyn" + nm()); }
  { Buf<TE1> b(N); cml::vector<TE1, cml::external<N>> v(b.p()); f(v, "ext" + nm()); }
  { Buf<TE1> b(N); cml::vector<TE1, cml::external<>> v(b.p(), N); f(v, "exd" + nm()); }
}
template<class E, int N, class F> static void ins(const L& b, long den, F&& f)
{
  { VH<E, N, 0> v(b, den); f(v.v, "/fixed" + nm()); }
  { VH<E, 0, 1> v(b, den); f(v.v, "/dyn" + nm()); }
  { VH<E, N, 4> v(b, den); f(v.v, "/cext" + nm()); }
  { VH<E, 0, 3> v(b, den); f(-(-v.v), "/expr" + nm()); }
}
// an argument in a narrower type, when that holds its value exactly
constexpr bool MX = std::is_same<TE1, double>::value && std::is_same<TE2, double>::value;
template<class F> static void nar(TE2 x, bool zero_only, F&& f)
{
  if constexpr(MX) {
    if(zero_only && x != 0) return;
    if(double(float(x)) == x) f(float(x));
    if(!zero_only && std::fabs(x) < 1e6 && double(int(x)) == x) f(int(x));
  }
}
OP("polar") {
  TE2 r = sc<TE2>(c, "p"), t = ang(c, "tc", "ts");
  outs<2>([&](auto& v, const std::string& n) {
    run(o, K(), n, [&] { cml::polar_to_cartesian(v, r, t); return vvals(v); });
    run(o, K(), n + "/1", [&] { v.fill(TE1(5)); cml::polar_to_cartesian(r, t, v); return vvals(v); });
    nar(r, false, [&](auto x) { run(o, K(), n + "/r" + en<decltype(x)>(), [&] { cml::polar_to_cartesian(v, x, t); return vvals(v); }); });
    nar(t, true, [&](auto x) { run(o, K(), n + "/z", [&] { cml::polar_to_cartesian(v, r, x); return vvals(v); }); });
  });
}
OP("cyl") {
  TE2 r = sc<TE2>(c, "p"), t = ang(c, "tc", "ts"), h = sc<TE2>(c, "h");
  int ax = int(c.s("axis"));
  outs<3>([&](auto& v, const std::string& n) {
    run(o, K(), n, [&] { cml::cylindrical_to_cartesian(v, ax, r, t, h); return vvals(v); });
    run(o, K(), n + "/1", [&] { v.fill(TE1(5)); cml::cylindrical_to_cartesian(r, t, h, ax, v); return vvals(v); });
    nar(r, false, [&](auto x) { run(o, K(), n + "/r" + en<decltype(x)>(), [&] { cml::cylindrical_to_cartesian(v, ax, x, t, h); return vvals(v); }); });
    nar(h, false, [&](auto x) { run(o, K(), n + "/h" + en<decltype(x)>(), [&] { cml::cylindrical_to_cartesian(v, ax, r, t, x); return vvals(v); }); });
    nar(t, true, [&](auto x) { run(o, K(), n + "/z", [&] { cml::cylindrical_to_cartesian(v, ax, r, x, h); return vvals(v); }); });
  });
}
OP("sph") {
  TE2 r = sc<TE2>(c, "p"), t = ang(c, "tc", "ts"), p = ang(c, "pc", "ps");
  int ax = int(c.s("axis"));
  auto ty = c.s("lat") ? cml::latitude : cml::colatitude;
  outs<3>([&](auto& v, const std::string& n) {
    run(o, K(), n, [&] { cml::spherical_to_cartesian(v, ax, ty, r, t, p); return vvals(v); });
    run(o, K(), n + "/1", [&] { v.fill(TE1(5)); cml::spherical_to_cartesian(r, t, p, ax, ty, v); return vvals(v); });
    nar(r, false, [&](auto x) { run(o, K(), n + "/r" + en<decltype(x)>(), [&] { cml::spherical_to_cartesian(v, ax, ty, x, t, p); return vvals(v); }); });
    nar(t, true, [&](auto x) { run(o, K(), n + "/z", [&] { cml::spherical_to_cartesian(v, ax, ty, r, x, p); return vvals(v); }); });
    if(!c.s("lat")) nar(p, true, [&](auto x) { run(o, K(), n + "/y", [&] { cml::spherical_to_cartesian(v, ax, ty, r, t, x); return vvals(v); }); });
  });
}
template<class T> static Num C_(T t) { return enc(T(std::cos(double(t)))); }
template<class T> static Num S_(T t) { return enc(T(std::sin(double(t)))); }
OP("cpolar") {
  ins<TE1, 2>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& n) {
    if(!c.s("tol")) run(o, K(), n, [&] { TE2 r = 9, t = 9; cml::cartesian_to_polar(v, r, t); return Nums{enc(r), C_(t), S_(t), enc(t)}; });
    if constexpr(MX) if(!c.s("tol")) run(o, K(), n + "/m", [&] { TE2 r = 9, t = 9; float x = 9; cml::cartesian_to_polar(v, r, x, 1e-4); cml::cartesian_to_polar(v, x, t, 1e-4); return Nums{enc(r), C_(t), S_(t), enc(t)}; });
    run(o, K(), n + "/t", [&] { TE2 r = 9, t = 9; cml::cartesian_to_polar(v, r, t, TE2(c.s("tol") ? double(c.s("tol")) / 2 : 1e-4)); return Nums{enc(r), C_(t), S_(t), enc(t)}; });
    if(!c.s("tol") && !c.scaled) run(o, K(), n + "/rt", [&] { TE2 r = 9, t = 9; cml::cartesian_to_polar(v, r, t); cml::vector<TE1, cml::fixed<2>> w; cml::polar_to_cartesian(w, r, t);
      // back again: report the same coordinates through the rebuilt point
      TE2 r2 = 9, t2 = 9; cml::cartesian_to_polar(w, r2, t2); return Nums{enc(r2), C_(t2), S_(t2), enc(t2)}; });
  });
}
OP("ccyl") {
  int ax = int(c.s("axis"));
  ins<TE1, 3>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& n) {
    auto pk = [](TE2 r, TE2 t, TE2 h) { return Nums{enc(r), enc(h), C_(t), S_(t), enc(t)}; };
    TE2 tol = TE2(c.s("tol") ? double(c.s("tol")) / 2 : 1e-4);
    if(!c.s("tol")) run(o, K(), n, [&] { TE2 r = 9, t = 9, h = 9; cml::cartesian_to_cylindrical(v, ax, r, t, h); return pk(r, t, h); });
    if(!c.s("tol")) run(o, K(), n + "/1", [&] { TE2 r = 9, t = 9, h = 9; cml::cartesian_to_cylindrical(v, r, t, h, ax); return pk(r, t, h); });
    if constexpr(MX) if(!c.s("tol")) run(o, K(), n + "/m", [&] { TE2 r = 9, t = 9, h = 9; float x = 9, y = 9; cml::cartesian_to_cylindrical(v, ax, r, x, y, tol); cml::cartesian_to_cylindrical(v, ax, x, t, y, tol); cml::cartesian_to_cylindrical(v, ax, x, y, h, tol); return pk(r, t, h); });
    run(o, K(), n + "/t", [&] { TE2 r = 9, t = 9, h = 9; cml::cartesian_to_cylindrical(v, ax, r, t, h, tol); return pk(r, t, h); });
    run(o, K(), n + "/1t", [&] { TE2 r = 9, t = 9, h = 9; cml::cartesian_to_cylindrical(v, r, t, h, ax, tol); return pk(r, t, h); });
    if(!c.s("tol") && !c.scaled) run(o, K(), n + "/rt", [&] { TE2 r = 9, t = 9, h = 9; cml::cartesian_to_cylindrical(v, ax, r, t, h); cml::vector<TE1, cml::fixed<3>> w; cml::cylindrical_to_cartesian(w, ax, r, t, h); cml::cartesian_to_cylindrical(w, ax, r, t, h); return pk(r, t, h); });
  });
}
OP("csph") {
  int ax = int(c.s("axis"));
  auto ty = c.s("lat") ? cml::latitude : cml::colatitude;
  ins<TE1, 3>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& n) {
    auto pk = [](TE2 r, TE2 t, TE2 p) { return Nums{enc(r), C_(p), S_(p), C_(t), S_(t), enc(p), enc(t)}; };
    TE2 tol = TE2(c.s("tol") ? double(c.s("tol")) / 2 : 1e-4);
    if(!c.s("tol")) run(o, K(), n, [&] { TE2 r = 9, t = 9, p = 9; cml::cartesian_to_spherical(v, ax, ty, r, t, p); return pk(r, t, p); });
    if(!c.s("tol")) run(o, K(), n + "/1", [&] { TE2 r = 9, t = 9, p = 9; cml::cartesian_to_spherical(v, r, t, p, ax, ty); return pk(r, t, p); });
    if constexpr(MX) if(!c.s("tol")) run(o, K(), n + "/m", [&] { TE2 r = 9, t = 9, p = 9; float x = 9, y = 9; cml::cartesian_to_spherical(v, ax, ty, r, x, y, tol); cml::cartesian_to_spherical(v, ax, ty, x, t, y, tol); cml::cartesian_to_spherical(v, ax, ty, x, y, p, tol); return pk(r, t, p); });
    run(o, K(), n + "/t", [&] { TE2 r = 9, t = 9, p = 9; cml::cartesian_to_spherical(v, ax, ty, r, t, p, tol); return pk(r, t, p); });
    run(o, K(), n + "/1t", [&] { TE2 r = 9, t = 9, p = 9; cml::cartesian_to_spherical(v, r, t, p, ax, ty, tol); return pk(r, t, p); });
    if(!c.s("tol") && !c.scaled) run(o, K(), n + "/rt", [&] { TE2 r = 9, t = 9, p = 9; cml::cartesian_to_spherical(v, ax, ty, r, t, p); cml::vector<TE1, cml::fixed<3>> w; cml::spherical_to_cartesian(w, ax, ty, r, t, p); cml::cartesian_to_spherical(w, ax, ty, r, t, p, TE2(1e-4)); return pk(r, t, p); });
  });
}
template<class T> static Nums an(T t) { return {C_(t), S_(t), enc(t)}; }
template<int N, class F> static void pairs(const Call& c, F&& f)
{
  int k = 0;
  ins<TE1, N>(c.v("a"), c.s("den"), [&](const auto& a, const std::string& n) { int k1 = k++, k2 = 0; ins<TE2, N>(c.v("b"), c.s("den"), [&](const auto& b, const std::string& m) { if((k1 + k2++) % 2 == 0) f(a, b, n + m); }); });
}
OP("sang") {
  if(c.v("a").size() == 2) pairs<2>(c, [&](const auto& a, const auto& b, const std::string& n) { run(o, K(), n, [&] { return an(cml::signed_angle_2D(a, b)); }); });
  else {
    VH<TE1, 3, 0> R1(c.v("c")); VH<TE2, 0, 1> R2(c.v("c"));
    pairs<3>(c, [&](const auto& a, const auto& b, const std::string& n) { run(o, K(), n, [&] { return an(cml::signed_angle(a, b, R1.v)); }); run(o, K(), n + "/d", [&] { return an(cml::signed_angle(a, b, R2.v)); }); });
  }
}
OP("uang") {
  if(c.v("a").size() == 2) pairs<2>(c, [&](const auto& a, const auto& b, const std::string& n) { run(o, K(), n, [&] { return an(cml::unsigned_angle_2D(a, b)); }); });
  else pairs<3>(c, [&](const auto& a, const auto& b, const std::string& n) { run(o, K(), n, [&] { return an(cml::unsigned_angle(a, b)); }); });
}
OP("rotv") {
  TE2 t = ang(c, "tc", "ts");
  int k = 0;
  ins<TE1, 3>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& n) {
    int k1 = k++, k2 = 0;
    ins<TE1, 3>(c.v("u"), c.s("du"), [&](const auto& u, const std::string& m) { if((k1 + k2++) % 2 == 0) run(o, K(), n + m, [&] { return vvals(cml::rotate_vector(v, u, t)); }); });
  });
}
