// Projections and frustum planes.  -DTE1 matrix element type, -DTE2 element type of the arguments and planes
#include "drv.h"
#include <cml/mathlib/frustum.h>
#include <cml/util.h>
using namespace drv;
#ifndef LO
#define LO 0
#define HI 16
#endif
constexpr bool FL = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value;
static const char* K() { return FL ? "f" : "d"; }
template<int I, class M> static Nums col(const M& m)
{
  Nums r;
  for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) r.push_back(MC<I>::row_basis ? enc(m.get(j, i)) : enc(m.get(i, j)));
  return r;
}
namespace { struct P { TE2 l, r, b, t, n, f; cml::AxisOrientation h; cml::ZClip z; bool sym; TE2 w, hh, xf, yf, asp; }; }
static P par(const Call& c)
{
  double d = std::ldexp(double(c.s("den")), -c.v("n").sc);
  double l = c.s("l") / d, r = c.s("r") / d, b = c.s("b") / d, t = c.s("t") / d, n = c.s("n") / d, f = c.s("f") / d;
  P p{TE2(l), TE2(r), TE2(b), TE2(t), TE2(n), TE2(f), c.s("hand") ? cml::left_handed : cml::right_handed, c.s("zc") ? cml::z_clip_zero : cml::z_clip_neg_one,
      l == -r && b == -t, TE2(r - l), TE2(t - b), TE2(2 * std::atan2(r, n)), TE2(2 * std::atan2(t, n)), TE2((r - l) / (t - b))};
  return p;
}
template<class F> static void mats(F&& f)
{
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      L g(16, 9);
      { MH<TE1, I % 2 == 0 ? 4 : 0, I % 2 == 0 ? 4 : 0, I> A(g, 4, 4); f(i, A.m, mname(I) + ":" + en<TE1>() + "," + en<TE2>()); }
    }
  });
}
#define GO(SUF, ...) run(o, K(), nm + SUF, [&] { m.fill(TE1(7)); __VA_ARGS__; return col<decltype(i)::value>(m); });
OP("ortho") {
  P p = par(c);
  bool LH = c.s("hand") != 0;
  mats([&](auto i, auto& m, const std::string& nm) {
    GO("", cml::matrix_orthographic(m, p.l, p.r, p.b, p.t, p.n, p.f, p.h, p.z))
    GO("h", if(LH) cml::matrix_orthographic_LH(m, p.l, p.r, p.b, p.t, p.n, p.f, p.z); else cml::matrix_orthographic_RH(m, p.l, p.r, p.b, p.t, p.n, p.f, p.z))
    if(p.sym) {
      GO("w", cml::matrix_orthographic(m, p.w, p.hh, p.n, p.f, p.h, p.z))
      GO("wh", if(LH) cml::matrix_orthographic_LH(m, p.w, p.hh, p.n, p.f, p.z); else cml::matrix_orthographic_RH(m, p.w, p.hh, p.n, p.f, p.z))
    }
  });
}
OP("persp") {
  P p = par(c);
  bool LH = c.s("hand") != 0;
  mats([&](auto i, auto& m, const std::string& nm) {
    GO("", cml::matrix_perspective(m, p.l, p.r, p.b, p.t, p.n, p.f, p.h, p.z))
    GO("h", if(LH) cml::matrix_perspective_LH(m, p.l, p.r, p.b, p.t, p.n, p.f, p.z); else cml::matrix_perspective_RH(m, p.l, p.r, p.b, p.t, p.n, p.f, p.z))
    if(p.sym) {
      GO("w", cml::matrix_perspective(m, p.w, p.hh, p.n, p.f, p.h, p.z))
      GO("wh", if(LH) cml::matrix_perspective_LH(m, p.w, p.hh, p.n, p.f, p.z); else cml::matrix_perspective_RH(m, p.w, p.hh, p.n, p.f, p.z))
      GO("x", cml::matrix_perspective_xfov(m, p.xf, p.asp, p.n, p.f, p.h, p.z))
      GO("xh", if(LH) cml::matrix_perspective_xfov_LH(m, p.xf, p.asp, p.n, p.f, p.z); else cml::matrix_perspective_xfov_RH(m, p.xf, p.asp, p.n, p.f, p.z))
      GO("y", cml::matrix_perspective_yfov(m, p.yf, p.asp, p.n, p.f, p.h, p.z))
      GO("yh", if(LH) cml::matrix_perspective_yfov_LH(m, p.yf, p.asp, p.n, p.f, p.z); else cml::matrix_perspective_yfov_RH(m, p.yf, p.asp, p.n, p.f, p.z))
    }
  });
}
static Nums pv(const TE2 (&pl)[6][4]) { Nums r; for(auto& x : pl) for(TE2 y : x) r.push_back(enc(y)); return r; }
/// modelview: rotation q/dq and translation v (ints)
template<int I, class M> static void view(M& m, const Call& c)
{
  const L& q = c.v("q");
  auto t = conv<double>(c.v("v"), 1);
  double d = double(c.s("dq")) * c.s("dq"), w = q[0], x = q[1], y = q[2], z = q[3];
  double R[3][4] = {{(w*w+x*x-y*y-z*z)/d, 2*(x*y-w*z)/d, 2*(x*z+w*y)/d, t[0]},
                    {2*(x*y+w*z)/d, (w*w-x*x+y*y-z*z)/d, 2*(y*z-w*x)/d, t[1]},
                    {2*(x*z-w*y)/d, 2*(y*z+w*x)/d, (w*w-x*x-y*y+z*z)/d, t[2]}};
  for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { TE1 e = TE1(i < 3 ? R[i][j] : double(j == 3)); if(MC<I>::row_basis) m.put(j, i, e); else m.put(i, j, e); }
}
template<class F> static void planes(const Call& c, F&& f)
{
  P p = par(c);
  mats([&](auto i, auto& m, const std::string& nm) {
    constexpr int I = decltype(i)::value;
    if(c.s("persp")) cml::matrix_perspective(m, p.l, p.r, p.b, p.t, p.n, p.f, p.h, p.z); else cml::matrix_orthographic(m, p.l, p.r, p.b, p.t, p.n, p.f, p.h, p.z);
    L g(16, 9);
    MH<TE1, I % 2 == 0 ? 4 : 0, I % 2 == 0 ? 4 : 0, I> V(g, 4, 4);
    view<I>(V.m, c);
    f(V.m, m, nm, p.z);
  });
}
OP("planes") {
  planes(c, [&](auto& v, auto& m, const std::string& nm, cml::ZClip z) {
    run(o, K(), nm, [&] { TE2 pl[6][4]; cml::extract_frustum_planes(v, m, pl, z); return pv(pl); });
    run(o, K(), nm + "t", [&] { TE2 pl[6][4]; cml::extract_frustum_planes(v, m, pl, z, true); return pv(pl); });
    run(o, K(), nm + "c", [&] { TE2 pl[6][4]; auto vm = cml::matrix_concat(v, m); cml::extract_frustum_planes(vm, pl, z); return pv(pl); });
  });
}
OP("planesraw") {
  planes(c, [&](auto& v, auto& m, const std::string& nm, cml::ZClip z) {
    run(o, K(), nm, [&] { TE2 pl[6][4]; cml::extract_frustum_planes(v, m, pl, z, false); return pv(pl); });
    run(o, K(), nm + "c", [&] { TE2 pl[6][4]; auto vm = cml::matrix_concat(v, m); cml::extract_frustum_planes(vm, pl, z, false); return pv(pl); });
  });
}
OP("nearp") {
  planes(c, [&](auto& v, auto& m, const std::string& nm, cml::ZClip z) {
    auto vm = cml::matrix_concat(v, m);
    run(o, K(), nm, [&] { TE2 pl[4]; cml::extract_near_frustum_plane(vm, pl, z); Nums r; for(TE2 y : pl) r.push_back(enc(y)); return r; });
    run(o, K(), nm + "v", [&] { cml::vector<TE2, cml::fixed<4>> pl; cml::extract_near_frustum_plane(vm, pl, z); return vvals(pl); });
  });
}

/// tangents of half the fields of view (the first two and the last three are angles), and zooms
OP("fovz") {
  TE2 f = TE2(2 * std::atan2(double(c.s("p")), double(c.s("q")))), z = TE2(double(c.s("q")) / double(c.s("p"))), a = TE2(double(c.s("an")) / double(c.s("ad")));
  auto T = [](TE2 x) { return enc(std::tan(double(x) / 2)); };
  run(o, K(), en<TE2>(), [&] {
    return Nums{T(cml::xfov_to_yfov(f, a)), T(cml::yfov_to_xfov(f, a)), enc(cml::xzoom_to_yzoom(z, a)), enc(cml::yzoom_to_xzoom(z, a)), T(cml::zoom_to_fov(z)), enc(cml::fov_to_zoom(f)),
                T(cml::yfov_to_xfov(cml::xfov_to_yfov(f, a), a)), T(cml::zoom_to_fov(cml::fov_to_zoom(f)))};
  });
}
