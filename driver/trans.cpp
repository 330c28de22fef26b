// Affine and linear transforms.  -DTE1 matrix and vector element type, -DTE2 element type of scalar and vector arguments
// PART 1: builders and parts, 2: concatenation, inversion, application
#include "drv.h"
using namespace drv;
#ifndef LO
#define LO 0
#define HI 16
#endif
constexpr bool FL = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value;
constexpr bool IN_ = std::is_integral<TE1>::value;
static const char* K() { return IN_ ? "i" : FL ? "f" : "d"; }
/// elements in the column convention
template<int I, class M> static Nums col(const M& m)
{
  Nums r;
  if(MC<I>::row_basis) { for(int j = 0; j < m.cols(); ++j) for(int i = 0; i < m.rows(); ++i) r.push_back(enc(m.get(i, j))); }
  else for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) r.push_back(enc(m.get(i, j)));
  return r;
}
/// n x k (column convention) matrix with elements from the top left of the n0-column list a
template<class E, int N, int KK, int I> struct AH {
  static constexpr int R = MC<I>::row_basis ? KK : N, C = MC<I>::row_basis ? N : KK;
  MH<E, I % 2 == 0 ? R : 0, I % 2 == 0 ? C : 0, I> h;
  static L order(const L& a, int n0)
  {
    L r;
    r.sc = a.sc;
    for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) r.push_back(MC<I>::row_basis ? a[j * n0 + i] : a[i * n0 + j]);
    return r;
  }
  AH(const L& a, int n0, long den = 1) : h(order(a, n0), R, C, den) {}
};
template<int N, int KK> struct Sh { static constexpr int n = N, k = KK; };
/// f(ic<I>, Shape) for every configuration and every listed shape
template<class... S, class F> static void shapes(F&& f)
{
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) (f(i, S{}), ...);
  });
}
#define AFF3 Sh<4, 4>, Sh<3, 4>
#define AFF2 Sh<3, 3>, Sh<2, 3>, Sh<4, 4>
#define LIN3 Sh<3, 3>, Sh<4, 4>, Sh<3, 4>
#define LIN2 Sh<2, 2>, Sh<3, 3>, Sh<2, 3>
#define FOR(...) shapes<__VA_ARGS__>([&](auto i_, auto s_) { \
  constexpr int I = decltype(i_)::value; using S = decltype(s_); \
  std::string nm = mname(I) + std::to_string(S::n) + std::to_string(S::k) + ":" + en<TE1>() + "," + en<TE2>(); (void)nm;
#define END });
#define FRESH AH<TE1, S::n, S::k, I> A_(c.v("a"), 4); auto& m = A_.h.m;
#define RUN(SUF, ...) { FRESH run(o, K(), nm + SUF, [&] { __VA_ARGS__; return col<I>(m); }); }
template<int N, class F> static void vv(const L& b, long den, F&& f)
{
  { VH<TE2, N, 0> v(b, den); f(v.v, "/fixed"); }
  { VH<TE2, 0, 1> v(b, den); f(v.v, "/dyn"); }
  { VH<TE2, N, 4> v(b, den); f(v.v, "/cext"); }
  { VH<TE2, 0, 3> v(b, den); f(-(-v.v), "/expr"); }
}
#define VV(N, KEY, SUF, ...) vv<N>(c.v(KEY), c.s("den"), [&](const auto& v, const std::string& vs) { RUN(vs + SUF, __VA_ARGS__) });
static TE2 sc(const Call& c, const char* k, int j) { return conv<TE2>(c.v(k), c.s("den"))[j]; }
// f(x), with x in a narrower type when that holds its value exactly
template<class F> static void nar(TE2 x, F&& f)
{
  if constexpr(std::is_same<TE2, double>::value && std::is_same<TE1, double>::value && LO == 0) {
    if(std::fabs(x) < 1e6 && double(int(x)) == x) f(int(x)); else if(double(float(x)) == x) f(float(x)); else f(x);
  } else f(x);
}
#define NAR2(F_) nar(sc(c, "b", 0), [&](auto e0) { nar(sc(c, "b", 1), [&](auto e1) { RUN("m", F_(m, e0, e1)) }); });
#define NAR3(F_) nar(sc(c, "b", 0), [&](auto e0) { nar(sc(c, "b", 1), [&](auto e1) { nar(sc(c, "b", 2), [&](auto e2) { RUN("m", F_(m, e0, e1, e2)) }); }); });
#if PART == 1
OP("tset") {
  if(c.s("dim") == 2) {
    FOR(AFF2)
      RUN("s", cml::matrix_set_translation_2D(m, sc(c, "b", 0), sc(c, "b", 1)))
      if constexpr(I < 2) { NAR2(cml::matrix_set_translation_2D) }
      VV(2, "b", "v", cml::matrix_set_translation_2D(m, v))
    END
  } else if(c.v("b").size() == 2) {
    FOR(AFF3)
      RUN("s", cml::matrix_set_translation(m, sc(c, "b", 0), sc(c, "b", 1)))
      if constexpr(I < 2) { NAR2(cml::matrix_set_translation) }
      { VH<TE2, 0, 1> v(c.v("b"), c.s("den")); RUN("d", cml::matrix_set_translation(m, v.v)) }
      { VH<TE2, 0, 3> v(c.v("b"), c.s("den")); RUN("e", cml::matrix_set_translation(m, v.v)) }
    END
  } else {
    FOR(AFF3)
      RUN("s", cml::matrix_set_translation(m, sc(c, "b", 0), sc(c, "b", 1), sc(c, "b", 2)))
      if constexpr(I < 2) { NAR3(cml::matrix_set_translation) }
      VV(3, "b", "v", cml::matrix_set_translation(m, v))
    END
  }
}
OP("tmake") {
  if(c.s("dim") == 2) {
    FOR(AFF2)
      RUN("s", cml::matrix_translation_2D(m, sc(c, "b", 0), sc(c, "b", 1)))
      if constexpr(I < 2) { NAR2(cml::matrix_translation_2D) }
      VV(2, "b", "v", cml::matrix_translation_2D(m, v))
    END
  } else if(c.v("b").size() == 2) {
    FOR(AFF3)
      RUN("s", cml::matrix_translation(m, sc(c, "b", 0), sc(c, "b", 1)))
      if constexpr(I < 2) { NAR2(cml::matrix_translation) }
      { VH<TE2, 0, 1> v(c.v("b"), c.s("den")); RUN("d", cml::matrix_translation(m, v.v)) }
    END
  } else {
    FOR(AFF3)
      RUN("s", cml::matrix_translation(m, sc(c, "b", 0), sc(c, "b", 1), sc(c, "b", 2)))
      if constexpr(I < 2) { NAR3(cml::matrix_translation) }
      VV(3, "b", "v", cml::matrix_translation(m, v))
    END
  }
}
OP("tget") {
  if(c.s("dim") == 2) {
    FOR(AFF2)
      FRESH const auto& cm = m;
      run(o, K(), nm + "s", [&] { double x, y; cml::matrix_get_translation_2D(cm, x, y); return Nums{enc(x), enc(y)}; });
      run(o, K(), nm + "v", [&] { return vvals(cml::matrix_get_translation_2D(cm)); });
      run(o, K(), nm + "x", [&] { return vvals(cml::matrix_get_translation_2D(cm * TE1(1))); });
    END
  } else {
    FOR(AFF3)
      FRESH const auto& cm = m;
      run(o, K(), nm + "s", [&] { double x, y, z; cml::matrix_get_translation(cm, x, y, z); return Nums{enc(x), enc(y), enc(z)}; });
      run(o, K(), nm + "v", [&] { return vvals(cml::matrix_get_translation(cm)); });
      run(o, K(), nm + "x", [&] { return vvals(cml::matrix_get_translation(cm * TE1(1))); });
    END
  }
}
OP("scale") {
  const L& b = c.v("b");
  bool inv = c.s("inv") != 0;
  if(c.s("dim") == 2) {
    FOR(AFF2)
      if(!inv) {
        RUN("s", cml::matrix_scale_2D(m, sc(c, "b", 0), sc(c, "b", 1)))
      if constexpr(I < 2) { NAR2(cml::matrix_scale_2D) }
        VV(2, "b", "v", cml::matrix_scale_2D(m, v))
        if(b[0] == b[1]) RUN("u", cml::matrix_uniform_scale_2D(m, sc(c, "b", 0)))
      } else {
        RUN("s", cml::matrix_inverse_scale_2D(m, sc(c, "b", 0), sc(c, "b", 1)))
      if constexpr(I < 2) { NAR2(cml::matrix_inverse_scale_2D) }
        VV(2, "b", "v", cml::matrix_inverse_scale_2D(m, v))
      }
    END
  } else {
    FOR(AFF3)
      if(!inv) {
        RUN("s", cml::matrix_scale(m, sc(c, "b", 0), sc(c, "b", 1), sc(c, "b", 2)))
      if constexpr(I < 2) { NAR3(cml::matrix_scale) }
        VV(3, "b", "v", cml::matrix_scale(m, v))
        if(b[0] == b[1] && b[1] == b[2]) RUN("u", cml::matrix_uniform_scale(m, sc(c, "b", 0)))
      } else {
        RUN("s", cml::matrix_inverse_scale(m, sc(c, "b", 0), sc(c, "b", 1), sc(c, "b", 2)))
      if constexpr(I < 2) { NAR3(cml::matrix_inverse_scale) }
        VV(3, "b", "v", cml::matrix_inverse_scale(m, v))
      }
    END
  }
}
OP("bset") {
  int i = int(c.s("i"));
  bool tr = c.s("tr") != 0;
  if(c.s("dim") == 2) {
    FOR(LIN2)
      if(!tr) {
        VV(2, "b", "", cml::matrix_set_basis_vector_2D(m, i, v))
        VV(2, "b", "n", i == 0 ? cml::matrix_set_x_basis_vector_2D(m, v) : cml::matrix_set_y_basis_vector_2D(m, v))
      } else {
        VV(2, "b", "", cml::matrix_set_transposed_basis_vector_2D(m, i, v))
        VV(2, "b", "n", i == 0 ? cml::matrix_set_transposed_x_basis_vector_2D(m, v) : cml::matrix_set_transposed_y_basis_vector_2D(m, v))
      }
    END
  } else {
    FOR(LIN3)
      if(!tr) {
        VV(3, "b", "", cml::matrix_set_basis_vector(m, i, v))
        VV(3, "b", "n", i == 0 ? cml::matrix_set_x_basis_vector(m, v) : i == 1 ? cml::matrix_set_y_basis_vector(m, v) : cml::matrix_set_z_basis_vector(m, v))
      } else {
        VV(3, "b", "", cml::matrix_set_transposed_basis_vector(m, i, v))
        VV(3, "b", "n", i == 0 ? cml::matrix_set_transposed_x_basis_vector(m, v) : i == 1 ? cml::matrix_set_transposed_y_basis_vector(m, v) : cml::matrix_set_transposed_z_basis_vector(m, v))
      }
    END
  }
}
OP("bsets") {
  bool tr = c.s("tr") != 0;
  if(c.s("dim") == 2) {
    VH<TE2, 2, 0> x(c.v("x")); VH<TE2, 0, 1> y(c.v("y"));
    FOR(LIN2) if(!tr) RUN("", cml::matrix_set_basis_vectors_2D(m, x.v, y.v)) else RUN("", cml::matrix_set_transposed_basis_vectors_2D(m, x.v, y.v)) END
  } else {
    VH<TE2, 3, 0> x(c.v("x")); VH<TE2, 0, 1> y(c.v("y")); VH<TE2, 3, 4> z(c.v("z"));
    FOR(LIN3) if(!tr) RUN("", cml::matrix_set_basis_vectors(m, x.v, y.v, z.v)) else RUN("", cml::matrix_set_transposed_basis_vectors(m, x.v, y.v, z.v)) END
  }
}
OP("bget") {
  int i = int(c.s("i"));
  bool tr = c.s("tr") != 0;
  if(c.s("dim") == 2) {
    FOR(LIN2)
      FRESH const auto& cm = m;
      run(o, K(), nm, [&] { return tr ? vvals(cml::matrix_get_transposed_basis_vector_2D(cm, i)) : vvals(cml::matrix_get_basis_vector_2D(cm, i)); });
      run(o, K(), nm + "n", [&] {
        return tr ? vvals(i == 0 ? cml::matrix_get_transposed_x_basis_vector_2D(cm) : cml::matrix_get_transposed_y_basis_vector_2D(cm))
                  : vvals(i == 0 ? cml::matrix_get_x_basis_vector_2D(cm) : cml::matrix_get_y_basis_vector_2D(cm)); });
      run(o, K(), nm + "a", [&] {
        cml::vector<TE1, cml::fixed<2>> x; cml::vector<TE1, cml::dynamic<>> y;
        if(tr) cml::matrix_get_transposed_basis_vectors_2D(cm, x, y); else cml::matrix_get_basis_vectors_2D(cm, x, y);
        return i == 0 ? vvals(x) : vvals(y); });
    END
  } else {
    FOR(LIN3)
      FRESH const auto& cm = m;
      run(o, K(), nm, [&] { return tr ? vvals(cml::matrix_get_transposed_basis_vector(cm, i)) : vvals(cml::matrix_get_basis_vector(cm, i)); });
      run(o, K(), nm + "n", [&] {
        return tr ? vvals(i == 0 ? cml::matrix_get_transposed_x_basis_vector(cm) : i == 1 ? cml::matrix_get_transposed_y_basis_vector(cm) : cml::matrix_get_transposed_z_basis_vector(cm))
                  : vvals(i == 0 ? cml::matrix_get_x_basis_vector(cm) : i == 1 ? cml::matrix_get_y_basis_vector(cm) : cml::matrix_get_z_basis_vector(cm)); });
      run(o, K(), nm + "a", [&] {
        cml::vector<TE1, cml::fixed<3>> x, z; cml::vector<TE1, cml::dynamic<>> y;
        if(tr) cml::matrix_get_transposed_basis_vectors(cm, x, y, z); else cml::matrix_get_basis_vectors(cm, x, y, z);
        return i == 0 ? vvals(x) : i == 1 ? vvals(y) : vvals(z); });
      run(o, K(), nm + "nd", [&] {
        Nums r;
        if(tr) { for(int j = 0; j < 3; ++j) r.push_back(vvals(cml::matrix_get_basis_vector_nD(cm, j))[i]); return r; }
        r = vvals(cml::matrix_get_basis_vector_nD(cm, i)); r.resize(3); return r; });
    END
  }
}
OP("skew") {
  if(c.s("dim") == 2) { FOR(LIN2) RUN("", cml::matrix_skew_symmetric_2D(m, sc(c, "b", 0))) END }
  else { FOR(LIN3) VV(3, "b", "", cml::matrix_skew_symmetric(m, v)) END }
}
// l: 3x3 (column convention) over den, as the leading part of 3x3, 4x4 and 3x4 sources
template<class F> static void linsrc(const Call& c, F&& f)
{
  const L& l = c.v("l");
  L l4;
  for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) l4.push_back(i < 3 && j < 3 ? l[i * 3 + j] : 31 + i * 4 + j);
  { AH<TE1, 3, 3, 0> s(l, 3, c.s("den")); f(s.h.m, "<f33cb"); }
  { AH<TE1, 3, 3, 12> s(l, 3, c.s("den")); f(s.h.m, "<f33rb"); }
  { AH<TE1, 4, 4, 5> s(l4, 4, c.s("den")); f(s.h.m, "<d44rb"); }
  { AH<TE1, 3, 4, 9> s(l4, 4, c.s("den")); f(s.h.m, "<d34cb"); }
}
OP("linear") {
  FOR(LIN3) linsrc(c, [&](const auto& l, const std::string& ls) { RUN(ls, cml::matrix_linear_transform(m, l)) }); END
}
OP("affine2") {
  FOR(AFF3)
    linsrc(c, [&](const auto& l, const std::string& ls) {
      { VH<TE2, 3, 0> t(c.v("t")); RUN(ls + "f", cml::matrix_affine_transform(m, l, t.v)) }
      { VH<TE2, 0, 1> t(c.v("t")); RUN(ls + "d", cml::matrix_affine_transform(m, l, t.v)) }
    });
  END
}
OP("affine") {
  if constexpr(!IN_ && !std::is_integral<TE2>::value) {
    TE2 an = TE2(2 * std::atan2(double(c.s("sa")), double(c.s("ca"))));
    bool norm = c.s("norm") != 0;
    FOR(AFF3)
      VH<TE2, 3, 0> t(c.v("t"));
      vv<3>(c.v("b"), norm ? 1 : c.s("du"), [&](const auto& u, const std::string& us) {
        RUN(us, if(norm) cml::matrix_affine_transform(m, u, an, t.v, true); else cml::matrix_affine_transform(m, u, an, t.v))
      });
    END
  }
}
OP("look") {
  if constexpr(!IN_ && !std::is_integral<TE2>::value) {
    FOR(AFF3)
      VH<TE2, 3, 0> e(c.v("b")); VH<TE2, 0, 1> t(c.v("t")); VH<TE2, 3, 4> u(c.v("u")); VH<TE2, 3, 0> t3(c.v("t")), u3(c.v("u"));
      RUN("", cml::matrix_look_at(m, e.v, t.v, u.v, c.s("hand") ? cml::left_handed : cml::right_handed))
      RUN("n", if(c.s("hand")) cml::matrix_look_at_LH(m, e.v, t3.v, u3.v); else cml::matrix_look_at_RH(m, e.v, t3.v, u3.v))
      RUN("x", if(c.s("hand")) cml::matrix_look_at_LH(m, -(-e.v), t3.v * TE2(1), u3.v + cml::vector<TE2, cml::fixed<3>>(0, 0, 0)); else cml::matrix_look_at_RH(m, -(-e.v), t3.v * TE2(1), u3.v + cml::vector<TE2, cml::fixed<3>>(0, 0, 0)))
    END
  }
}
#else
template<int N, int I, int J> static void cat(const Call& c, Obs& o)
{
  AH<TE1, N, N, I> A(c.v("a"), N, c.s("den")); AH<TE2, N, N, J> B(c.v("b"), N, c.s("den"));
  std::string nm = mname(I) + "," + mname(J) + ":" + en<TE1>() + "," + en<TE2>();
  constexpr bool in = std::is_integral<TE1>::value && std::is_integral<TE2>::value;
  run(o, in ? "i" : FL ? "f" : "d", nm, [&] { auto m = cml::matrix_concat(A.h.m, B.h.m); return col<I>(m); });
  run(o, in ? "i" : FL ? "f" : "d", nm + "x", [&] { auto m = cml::matrix_concat(-(-A.h.m), B.h.m); return col<I>(m); });
}
OP("concat") {
  at_n<1, 2, 3, 4, 5>(int(c.s("n")), [&](auto n) {
    constexpr int N = decltype(n)::value;
    if(LO == 0) { cat<N, 0, 0>(c, o); cat<N, 0, 1>(c, o); cat<N, 2, 3>(c, o); cat<N, 8, 9>(c, o); cat<N, 11, 10>(c, o); }
    else { cat<N, 4, 4>(c, o); cat<N, 5, 6>(c, o); cat<N, 7, 4>(c, o); cat<N, 13, 12>(c, o); cat<N, 14, 15>(c, o); }
  });
}
// rotation R (n x n, over dr) and translation t, in an n x (n+1) or (n+1) x (n+1) matrix
template<int N, class OBS> static void rtinv(const Call& c, OBS& o)
{
  const L& R = c.v("rot"); const L& t = c.v("t");
  long dr = c.s("dr");
  L a;
  for(int i = 0; i <= N; ++i) for(int j = 0; j <= N; ++j) a.push_back(i < N && j < N ? R[i * N + j] : i < N ? t[i] * dr : (j == N) * dr);
  using S1 = Sh<N + 1, N + 1>; using S2 = Sh<N, N + 1>;
  shapes<S1, S2>([&](auto i_, auto s_) {
    constexpr int I = decltype(i_)::value; using S = decltype(s_);
    std::string nm = mname(I) + std::to_string(S::n) + std::to_string(S::k) + ":" + en<TE1>();
    { AH<TE1, S::n, S::k, I> A(a, N + 1, dr); auto& m = A.h.m; run(o, K(), nm + "nD", [&] { cml::matrix_invert_RT(m); return col<I>(m); }); }
    if constexpr(N == 2) { AH<TE1, S::n, S::k, I> A(a, N + 1, dr); auto& m = A.h.m; run(o, K(), nm + "2D", [&] { cml::matrix_invert_RT_only_2D(m); return col<I>(m); }); }
    if constexpr(N == 3) { AH<TE1, S::n, S::k, I> A(a, N + 1, dr); auto& m = A.h.m; run(o, K(), nm + "3D", [&] { cml::matrix_invert_RT_only(m); return col<I>(m); }); }
  });
}
OP("rtinv") { at_n<1, 2, 3, 4>(int(c.s("n")), [&](auto n) { rtinv<decltype(n)::value>(c, o); }); }
template<int N, class F> static void tv(const L& b, long den, F&& f)
{
  { VH<TE1, N, 0> v(b, den); f(v.v, "/fixed"); }
  { VH<TE1, 0, 1> v(b, den); f(v.v, "/dyn"); }
  { VH<TE1, N, 2> v(b, den); f(v.v, "/ext"); }
  { VH<TE1, 0, 5> v(b, den); f(v.v, "/cext"); }
  { VH<TE1, N, 0> v(b, den); f(v.v * TE1(1), "/expr"); }
}
#define AMAT AH<TE2, S::n, S::k, I> A_(c.v("a"), 4); const auto& m = A_.h.m;
// exact matrices: the precision is that of the vector
static const char* KV() { return IN_ ? "i" : std::is_same<TE1, float>::value ? "f" : "d"; }
OP("tvec") {
  if(c.s("dim") == 2) { FOR(LIN2) AMAT tv<2>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& s) { run(o, KV(), nm + s, [&] { return vvals(cml::transform_vector_2D(m, v)); }); }); END }
  else { FOR(LIN3) AMAT tv<3>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& s) {
    run(o, KV(), nm + s, [&] { return vvals(cml::transform_vector(m, v)); });
    run(o, KV(), nm + s + "x", [&] { return vvals(cml::transform_vector(-(-m), v)); }); }); END }
}
OP("tpt") {
  if(c.s("dim") == 2) { FOR(AFF2) AMAT tv<2>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& s) { run(o, KV(), nm + s, [&] { return vvals(cml::transform_point_2D(m, v)); }); }); END }
  else { FOR(AFF3) AMAT tv<3>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& s) {
    run(o, KV(), nm + s, [&] { return vvals(cml::transform_point(m, v)); });
    run(o, KV(), nm + s + "x", [&] { return vvals(cml::transform_point(m + m - m, v)); }); }); END }
}
// a vector of integers keeps its type: the exact result, converted
OP("tvi") {
  if constexpr(!IN_) {
    auto iv = [&](auto n, auto&& f) {
      constexpr int N = decltype(n)::value; const L& b = c.v("b");
      cml::vector<int, cml::fixed<N>> v; cml::vector<int, cml::dynamic<>> w(N); for(int j = 0; j < N; ++j) v[j] = w[j] = int(b[j]);
      f(v, "/f"); f(w, "/d");
    };
#define TVI(SH, N, F) { FOR(SH) AH<TE1, S::n, S::k, I> A_(c.v("a"), 4, c.s("dm")); const auto& m = A_.h.m; iv(ic<N>{}, [&](const auto& v, const char* s) { run(o, "i", nm + s, [&] { return vvals(cml::F(m, v)); }); }); END }
    switch(c.s("which")) {
    case 0: TVI(LIN2, 2, transform_vector_2D) break;
    case 1: TVI(AFF2, 2, transform_point_2D) break;
    case 2: TVI(LIN3, 3, transform_vector) break;
    case 3: TVI(AFF3, 3, transform_point) break;
    }
  }
}
OP("tvec4") {
  using S44 = Sh<4, 4>;
  FOR(S44) AMAT tv<4>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& s) { run(o, KV(), nm + s, [&] { return vvals(cml::transform_vector_4D(m, v)); }); }); END
}
OP("tpt4") {
  using S44 = Sh<4, 4>;
  FOR(S44) AMAT tv<3>(c.v("b"), c.s("den"), [&](const auto& v, const std::string& s) { run(o, KV(), nm + s, [&] { return vvals(cml::transform_point_4D(m, v)); }); }); END
}
// two transforms applied one after the other, and their concatenation
OP("chain") {
  if constexpr(!IN_) {
    using S44 = Sh<4, 4>;
    FOR(S44)
      AH<TE1, 4, 4, I> A(c.v("a"), 4); AH<TE1, 4, 4, I> B(c.v("m"), 4);
      VH<TE1, 3, 0> v(c.v("b"), c.s("den"));
      run(o, K(), nm, [&] { return vvals(cml::transform_point(cml::matrix_concat(A.h.m, B.h.m), v.v)); });
      run(o, K(), nm + "2", [&] { return vvals(cml::transform_point(B.h.m, cml::transform_point(A.h.m, v.v))); });
      run(o, K(), nm + "p", [&] { if constexpr(MC<I>::row_basis) return vvals(cml::transform_point(A.h.m * B.h.m, v.v)); else return vvals(cml::transform_point(B.h.m * A.h.m, v.v)); });
    END
  }
}
#endif
