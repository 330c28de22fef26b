// Transpose, trace, determinant, inverse, LU.  -DTE1, configurations LO..HI, -DPART=1 (C10) / 2 (C11)
#include "drv.h"
#include <cml/mathlib/matrix/misc.h>
using namespace drv;
#ifndef LO
#define LO 0
#define HI 16
#endif
constexpr bool INT = std::is_integral<TE1>::value;
static bool skip(const Call& c)
{
  return (c.s("wide", 0) && std::is_same<TE1, float>::value) || (c.s("den", 1) != 1 && INT) || (c.s("pow", 0) != 0 && INT);
}
template<class M> static void scale(M& m, long p) { for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) m(i, j) = TE1(std::ldexp(double(m(i, j)), int(p))); }
template<class F, class... Shapes> static void each(const Call& c, F&& f)
{
  if(skip(c)) return;
  int r = int(c.s("r")), k = int(c.s("c"));
  long d = c.s("den", 1), p = c.s("pow", 0);
  auto one = [&](auto i, auto R, auto C) {
    MH<TE1, decltype(R)::value, decltype(C)::value, decltype(i)::value> A(c.v("a"), r, k, d);
    if(p) scale(A.m, p);
    f(A.m, mname(decltype(i)::value) + ":" + en<TE1>(), i);
  };
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      if constexpr(I % 2 == 1) one(i, ic<0>{}, ic<0>{});
      else {
        if(r == k) at_n<1, 2, 3, 4, 5, 6>(r, [&](auto N) { one(i, N, N); });
        if(r == 2 && k == 3) one(i, ic<2>{}, ic<3>{});
        if(r == 4 && k == 3) one(i, ic<4>{}, ic<3>{});
      }
    }
  });
}
template<class M> constexpr bool nonsquare() { return cml::array_rows_of_c<cml::matrix_traits<M>>::value != cml::array_cols_of_c<cml::matrix_traits<M>>::value; }
// compile-time shape; 0 when dynamic
template<class M> constexpr int FR() { if constexpr(std::is_same<cml::size_tag_of_t<cml::matrix_traits<M>>, cml::fixed_size_tag>::value) return cml::array_rows_of_c<cml::matrix_traits<M>>::value; else return 0; }
template<class M> constexpr int FC() { if constexpr(std::is_same<cml::size_tag_of_t<cml::matrix_traits<M>>, cml::fixed_size_tag>::value) return cml::array_cols_of_c<cml::matrix_traits<M>>::value; else return 0; }
#if PART == 1
OP("transpose") {
  each(c, [&](auto& A, const std::string& n, auto i) {
    using M = std::decay_t<decltype(A)>;
    using T = cml::temporary_of_t<M>;
    run(o, kind<TE1>(), n, [&] { return mvals(cml::transpose(A)); });
    run(o, kind<TE1>(), n + "/tmp", [&] { return mvals(cml::transpose(T(A))); });
    run(o, kind<TE1>(), n + "/expr", [&] { return mvals(cml::transpose(-A) * TE1(-1)); });
    run(o, kind<TE1>(), n + "/dyn", [&] { cml::matrix<TE1, cml::dynamic<>, cml::row_basis, cml::row_major> t; t = cml::transpose(A); return mvals(t); });
    run(o, kind<TE1>(), n + "/dyncm", [&] { cml::matrix<TE1, cml::dynamic<>, cml::col_basis, cml::col_major> t; t = cml::transpose(A); return mvals(t); });
    if constexpr(FR<M>() == FC<M>()) {
      run(o, kind<TE1>(), n + "/member", [&] { T t(A); t.transpose(); return mvals(t); });
      run(o, kind<TE1>(), n + "/membertmp", [&] { return mvals(T(A).transpose()); });
      if constexpr(decltype(i)::value % 4 != 3) run(o, kind<TE1>(), n + "/inplace", [&] { A.transpose(); return mvals(A); });
    }
  });
}
OP("trace") { if(c.s("r") == c.s("c")) each(c, [&](auto& A, const std::string& n, auto) { using M = std::decay_t<decltype(A)>; if constexpr(FR<M>() == FC<M>()) { run(o, kind<TE1>(), n, [&] { return Nums{enc(A.trace())}; }); run(o, kind<TE1>(), n, [&] { return Nums{enc(cml::trace(A + A * TE1(0)))}; }); } }); }
OP("trace22") { each(c, [&](auto& A, const std::string& n, auto) { using M = std::decay_t<decltype(A)>; if constexpr(FR<M>() == 0 || (FR<M>() >= 2 && FC<M>() >= 2)) run(o, kind<TE1>(), n, [&] { return Nums{enc(cml::trace_2x2(A))}; }); }); }
OP("trace33") { each(c, [&](auto& A, const std::string& n, auto) { using M = std::decay_t<decltype(A)>; if constexpr(FR<M>() == 0 || (FR<M>() >= 3 && FC<M>() >= 3)) run(o, kind<TE1>(), n, [&] { return Nums{enc(cml::trace_3x3(A))}; }); }); }
OP("det") {
  long p = c.s("pow", 0);
  each(c, [&](auto& A, const std::string& n, auto) {
    using M = std::decay_t<decltype(A)>;
    if constexpr(FR<M>() == FC<M>() && (!INT || (FR<M>() > 1 && FR<M>() <= 4))) {
      double u = std::ldexp(1.0, -int(p * c.s("r")));
      auto x = [&](auto v) { if constexpr(INT) return enc(v); else return enc(TE1(v * u)); };
      run(o, kind<TE1>(), n, [&] { return Nums{x(A.determinant())}; });
      run(o, kind<TE1>(), n, [&] { return Nums{x(cml::determinant(A))}; });
      run(o, kind<TE1>(), n, [&] { return Nums{x(cml::determinant(+A))}; });
      run(o, kind<TE1>(), n + "/t", [&] { return Nums{x(cml::determinant(cml::transpose(A)))}; });
    }
  });
}
OP("inverse") {
  long p = c.s("pow", 0);
  if constexpr(!INT) each(c, [&](auto& A, const std::string& n, auto) {
    using M = std::decay_t<decltype(A)>;
    using T = cml::temporary_of_t<M>;
    if constexpr(FR<M>() == FC<M>()) {
      auto x = [&](auto m) { scale(m, p); return mvals(m); };
      run(o, kind<TE1>(), n, [&] { return x(T(cml::inverse(A))); });
      run(o, kind<TE1>(), n + "/expr", [&] { return x(T(cml::inverse(-A) * TE1(-1))); });
      run(o, kind<TE1>(), n + "/t", [&] { return x(T(cml::transpose(cml::inverse(cml::transpose(A))))); });
      run(o, kind<TE1>(), n + "/member", [&] { T t(A); t.inverse(); return x(t); });
      run(o, kind<TE1>(), n + "/membertmp", [&] { return x(T(T(A).inverse())); });
      run(o, kind<TE1>(), n + "/inplace", [&] { A.inverse(); return x(T(A)); });
    }
  });
}
#endif
#if PART == 2
OP("lu") {
  long p = c.s("pow", 0);
  if constexpr(!INT) each(c, [&](auto& A, const std::string& n, auto) {
    using M = std::decay_t<decltype(A)>;
    using T = cml::temporary_of_t<M>;
    if constexpr(FR<M>() == FC<M>()) {
      // scaling the matrix scales U and leaves L
      auto x = [&](T m) { for(int i = 0; i < m.rows(); ++i) for(int j = i; j < m.cols(); ++j) m(i, j) = TE1(std::ldexp(double(m(i, j)), -int(p))); return mvals(m); };
      run(o, kind<TE1>(), n, [&] { return x(cml::lu(A)); });
      run(o, kind<TE1>(), n + "/expr", [&] { return x(cml::lu(A + A * TE1(0))); });
    }
  });
}
OP("lup") {
  long p = c.s("pow", 0);
  if constexpr(!INT) each(c, [&](auto& A, const std::string& n, auto) {
    using M = std::decay_t<decltype(A)>;
    using T = cml::temporary_of_t<M>;
    if constexpr(FR<M>() == FC<M>()) {
      auto x = [&](auto& r) {
        Nums v{enc(r.sign)};
        for(int i : r.order) v.push_back(enc(i));
        T m(r.lu);
        for(int i = 0; i < m.rows(); ++i) for(int j = i; j < m.cols(); ++j) m(i, j) = TE1(std::ldexp(double(m(i, j)), -int(p)));
        for(auto& y : mvals(m)) v.push_back(y);
        return v;
      };
      run(o, kind<TE1>(), n, [&] { auto r = cml::lu_pivot(A); return x(r); });
      run(o, kind<TE1>(), n + "/inplace", [&] { cml::lu_pivot_result<T> r{T(A)}; r.sign = 7; cml::lu_pivot(r); return x(r); });
    }
  });
}
// which 0: unpivoted factors, 1: pivoted
OP("lusolve") {
  long w = c.s("which");
  const L& b = c.v("b");
  if constexpr(!INT) each(c, [&](auto& A, const std::string& n, auto) {
    using M = std::decay_t<decltype(A)>;
    using T = cml::temporary_of_t<M>;
    if constexpr(FR<M>() == FC<M>()) {
      auto vs = [&](auto V) {
        using VV = std::decay_t<decltype(V.v)>;
        using VT = cml::temporary_of_t<VV>;
        auto all = [&](const auto& F, const std::string& nn) {
          run(o, kind<TE1>(), nn, [&] { return vvals(cml::lu_solve(F, V.v)); });
          run(o, kind<TE1>(), nn + "/x", [&] { VT x(V.v); x.fill(TE1(13)); cml::lu_solve(F, x, V.v); return vvals(x); });
          run(o, kind<TE1>(), nn + "/xb", [&] { VT x(V.v); cml::lu_solve(F, x, x); return vvals(x); });
          run(o, kind<TE1>(), nn + "/expr", [&] { VT x(V.v); cml::lu_solve(F, x, V.v * TE1(1)); return vvals(x); });
        };
        // a right-hand side of another element type
        auto mixed = [&](const auto& F, const std::string& nn, auto e) {
          using E = decltype(e);
          if(c.s("pow", 0) || c.scaled) return;
          cml::vector<E, cml::dynamic<>> bm(int(b.size()));
          for(int i = 0; i < int(b.size()); ++i) bm[i] = E(b[i]);
          run(o, kind<TE1>(), nn + "/mixed_" + kind<E>(), [&] { VT x(V.v); x.fill(TE1(13)); cml::lu_solve(F, x, bm); return vvals(x); });
        };
        if(w == 0) { T F = cml::lu(A); mixed(F, n, int()); mixed(F, n, float()); mixed(F, n, double()); }
        else { auto F = cml::lu_pivot(A); mixed(F, n + "/p", int()); mixed(F, n + "/p", float()); mixed(F, n + "/p", double()); }
        if(w == 0) { T F = cml::lu(A); all(F, n); run(o, kind<TE1>(), n + "/direct", [&] { return vvals(cml::lu_solve(cml::lu(A), V.v)); }); }
        else { auto F = cml::lu_pivot(A); all(F, n + "/p"); }
      };
      struct D { cml::vector<TE1, cml::dynamic<>> v; };
      auto bc = conv<TE1>(b, 1);
      { D d; d.v.resize(int(b.size())); for(int i = 0; i < int(b.size()); ++i) d.v[i] = bc[i]; if(c.s("pow", 0)) d.v *= TE1(std::ldexp(1.0, int(c.s("pow", 0)))); vs(d); }
      if constexpr(FR<M>() > 0) { struct Fx { cml::vector<TE1, cml::fixed<FR<M>()>> v; }; Fx d; for(int i = 0; i < int(b.size()); ++i) d.v[i] = bc[i]; if(c.s("pow", 0)) d.v *= TE1(std::ldexp(1.0, int(c.s("pow", 0)))); vs(d); }
    }
  });
}
// a singular pivoted factorization is refused; the destination keeps its value
OP("lusing") {
  if constexpr(!INT) each(c, [&](auto& A, const std::string& n, auto) {
    using M = std::decay_t<decltype(A)>;
    if constexpr(FR<M>() == FC<M>()) {
      auto F = cml::lu_pivot(A);
      cml::vector<TE1, cml::dynamic<>> b(A.rows()), x(A.rows());
      b.fill(TE1(1)); x.fill(TE1(5));
      run(o, "s", n, [&] { cml::lu_solve(F, x, b); return vvals(x); });
      run(o, "s", n, [&] { return vvals(cml::lu_solve(F, b)); });
      run(o, "x", n, [&] { return vvals(x); });
    }
  });
}
#endif
