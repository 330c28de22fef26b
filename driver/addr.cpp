// C05: a matrix is built, written to through various writers, and read back
// through every accessor after each write.  -DTE1 element, -DTE2 element of
// other matrices, configurations LO..HI
#include "drv.h"
#include <cml/util/matrix_print.h>
#include <cml/util/quaternion_print.h>
#include <cml/util/vector_print.h>
#include <array>
#include <sstream>
using namespace drv;
#ifndef LO
#define LO 0
#define HI 16
#endif
static constexpr int W = 15;   // width of one instruction

template<class M> static void project(const M& m, Nums& r)
{
  auto n = [&](long x) { r.push_back({x, 0}); };
  const int R = m.rows(), C = m.cols();
  auto s = cml::array_size_of(m);
  n(R); n(C); n(s.first); n(s.second); n(m.basis_count()); n(m.basis_size());
  if(R > 12 || C > 12) return;
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) r.push_back(enc(m.get(i, j)));
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) r.push_back(enc(m(i, j)));
  for(int i = 0; i < R; ++i) { auto v = cml::row(m, i); n(v.size()); for(int j = 0; j < v.size(); ++j) r.push_back(enc(v[j])); }
  for(int j = 0; j < C; ++j) { auto v = cml::col(m, j); n(v.size()); for(int i = 0; i < v.size(); ++i) r.push_back(enc(v[i])); }
  for(int i = 0; i < m.basis_count(); ++i) { auto v = cml::basis(m, i); n(v.size()); for(int j = 0; j < v.size(); ++j) r.push_back(enc(v[j])); }
  for(int i = 0; i < m.basis_count(); ++i) for(int j = 0; j < m.basis_size(); ++j) r.push_back(enc(m.basis_element(i, j)));
  const auto* p = m.data();
  for(int k = 0; k < R * C; ++k) r.push_back(enc(p[k]));
  for(auto q = m.begin(); q != m.end(); ++q) r.push_back(enc(*q));
  auto t = cml::transpose(m);
  n(t.rows()); n(t.cols());
  for(int i = 0; i < t.rows(); ++i) for(int j = 0; j < t.cols(); ++j) r.push_back(enc(t.get(i, j)));
}
static void text(const std::string& s, Nums& r) { for(char ch : s) r.push_back({long(ch), 0}); }

template<class M> static void write(M& m, const long* w)
{
  using E = typename M::value_type;
  const int i = int(w[1]), j = int(w[2]);
  const long* x = w + 3;
  auto vec = [&](int n) { cml::vector<TE2, cml::dynamic<>> v(n); for(int k = 0; k < n; ++k) v[k] = TE2(x[k]); return v; };
  switch(w[0]) {
  case 1: m.put(i, j, TE2(x[0])); break;
  case 2: m(i, j) = E(x[0]); break;
  case 3: m.get(i, j) = E(x[0]); break;
  case 4: m.set_row(i, vec(m.cols())); break;
  case 5: m.set_col(j, vec(m.rows())); break;
  case 6: m.set_basis_element(i, j, TE2(x[0])); break;
  case 7: m.data()[i] = E(x[0]); break;
  case 11: std::move(m).put(i, j, TE2(x[0])); break;
  case 14: std::move(m).set_row(i, vec(m.cols())); break;
  case 15: std::move(m).set_col(j, vec(m.rows())); break;
  case 16: std::move(m).set_basis_element(i, j, TE2(x[0])); break;
  case 20: m += 2 * m; break;
  case 21: m = m - 3 * m; break;
  case 22: m.set_row(i, cml::row(cml::matrix<E, cml::dynamic<>>(m), j)); break;
  case 23: m.set_col(j, cml::col(cml::matrix<E, cml::dynamic<>>(m), i)); break;
  default: break;
  }
}
template<class M> static void write_sq(M& m, const long* w)
{
  switch(w[0]) {
  case 30: m.transpose(); break;
  case 31: std::move(m).transpose(); break;
  case 32: m.identity(); break;
  default: write(m, w);
  }
}
// a writable dynamic matrix also transposes when it is not square
template<class M> static auto tr(M& m, int) -> decltype(m.resize_fast(1, 1), void()) { m.transpose(); }
template<class M> static void tr(M&, long) {}

template<int R, int C, class M> static Nums exec(const Call& c, M& m, bool resizable)
{
  Nums r;
  project(m, r);
  const L& p = c.v("prog");
  for(std::size_t k = 0; k + W <= p.size(); k += W) {
    if(p[k] == 33) { if(!resizable) continue; tr(m, 0); }
    else if constexpr(R == 0) { if(m.rows() == m.cols()) write_sq(m, p.data() + k); else write(m, p.data() + k); }
    else if constexpr(R == C) write_sq(m, p.data() + k);
    else write(m, p.data() + k);
    project(m, r);
  }
  std::ostringstream os;
  os << m;
  text(os.str(), r);
  return r;
}
template<class T, class A, std::size_t... K> static T from_list_fixed(const A& a, std::index_sequence<K...>) { return T(a[K]...); }
template<class T, class A, std::size_t... K> static T from_list_dyn(int r, int c, const A& a, std::index_sequence<K...>) { return T(r, c, a[K]...); }
template<class T, class A, std::size_t... K> static T from_ilist(const A& a, std::index_sequence<K...>) { return T(std::initializer_list<TE2>{a[K]...}); }
template<class M, class A, std::size_t... K> static void assign_ilist(M& m, const A& a, std::index_sequence<K...>) { m = {a[K]...}; }

template<int R, int C, int I> static void at_config(const Call& c, Obs& o)
{
  using E = TE1;
  constexpr int S = I % 4, N = R * C;
  const int ctor = int(c.s("ctor"));
  const L& a = c.v("a");
  const std::string nm = mname(I) + ":" + en<E>();
  const char* k = "v";
  std::array<TE2, N> al;
  TE2 a2[R][C], a1[N];
  for(int n = 0; n < N; ++n) { al[n] = TE2(a[n]); a2[n / C][n % C] = TE2(a[n]); a1[n] = TE2(a[n]); }
  using SQ = std::make_index_sequence<N>;
  using T = typename MH<E, R, C, I>::T;
  L z(N, 5);
  if(c.s("resz", 0) && S != 1) return;
  auto go = [&](auto& m) { run(o, k, nm, [&] { return exec<R, C>(c, m, S == 1); }); };
  auto fresh = [&](auto&& f) { MH<E, R, C, I> h(z, R, C); f(h.m); go(h.m); };
  switch(ctor) {
  case 0: { MH<E, R, C, I> h(a, R, C); go(h.m); break; }
  case 1:
    if constexpr(S == 0) { T m = from_list_fixed<T>(al, SQ{}); go(m); }
    else if constexpr(S == 1) { T m = from_list_dyn<T>(R, C, al, SQ{}); go(m); }
    fresh([&](auto& m) { assign_ilist(m, al, SQ{}); });
    break;
  case 2:
    if constexpr(S == 0) { T m2(a1); go(m2); }
    else if constexpr(S == 1) { T m2(R, C, a1); go(m2); }
    fresh([&](auto& m) { m = a1; });
    break;
  case 3:
    if constexpr(S == 0) { T m(a2); go(m); }
    else if constexpr(S == 1) { T m(a2); go(m); T m2(1, 1); m2 = a2; go(m2); }
    fresh([&](auto& m) { m = a2; });
    break;
  case 4:
    if constexpr(S == 0) { const TE2* p = a1; T m(p); go(m); }
    else if constexpr(S == 1) { const TE2* p = a1; T m(R, C, p); go(m); T m2(p, R, C); go(m2); }
    break;
  case 5:
    if constexpr(S == 0) { T m = from_ilist<T>(al, SQ{}); go(m); }
    break;
  case 6:
    for_n<16>([&](auto jj) {
      constexpr int J = decltype(jj)::value;
      if constexpr((R == 2 && C == 3) || (I + 5 * J + R) % 8 == 3) {
        MH<TE2, R, C, J> h(a, R, C);
        if constexpr(S < 2) { T m(h.m); go(m); }
        fresh([&](auto& m) { m = h.m; });
        fresh([&](auto& m) { m = -(-h.m); });
        if constexpr(S == 1) { T m; m = h.m; go(m); T m3(7, 2); m3 = h.m; go(m3); }
      }
    });
    break;
  case 7: fresh([&](auto& m) { for(int n = 0; n < N; ++n) m.data()[n] = E(a[n]); }); break;
  case 8:
    if constexpr(S >= 2) {
      constexpr int N1 = MC<I>::col_major ? C : R, N2 = MC<I>::col_major ? R : C;
      E mem[N1][N2];
      for(int n = 0; n < N; ++n) mem[n / N2][n % N2] = E(a[n]);
      T m(mem);
      go(m);
    }
    break;
  default: break;
  }
}
OP("addr") {
  const int r = int(c.s("r")), n = int(c.s("c")), bas = int(c.s("bas")), lay = int(c.s("lay"));
  auto g = [&](auto R, auto C) {
    if(r == decltype(R)::value && n == decltype(C)::value)
      for_n<16>([&](auto i) {
        constexpr int I = decltype(i)::value;
        if constexpr(I >= LO && I < HI) { if((I / 4) % 2 == bas && I / 8 == lay) at_config<decltype(R)::value, decltype(C)::value, I>(c, o); }
      });
  };
#if PART == 0
  g(ic<2>{}, ic<2>{}); g(ic<2>{}, ic<3>{}); g(ic<1>{}, ic<4>{}); g(ic<3>{}, ic<1>{});
#else
  g(ic<1>{}, ic<1>{}); g(ic<3>{}, ic<2>{}); g(ic<3>{}, ic<3>{}); g(ic<4>{}, ic<3>{}); g(ic<4>{}, ic<4>{});
#endif
}
// shapes beyond those of the unit tests: run-time sizes, and a few fixed ones
template<int R, int C, int I> static void at_large(const Call& c, Obs& o)
{
  constexpr int S = I % 4;
  const int r = int(c.s("r")), n = int(c.s("c"));
  const L& a = c.v("a");
  const std::string nm = mname(I) + ":" + en<TE1>();
  if(c.s("resz", 0) && S != 1) return;
  auto go = [&](auto& m) { run(o, "v", nm, [&] { return exec<R, C>(c, m, S == 1); }); };
  if(c.s("ctor") == 0) { MH<TE1, R, C, I> h(a, r, n); go(h.m); }
  else {
    MH<TE2, R, C, I ^ 14> h(a, r, n);
    MH<TE1, R, C, I> t(L(a.size(), 5), r, n);
    t.m = h.m;
    go(t.m);
  }
}
OP("addrl") {
  const int r = int(c.s("r")), n = int(c.s("c")), bas = int(c.s("bas")), lay = int(c.s("lay"));
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) if((I / 4) % 2 == bas && I / 8 == lay) {
#if PART == 0
      if constexpr(I % 2 == 1) at_large<0, 0, I>(c, o);
#else
      if constexpr(I % 2 == 0) {
        if(r == 5 && n == 5) at_large<5, 5, I>(c, o);
        if(r == 6 && n == 6) at_large<6, 6, I>(c, o);
        if(r == 3 && n == 7) at_large<3, 7, I>(c, o);
      }
#endif
    }
  });
}
#if PART == 0 && LO == 0
OP("vprint") {
  auto f = [&](auto& v, const std::string& n) { run(o, "v", n, [&] { std::ostringstream os; os << v; Nums r; text(os.str(), r); return r; }); };
  const L& a = c.v("a");
  at_n<1, 2, 3, 4>(int(a.size()), [&](auto N) { for_n<6>([&](auto s) { VH<TE1, decltype(N)::value, decltype(s)::value> h(a); f(h.v, sname(decltype(s)::value)); auto e = h.v * 1; f(e, "expr"); }); });
  VH<TE1, 0, 1> h(a); f(h.v, "dyn"); VH<TE1, 0, 3> h3(a); f(h3.v, "extdyn");
}
OP("qprint") {
  for_n<4>([&](auto i) { auto q = mkq<QT<TE1, decltype(i)::value>>(c.v("a"));
    run(o, "v", qname(decltype(i)::value), [&] { std::ostringstream os; os << q; Nums r; text(os.str(), r); return r; }); });
}
#endif
