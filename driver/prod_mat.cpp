// Matrix*matrix, matrix*vector, vector*matrix.  -DTE1 -DTE2, configurations LO..HI
#include "drv.h"
using namespace drv;
#ifndef LO
#define LO 0
#define HI 16
#endif
static bool skip(const Call& c)
{
  bool f = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value;
  long d = c.s("den", 1);
  return (c.s("wide", 0) && f) || !fits<TE1>(c.v("a"), d) || (c.has("b") && !fits<TE2>(c.v("b"), d));
}
using P = decltype(TE1() * TE2());
template<int I, int J, int R, int K, int C, class F> static void pair(const Call& c, F&& f)
{
  int r = int(c.s("r")), k = int(c.s("k")), n = int(c.s("c"));
  long d = c.s("den", 1);
  MH<TE1, R, K, I> A(c.v("a"), r, k, d);
  MH<TE2, K, C, J> B(c.v("b"), k, n, d);
  f(A.m, B.m, mname(I) + ":" + en<TE1>() + "," + mname(J) + ":" + en<TE2>());
}
template<class F> static void at_shape(const Call& c, F&& f)
{
  int r = int(c.s("r")), k = int(c.s("k")), n = int(c.s("c"));
  auto g = [&](auto R, auto K, auto C) { if(r == decltype(R)::value && k == decltype(K)::value && n == decltype(C)::value) f(R, K, C); };
  g(ic<2>{}, ic<2>{}, ic<2>{}); g(ic<3>{}, ic<3>{}, ic<3>{}); g(ic<3>{}, ic<2>{}, ic<4>{}); g(ic<1>{}, ic<3>{}, ic<1>{}); g(ic<4>{}, ic<4>{}, ic<4>{});
}
OP("mm") {
  if(skip(c)) return;
  auto f = [&](auto& A, auto& B, const std::string& n) {
    run(o, kind<P>(), n, [&] { return mvals(A * B); });
    run(o, kind<P>(), n + "/neg", [&] { return mvals((-A) * (-B)); });
    run(o, kind<P>(), n + "/t", [&] { return mvals(cml::transpose(cml::transpose(B) * cml::transpose(A))); });
    run(o, kind<P>(), n + "/assign", [&] { cml::matrix<P, cml::dynamic<>, cml::row_basis, cml::col_major> t(1, 1); t = A * B; return mvals(t); });
  };
  int r = int(c.s("r")), k = int(c.s("k")), n = int(c.s("c"));
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      constexpr int G = I - I % 4;
      if constexpr(I % 2 == 1) { pair<I, G + 1, 0, 0, 0>(c, f); pair<I, G + 3, 0, 0, 0>(c, f); }
      if(r == 2 && k == 3 && n == 2) for_n<4>([&](auto j) { constexpr int J = G + decltype(j)::value; if constexpr(I % 2 == 0 || J % 2 == 0) pair<I, J, 2, 3, 2>(c, f); });
      else at_shape(c, [&](auto R, auto K, auto C) { pair<I, G + (I * 3 + 1) % 4, decltype(R)::value, decltype(K)::value, decltype(C)::value>(c, f); });
    }
  });
}
// products stored over one of their operands (square)
OP("mmself") {
  if(skip(c)) return;
  auto f = [&](auto& A0, auto& B0, const std::string& n) {
    using TA = cml::matrix<P, cml::dynamic<>, typename std::decay_t<decltype(A0)>::basis_tag, typename std::decay_t<decltype(A0)>::layout_tag>;
    run(o, kind<P>(), n + "/A=A*B", [&] { TA A; A = A0; A = A * B0; return mvals(A); });
    run(o, kind<P>(), n + "/B=A*B", [&] { TA B; B = B0; B = A0 * B; return mvals(B); });
    run(o, kind<TE1>(), n + "/inplace", [&] { auto v = mvals(A0); A0 = A0 * B0; return mvals(A0); });
  };
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      constexpr int G = I - I % 4;
      if constexpr(I % 2 == 1) { pair<I, G + 1, 0, 0, 0>(c, f); pair<I, G + 3, 0, 0, 0>(c, f); }
      else at_shape(c, [&](auto R, auto K, auto C) { if constexpr(decltype(R)::value == decltype(K)::value && decltype(K)::value == decltype(C)::value) pair<I, G + (I * 3 + 2) % 4, decltype(R)::value, decltype(K)::value, decltype(C)::value>(c, f); });
    }
  });
}
// which 0: M*v (v has k elements, b=v)   which 1: v*M (v has r elements)
OP("mv") {
  if(skip(c)) return;
  int r = int(c.s("r")), k = int(c.s("k"));
  long d = c.s("den", 1), w = c.s("which");
  auto go = [&](auto i, auto R, auto C) {
    constexpr int I = decltype(i)::value, RR = decltype(R)::value, CC = decltype(C)::value;
    MH<TE1, RR, CC, I> A(c.v("a"), r, k, d);
    auto one = [&](auto S, auto N) {
      VH<TE2, decltype(N)::value, decltype(S)::value> V(c.v("b"), d);
      std::string n = mname(I) + ":" + en<TE1>() + "," + sname(decltype(S)::value) + ":" + en<TE2>();
      if constexpr(!(decltype(S)::value == 0 || decltype(S)::value == 2 || decltype(S)::value == 4) || RR == 0 || decltype(N)::value == CC)
        if(w == 0) {
          run(o, kind<P>(), n, [&] { return vvals(A.m * V.v); });
          run(o, kind<P>(), n + "/expr", [&] { return vvals((+A.m) * (-V.v) * P(-1)); });
          run(o, kind<P>(), n + "/tv", [&] { return vvals(V.v * cml::transpose(A.m)); });
        }
      if constexpr(!(decltype(S)::value == 0 || decltype(S)::value == 2 || decltype(S)::value == 4) || RR == 0 || decltype(N)::value == RR)
        if(w == 1) {
          run(o, kind<P>(), n, [&] { return vvals(V.v * A.m); });
          run(o, kind<P>(), n + "/t", [&] { return vvals(cml::transpose(A.m) * V.v); });
        }
    };
    one(ic<1>{}, ic<0>{}); one(ic<3>{}, ic<0>{}); one(ic<5>{}, ic<0>{});
    if constexpr(RR != 0) {
      int need = w == 0 ? CC : RR;
      at_n<1, 2, 3, 4>(need, [&](auto N) { if constexpr(decltype(N)::value == RR || decltype(N)::value == CC) { one(ic<0>{}, N); one(ic<2>{}, N); one(ic<4>{}, N); } });
    }
    // stored over the operand (square)
    if(r == k) {
      run(o, kind<P>(), mname(I) + "/self", [&] { cml::vector<P, cml::dynamic<>> v; VH<TE2, 0, 1> V(c.v("b"), d); v = V.v; if(w == 0) v = A.m * v; else v = v * A.m; return vvals(v); });
    }
  };
  for_n<16>([&](auto i) {
    constexpr int I = decltype(i)::value;
    if constexpr(I >= LO && I < HI) {
      if constexpr(I % 2 == 1) go(i, ic<0>{}, ic<0>{});
      else {
        auto g = [&](auto R, auto C) { if(r == decltype(R)::value && k == decltype(C)::value) go(i, R, C); };
        g(ic<2>{}, ic<3>{}); g(ic<3>{}, ic<3>{}); g(ic<4>{}, ic<4>{}); g(ic<2>{}, ic<2>{}); g(ic<4>{}, ic<3>{});
      }
    }
  });
}
