// Static types of results (C20).  -DSEL: 1 all element pairs on few storages, 2 all storages on few element pairs, 3 matrices, 4 matrices x vectors, 5 quaternions
#include "drv.h"
#include <cml/vector/outer_product.h>
using namespace drv;
using namespace cml;
template<int K> struct Elem;
template<> struct Elem<1> { using T = unsigned char; };
template<> struct Elem<2> { using T = short; };
template<> struct Elem<3> { using T = int; };
template<> struct Elem<4> { using T = unsigned; };
template<> struct Elem<5> { using T = long; };
template<> struct Elem<6> { using T = float; };
template<> struct Elem<7> { using T = double; };
template<> struct Elem<8> { using T = long double; };
template<class T> constexpr int ecode()
{
  using U = std::remove_cv_t<std::remove_reference_t<T>>;
  int r = 0;
  for_n<8>([&](auto k) { if(std::is_same<U, typename Elem<k + 1>::T>::value) r = k + 1; });
  return r;
}
template<int K> using ET = typename Elem<K>::T;

// owning storage: 0 fixed, 1 dynamic; anything else is not an owning object
template<class V> struct VF { static Nums f() { return {{0, 0}, {99, 0}, {0, 0}}; } };
template<class E, int N> struct VF<cml::vector<E, compiled<N>>> { static Nums f() { return {{ecode<E>(), 0}, {0, 0}, {N, 0}}; } };
template<class E, class A> struct VF<cml::vector<E, allocated<A>>> { static Nums f() { return {{ecode<E>(), 0}, {1, 0}, {-1, 0}}; } };
template<class B> constexpr int bcode() { return std::is_same<B, col_basis>::value ? 0 : std::is_same<B, row_basis>::value ? 1 : 2; }
template<class B> constexpr int lcode() { return std::is_same<B, row_major>::value ? 0 : std::is_same<B, col_major>::value ? 1 : 2; }
template<class M> struct MF { static Nums f() { return {{0, 0}, {99, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}}; } };
template<class E, int R, int C, class B, class Y> struct MF<cml::matrix<E, compiled<R, C>, B, Y>> { static Nums f() { return {{ecode<E>(), 0}, {0, 0}, {R, 0}, {C, 0}, {bcode<B>(), 0}, {lcode<Y>(), 0}}; } };
template<class E, class A, class B, class Y> struct MF<cml::matrix<E, allocated<A>, B, Y>> { static Nums f() { return {{ecode<E>(), 0}, {1, 0}, {-1, 0}, {-1, 0}, {bcode<B>(), 0}, {lcode<Y>(), 0}}; } };
template<class Q> struct QF { static Nums f() { return {{0, 0}, {99, 0}, {9, 0}, {9, 0}}; } };
template<class E, class O, class X> struct QF<cml::quaternion<E, compiled<>, O, X>> { static Nums f() { return {{ecode<E>(), 0}, {0, 0}, {std::is_same<O, real_first>::value, 0}, {std::is_same<X, negative_cross>::value, 0}}; } };
template<class E, class O, class X> struct QF<cml::quaternion<E, compiled<4>, O, X>> : QF<cml::quaternion<E, compiled<>, O, X>> {};

template<class X> Nums vt() { return VF<temporary_of_t<X>>::f(); }
template<class X> Nums mt() { return MF<temporary_of_t<X>>::f(); }
template<class X> Nums qt() { return QF<temporary_of_t<X>>::f(); }
template<class X> Nums vo() { return VF<std::decay_t<X>>::f(); }   // returned by value: must itself own
template<class X> Nums mo() { return MF<std::decay_t<X>>::f(); }
template<class X> Nums st() { return {{ecode<X>(), 0}}; }
template<class T> T& lv();
// named operand / temporary operand
static void both(Obs& o, const char* k, const std::string& nm, Nums (*f)(), Nums (*g)()) { run(o, k, nm, f); run(o, k, nm, g); }
#define BOTH(K, FN, EXPR1, EXPR2) both(o, K, nm, &FN<decltype(EXPR1)>, &FN<decltype(EXPR2)>)

template<int K1, int K2, int S1, int S2, int N> void vpair(Obs& o)
{
  using A = typename VH<ET<K1>, N, S1>::T; using B = typename VH<ET<K2>, N, S2>::T;
  std::string nm = std::string(sname(S1)) + "." + sname(S2);
  BOTH("add", vt, lv<A>() + lv<B>(), (lv<A>() + lv<B>()) + lv<B>());
  BOTH("sub", vt, lv<A>() - lv<B>(), (lv<A>() - lv<B>()) - lv<B>());
  BOTH("had", vt, hadamard(lv<A>(), lv<B>()), hadamard(lv<A>(), lv<B>()));
  BOTH("dot", st, dot(lv<A>(), lv<B>()), dot(lv<B>(), lv<A>()));
  BOTH("scale", vt, lv<A>() * ET<K2>(), ET<K2>() * lv<A>());
  BOTH("div", vt, lv<A>() / ET<K2>(), lv<A>() / ET<K2>());
  if constexpr(N == 3) BOTH("cross", vt, cross(lv<A>(), lv<B>()), cross(lv<A>(), lv<B>()));
  if constexpr((S1 % 2) == (S2 % 2)) BOTH("outer", mt, outer(lv<A>(), lv<B>()), outer(lv<A>(), lv<B>()));
}
OP("tvv") {
  int k1 = c.s("k1"), k2 = c.s("k2"), s1 = c.s("s1"), s2 = c.s("s2"), n = c.s("n");
  (void)k1; (void)k2; (void)s1; (void)s2; (void)n;
#if SEL == 1
  if(n == 3) for_n<HI - LO>([&](auto a0) { constexpr int a = a0 + LO; for_n<8>([&](auto b) {
    if(k1 == a + 1 && k2 == b + 1) {
      if(s1 == 0 && s2 == 0) vpair<a + 1, b + 1, 0, 0, 3>(o);
      if(s1 == 1 && s2 == 1) vpair<a + 1, b + 1, 1, 1, 3>(o);
      if(s1 == 0 && s2 == 3) vpair<a + 1, b + 1, 0, 3, 3>(o);
    } }); });
#elif SEL == 2
  for_n<6>([&](auto a) { for_n<6>([&](auto b) {
    if(s1 == a && s2 == b) {
      if(k1 == 7 && k2 == 3 && n == 3) vpair<7, 3, a, b, 3>(o);
      if(k1 == 6 && k2 == 7 && n == 2) vpair<6, 7, a, b, 2>(o);
      if(k1 == 3 && k2 == 6 && n == 4) vpair<3, 6, a, b, 4>(o);
    } }); });
#endif
}
template<int K, int S, int N> void vuna(Obs& o)
{
  using A = typename VH<ET<K>, N, S>::T;
  std::string nm = sname(S);
  BOTH("neg", vt, -lv<A>(), +lv<A>());
  BOTH("sub1", vt, subvector(lv<A>(), 0), lv<A>().subvector(0));
  BOTH("same", vt, lv<A>().normalize(), A(lv<A>()));
  BOTH("elem", st, lv<A>().get(0), lv<A>().length_squared());
  run(o, "super", nm, [&] { return VF<supervector_of_t<A>>::f(); });
  run(o, "lessone", nm, [&] { return VF<subvector_of_t<A>>::f(); });
}
#if SEL == 2
OP("tv") { int k = c.s("k"), s = c.s("s"), n = c.s("n");
  for_n<4>([&](auto a) { for_seq(std::integer_sequence<int, 3, 6, 7>{}, [&](auto q) { for_seq(std::integer_sequence<int, 2, 3, 5>{}, [&](auto m) {
    if(k == q && s == a && n == m) vuna<q, a, m>(o); }); }); });
}
#endif
template<int K1, int K2, int I1, int I2, int R, int C> void mpair(Obs& o)
{
  using A = typename MH<ET<K1>, R, C, I1>::T; using B = typename MH<ET<K2>, R, C, I2>::T; using P = typename MH<ET<K2>, C, R + 1, I2>::T;
  std::string nm = mname(I1) + "." + mname(I2);
  BOTH("add", mt, lv<A>() + lv<B>(), lv<B>() + lv<A>());
  BOTH("add2", mt, (lv<A>() + lv<B>()) + lv<B>(), lv<B>() + (lv<B>() - lv<A>()));
  BOTH("sub", mt, lv<A>() - lv<B>(), lv<B>() - lv<A>());
  BOTH("had", mt, hadamard(lv<A>(), lv<B>()), hadamard(lv<A>(), lv<B>()));
  BOTH("scale", mt, lv<A>() * ET<K2>(), ET<K2>() * lv<A>());
  BOTH("div", mt, lv<A>() / ET<K2>(), lv<A>() / ET<K2>());
  run(o, "mul", nm, [&] { return MF<matrix_inner_product_promote_t<A, P>>::f(); });
  if constexpr(I1 / 4 == I2 / 4) run(o, "mul", nm, [&] { return mo<decltype(lv<A>() * lv<P>())>(); });
}
template<int K, int I, int R, int C> void muna(Obs& o)
{
  using A = typename MH<ET<K>, R, C, I>::T; using Q = typename MH<ET<K>, R, R, I>::T;
  std::string nm = mname(I);
  BOTH("neg", mt, -lv<A>(), +lv<A>());
  BOTH("tr", mt, transpose(lv<A>()), transpose(lv<A>()));
  BOTH("row", vt, row(lv<A>(), 0), cml::row(lv<A>(), 1));
  BOTH("col", vt, col(lv<A>(), 0), cml::col(lv<A>(), 1));
  BOTH("row", vo, row_type_of_t<A>(), row_type_of_t<A>());
  BOTH("col", vo, col_type_of_t<A>(), col_type_of_t<A>());
  BOTH("basis", vt, cml::basis(lv<A>(), 0), cml::basis(lv<A>(), 1));
  BOTH("elem", st, lv<A>().get(0, 0), trace(lv<Q>()));
  BOTH("elem", st, determinant(lv<Q>()), lv<Q>().determinant());
  if constexpr(K >= 6) BOTH("inv", mo, inverse(lv<Q>()), inverse(lv<Q>()));
}
#if SEL == 3
OP("tmm") { int k1 = c.s("k1"), k2 = c.s("k2"), i1 = c.s("s1"), i2 = c.s("s2"), r = c.s("r"), q = c.s("c");
  for_n<2 * (HI - LO)>([&](auto a0) { constexpr int a = a0 + 2 * LO; for_n<16>([&](auto b) { if(i1 == a && i2 == b) {
    if(k1 == 7 && k2 == 3 && r == 2 && q == 3) mpair<7, 3, a, b, 2, 3>(o);
  } }); });
  if(r == 3 && q == 2) for_n<HI - LO>([&](auto a0) { constexpr int a = a0 + LO; for_n<8>([&](auto b) { if(k1 == a + 1 && k2 == b + 1) {
    if(i1 == 0 && i2 == 0) mpair<a + 1, b + 1, 0, 0, 3, 2>(o);
    if(i1 == 13 && i2 == 13) mpair<a + 1, b + 1, 13, 13, 3, 2>(o); } }); });
}
#if LO == 0
OP("tm") { int k = c.s("k"), i = c.s("s"), r = c.s("r"), q = c.s("c");
  for_n<16>([&](auto a) { if(i == a) { if(k == 7 && r == 2 && q == 3) muna<7, a, 2, 3>(o); if(k == 3 && r == 4 && q == 2) muna<3, a, 4, 2>(o); } });
}
#endif
#endif
#if SEL == 4
template<int K1, int K2, int I1, int S, int R, int C> void mvec(Obs& o)
{
  using A = typename MH<ET<K1>, R, C, I1>::T; using V = typename VH<ET<K2>, C, S>::T; using W = typename VH<ET<K2>, R, S>::T;
  std::string nm = mname(I1) + "." + sname(S);
  run(o, "mv", nm, [&] { return vo<decltype(lv<A>() * lv<V>())>(); });
  run(o, "vm", nm, [&] { return vo<decltype(lv<W>() * lv<A>())>(); });
}
OP("tmv") { int k1 = c.s("k1"), k2 = c.s("k2"), i1 = c.s("s1"), s = c.s("s2"), r = c.s("r"), q = c.s("c");
  for_n<16>([&](auto a) { for_n<6>([&](auto b) { if(i1 == a && s == b) {
#if LO == 0
    if(k1 == 7 && k2 == 3 && r == 2 && q == 3) mvec<7, 3, a, b, 2, 3>(o);
    if(k1 == 3 && k2 == 6 && r == 3 && q == 2) mvec<3, 6, a, b, 3, 2>(o);
    if(k1 == 6 && k2 == 6 && r == 4 && q == 4) mvec<6, 6, a, b, 4, 4>(o);
#endif
    } }); });
  if(r == 3 && q == 4) for_n<HI - LO>([&](auto a0) { constexpr int a = a0 + LO; for_n<8>([&](auto b) { if(k1 == a + 1 && k2 == b + 1) {
    if(i1 == 0 && s == 0) mvec<a + 1, b + 1, 0, 0, 3, 4>(o);
    if(i1 == 13 && s == 1) mvec<a + 1, b + 1, 13, 1, 3, 4>(o);
    if(i1 == 2 && s == 1) mvec<a + 1, b + 1, 2, 1, 3, 4>(o);
    if(i1 == 5 && s == 2) mvec<a + 1, b + 1, 5, 2, 3, 4>(o); } }); });
}
#endif
#if SEL == 5
template<int K1, int K2, int I> void qpair(Obs& o)
{
  using A = QT<ET<K1>, I>; using B = QT<ET<K2>, I>;
  std::string nm = qname(I);
  BOTH("add", qt, lv<A>() + lv<B>(), (lv<A>() + lv<B>()) + lv<B>());
  BOTH("sub", qt, lv<A>() - lv<B>(), (lv<A>() - lv<B>()) - lv<B>());
  BOTH("mul", qt, lv<A>() * lv<B>(), (lv<A>() * lv<B>()) * lv<B>());
  BOTH("scale", qt, lv<A>() * ET<K2>(), ET<K2>() * lv<A>());
  BOTH("div", qt, lv<A>() / ET<K2>(), lv<A>() / ET<K2>());
  BOTH("dot", st, dot(lv<A>(), lv<B>()), dot(lv<B>(), lv<A>()));
  if constexpr(K1 == K2) {
    BOTH("minus", qt, -lv<A>(), -(-lv<A>()));
    BOTH("neg", qt, conjugate(conjugate(lv<A>())), conjugate(lv<A>()));
    BOTH("neg", qt, inverse(lv<A>()), lv<A>().conjugate());
    BOTH("imag", vt, lv<A>().imaginary(), imaginary(lv<A>()));
    BOTH("elem", st, lv<A>().norm(), lv<A>().get(0));
  }
}
OP("tqq") { int k1 = c.s("k1"), k2 = c.s("k2"), i = c.s("s1");
  for_n<4>([&](auto a) { for_seq(std::integer_sequence<int, 3, 6, 7, 8>{}, [&](auto p) { for_seq(std::integer_sequence<int, 3, 6, 7, 8>{}, [&](auto q) {
    if(i == a && k1 == p && k2 == q) qpair<p, q, a>(o); }); }); });
  if(i == 0) for_n<8>([&](auto a) { for_n<8>([&](auto b) { if(k1 == a + 1 && k2 == b + 1) {
    constexpr bool did = (a + 1 == 3 || a + 1 >= 6) && (b + 1 == 3 || b + 1 >= 6);
    if constexpr(!did) qpair<a + 1, b + 1, 0>(o); } }); });
}
#endif
#if SEL == 6
template<class V> struct AF;
template<class E, int N> struct AF<cml::vector<E, compiled<N>>> { static Nums f() { return {{ecode<E>(), 0}, {std::is_const<E>::value, 0}, {0, 0}, {N, 0}}; } };
template<class E, class A> struct AF<cml::vector<E, allocated<A>>> { static Nums f() { return {{ecode<E>(), 0}, {std::is_const<E>::value, 0}, {0, 0}, {-1, 0}}; } };
template<class E, int N> struct AF<cml::vector<E, external<N>>> { static Nums f() { return {{ecode<E>(), 0}, {std::is_const<E>::value, 0}, {1, 0}, {N, 0}}; } };
template<class E, int R, int C, class B, class Y> struct AF<cml::matrix<E, compiled<R, C>, B, Y>> { static Nums f() { return {{ecode<E>(), 0}, {std::is_const<E>::value, 0}, {0, 0}, {R, 0}, {C, 0}, {bcode<B>(), 0}, {lcode<Y>(), 0}}; } };
template<class E, class A, class B, class Y> struct AF<cml::matrix<E, allocated<A>, B, Y>> { static Nums f() { return {{ecode<E>(), 0}, {std::is_const<E>::value, 0}, {0, 0}, {-1, 0}, {-1, 0}, {bcode<B>(), 0}, {lcode<Y>(), 0}}; } };
template<class E, int R, int C, class B, class Y> struct AF<cml::matrix<E, external<R, C>, B, Y>> { static Nums f() { return {{ecode<E>(), 0}, {std::is_const<E>::value, 0}, {1, 0}, {R, 0}, {C, 0}, {bcode<B>(), 0}, {lcode<Y>(), 0}}; } };
template<class E, class S, class O, class X> struct AF<cml::quaternion<E, S, O, X>> { static Nums f() { return {{ecode<E>(), 0}, {std::is_const<E>::value, 0}, {0, 0}, {4, 0}, {std::is_same<O, real_first>::value, 0}, {std::is_same<X, negative_cross>::value, 0}}; } };
OP("talias") {
  int fam = c.s("fam"), k = c.s("k"), cst = c.s("cst"), r = c.s("r"), cc = c.s("c"), sfx = c.s("sfx");
#define A_(NAME, F, K, T, R, C, X) if(fam == F && k == K && cst == T && r == R && cc == C && sfx == X) run(o, "", #NAME, &AF<cml::NAME>::f);
#define VEC_(S, K) A_(vector2##S, 1, K, 0, 2, 0, 0) A_(vector3##S, 1, K, 0, 3, 0, 0) A_(vector4##S, 1, K, 0, 4, 0, 0) A_(vector##S, 1, K, 0, 0, 0, 0) \
  A_(external2##S, 2, K, 0, 2, 0, 0) A_(external3##S, 2, K, 0, 3, 0, 0) A_(external4##S, 2, K, 0, 4, 0, 0) A_(externaln##S, 2, K, 0, 0, 0, 0) \
  A_(external2c##S, 2, K, 1, 2, 0, 0) A_(external3c##S, 2, K, 1, 3, 0, 0) A_(external4c##S, 2, K, 1, 4, 0, 0) A_(externalnc##S, 2, K, 1, 0, 0, 0)
#define SQ_(SX, K, X) A_(matrix22##SX, 3, K, 0, 2, 2, X) A_(matrix33##SX, 3, K, 0, 3, 3, X) A_(matrix44##SX, 3, K, 0, 4, 4, X) A_(matrix##SX, 3, K, 0, 0, 0, X) \
  A_(external22##SX, 4, K, 0, 2, 2, X) A_(external33##SX, 4, K, 0, 3, 3, X) A_(external44##SX, 4, K, 0, 4, 4, X) A_(externalmn##SX, 4, K, 0, 0, 0, X)
#define WIDE_(SX, K, X) A_(matrix23##SX, 3, K, 0, 2, 3, X) A_(matrix34##SX, 3, K, 0, 3, 4, X) A_(external23##SX, 4, K, 0, 2, 3, X) A_(external34##SX, 4, K, 0, 3, 4, X)
#define TALL_(SX, K, X) A_(matrix32##SX, 3, K, 0, 3, 2, X) A_(matrix43##SX, 3, K, 0, 4, 3, X) A_(external32##SX, 4, K, 0, 3, 2, X) A_(external43##SX, 4, K, 0, 4, 3, X)
  VEC_(i, 3) VEC_(f, 6) VEC_(d, 7)
  SQ_(i, 3, 0) SQ_(f, 6, 0) SQ_(d, 7, 0) WIDE_(i, 3, 0) WIDE_(d, 7, 0)
  WIDE_(f, 6, 0) A_(matrix32f, 3, 6, 0, 3, 2, 0)
  SQ_(i_r, 3, 1) SQ_(f_r, 6, 1) SQ_(d_r, 7, 1) TALL_(i_r, 3, 1) TALL_(f_r, 6, 1) TALL_(d_r, 7, 1)
  SQ_(i_c, 3, 2) SQ_(f_c, 6, 2) SQ_(d_c, 7, 2) WIDE_(i_c, 3, 2) WIDE_(f_c, 6, 2) WIDE_(d_c, 7, 2)
#define QUAT_(S, K) A_(quaternion##S, 5, K, 0, 4, 1, 0) A_(quaternion##S##_ip, 5, K, 0, 4, 1, 1) A_(quaternion##S##_p, 5, K, 0, 4, 1, 2) A_(quaternion##S##_in, 5, K, 0, 4, 1, 3) \
  A_(quaternion##S##_n, 5, K, 0, 4, 1, 4) A_(quaternion##S##_rp, 5, K, 0, 4, 1, 5) A_(quaternion##S##_rn, 5, K, 0, 4, 1, 6)
  QUAT_(f, 6) QUAT_(d, 7)
}
#endif
