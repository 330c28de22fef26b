// C08: operations over operands of every run-time size.  -DPART selects a group of operations
#include "drv.h"
#include <cml/mathlib/mathlib.h>
#include <memory>
using namespace drv;
using namespace cml;
namespace {
// element k of operand j
long el(int j, int k) { return 3 * k + 7 * j + 1; }
L vec0(int j, int n) { L r; for(int k = 0; k < n; ++k) r.push_back(el(j, k)); return r; }
L mat0(int j, int r, int c) { L x; for(int k = 0; k < r * c; ++k) x.push_back(el(j, k) + (k / c == k % c ? 20 : 0)); return x; }

template<int... N> struct Ve {};               // a vector; sizes it may have when fixed
template<int R, int C> struct Sh {};
template<class... S> struct Ma {};             // a matrix; shapes it may have when fixed
struct Env { const Call& c; Obs& o; int basis; };

template<class X> Nums now(const X& x)
{
  Nums r;
  if constexpr(is_vector<X>::value) { r = vvals(x); r.insert(r.begin(), Num{x.size(), 0}); }
  else { r = mvals(x); r.insert(r.begin(), Num{x.cols(), 0}); r.insert(r.begin(), Num{x.rows(), 0}); }
  return r;
}
// look at every element of a result
template<class X> void see(const X& x)
{
  if constexpr(is_vector<X>::value) (void) vvals(x);
  else if constexpr(is_matrix<X>::value) (void) mvals(x);
  else if constexpr(is_quaternion<X>::value) (void) qvals(x);
}
template<class Fn, class... A> void fire(Env& e, const std::string& nm, Fn& fn, A&... a)
{
  run(e.o, "t", nm, [&] { fn(a...); return Nums{{1, 0}}; });
  int k = 0;
  ((++k, run(e.o, std::string(k == 1 ? "x" : k == 2 ? "y" : k == 3 ? "z" : "w"), nm, [&] { return now(a); })), ...);
}
template<int I, int P, int K, class Fn, int R0, int C0, class Rest, class... A> void fixedm(Env& e, std::size_t at, Fn& fn, int r, int c, const L& x, Sh<R0, C0>, Rest rest, A&... a);
// pattern P (100 more: row basis): 0 dynamic, 1 external, 2 and 3 alternating, 4.. operand P-4 fixed and the others dynamic
template<int Q, int K> constexpr int stor() { constexpr int P = Q % 100; return P == 0 ? 1 : P == 1 ? 3 : P == 2 ? (K % 2 ? 3 : 1) : P == 3 ? (K % 2 ? 1 : 3) : P - 4 == K ? 0 : 1; }
template<int P, int K, class Fn, class... A> void go(Env& e, std::size_t, Fn& fn, std::tuple<>, A&... a)
{
  fire(e, "p" + std::to_string(P % 100), fn, a...);
}
template<int P, int K, class Fn, int... N, class... R, class... A> void go(Env& e, std::size_t at, Fn& fn, std::tuple<Ve<N...>, R...>, A&... a)
{
  int n = int(e.c.v("z")[at]);
  L x = vec0(K + 1, n);
  if constexpr(stor<P, K>() == 0) at_n<N...>(n, [&](auto i) { VH<double, decltype(i)::value, 0> h(x); go<P, K + 1>(e, at + 1, fn, std::tuple<R...>(), a..., h.v); });
  else { VH<double, 0, stor<P, K>()> h(x); go<P, K + 1>(e, at + 1, fn, std::tuple<R...>(), a..., h.v); }
}
template<int P, int K, class Fn, class... S, class... R, class... A> void go(Env& e, std::size_t at, Fn& fn, std::tuple<Ma<S...>, R...>, A&... a)
{
  int r = int(e.c.v("z")[at]), c = int(e.c.v("z")[at + 1]);
  L x = mat0(K + 1, r, c);
  constexpr int I = 4 * (P / 100) + 8 * (P % 2);     // every operand has the same basis and layout
  if constexpr(stor<P, K>() == 0) (fixedm<I, P, K>(e, at, fn, r, c, x, S(), std::tuple<R...>(), a...), ...);
  else { MH<double, 0, 0, I + stor<P, K>()> h(x, r, c); go<P, K + 1>(e, at + 2, fn, std::tuple<R...>(), a..., h.m); }
}
template<int I, int P, int K, class Fn, int R0, int C0, class Rest, class... A> void fixedm(Env& e, std::size_t at, Fn& fn, int r, int c, const L& x, Sh<R0, C0>, Rest rest, A&... a)
{
  if(r != R0 || c != C0) return;
  MH<double, R0, C0, I> h(x, r, c);
  go<P, K + 1>(e, at + 2, fn, rest, a..., h.m);
}
template<int B, class... S, class Fn, std::size_t... K> void in_basis(Env& e, Fn fn, std::index_sequence<K...>)
{
  using T = std::tuple<S...>;
  go<B, 0>(e, 0, fn, T());
  go<B + 1, 0>(e, 0, fn, T());
  if constexpr(sizeof...(S) > 1) { go<B + 2, 0>(e, 0, fn, T()); go<B + 3, 0>(e, 0, fn, T()); }
  (go<B + 4 + int(K), 0>(e, 0, fn, T()), ...);
}
template<class... S, class Fn> void all(Env& e, Fn fn) { e.basis ? in_basis<100, S...>(e, fn, std::index_sequence<>()) : in_basis<0, S...>(e, fn, std::index_sequence<>()); }
template<class... S, class Fn> void allfix(Env& e, Fn fn) { e.basis ? in_basis<100, S...>(e, fn, std::index_sequence_for<S...>()) : in_basis<0, S...>(e, fn, std::index_sequence_for<S...>()); }
using V234 = Ve<2, 3, 4>;
using DV = cml::vector<double, dynamic<>>;
using VV = Ve<>;
using MM = Ma<>;
}  // namespace
// operation f over operands of the given kinds; FX also with operand K fixed
#define DEF(F, SIG, BODY, ...) if(f == F) { auto fn = [&] SIG BODY; all<__VA_ARGS__>(e, fn); }
#define FX(F, SIG, BODY, ...) if(f == F) { auto fn = [&] SIG BODY; allfix<__VA_ARGS__>(e, fn); }
#define A1 (auto& a)
#define A2 (auto& a, auto& b)
#define A3 (auto& a, auto& b, auto& d)
#define A4 (auto& a, auto& b, auto& d, auto& g)
OP("sz") {
  int f = int(c.s("f"));
  Env e{c, o, int(c.s("b"))};
  double s0, s1, s2;
  (void) s0; (void) s1; (void) s2;
  using U3 = Ve<3>; using U2 = Ve<2>;
  using S44 = Ma<Sh<4, 4>>;
#if PART == 1
  FX(1, A2, { see(a + b); }, V234, V234)
  FX(2, A2, { see(a - b); }, V234, V234)
  FX(3, A2, { see(hadamard(a, b)); }, V234, V234)
  FX(4, A2, { see((2. * a + b) - a); see(-a + -b); }, V234, V234)
  FX(5, A2, { dot(a, b); }, V234, V234)
  FX(6, A2, { see(cross(a, b)); }, U3, U3)
  FX(7, A2, { perp_dot(a, b); }, U2, U2)
  FX(8, A3, { triple_product(a, b, d); }, U3, U3, U3)
  DEF(9, A2, { see(outer(a, b)); }, VV, VV)
  FX(10, A1, { see(perp(a)); }, U2)
  FX(11, A2, { manhattan_distance(a, b); }, V234, V234)
  FX(12, A2, { see(project_to_vector(a, b)); }, V234, V234)
  FX(13, A2, { see(project_to_hplane(a, b)); }, V234, V234)
  FX(14, A2, { signed_angle_2D(a, b); }, U2, U2)
  FX(15, A2, { unsigned_angle_2D(a, b); }, U2, U2)
  FX(16, A3, { signed_angle(a, b, d); }, U3, U3, U3)
  FX(17, A2, { unsigned_angle(a, b); }, U3, U3)
  FX(18, A2, { see(rotate_vector(a, b, .5)); }, U3, U3)
  FX(19, A1, { a.length(); a.length_squared(); length(a + a); }, V234)
  FX(20, A2, { a += b; }, V234, V234)
  FX(21, A2, { a -= b; }, V234, V234)
  FX(22, A2, { a.minimize(b); }, V234, V234)
  FX(23, A2, { a.maximize(b); }, V234, V234)
  FX(24, A2, { (void)(a == b); (void)(a != b); (void)(a < b); (void)(a >= b); (void)(a > b); (void)(a <= b); }, V234, V234)
  FX(25, A1, { a.normalize(); see(cml::normalize(a)); }, V234)
  FX(26, A1, { cartesian_to_polar(a, s0, s1); }, U2)
  FX(27, A1, { cartesian_to_cylindrical(a, 1, s0, s1, s2); }, U3)
  FX(28, A1, { cartesian_to_spherical(a, 2, colatitude, s0, s1, s2); }, U3)
  FX(29, A1, { polar_to_cartesian(a, 2., .5); }, U2)
  FX(30, A1, { cylindrical_to_cartesian(a, 0, 2., .5, 1.); }, U3)
  FX(31, A1, { spherical_to_cartesian(a, 1, latitude, 2., .5, .25); }, U3)
  FX(32, A1, { random_unit(a); }, V234)
  FX(33, A1, { quaterniond q; q = quaterniond(a, 2.); see(q); }, U3)
  FX(34, A1, { quaterniond q; quaternion_rotation_axis_angle(q, a, .5); }, U3)
  FX(35, A1, { quaterniond q; quaternion_rotation_euler(q, a, euler_order_xyz); }, U3)
  FX(36, A2, { quaterniond q; quaternion_rotation_align(q, a, b); }, U3, U3)
  FX(37, A3, { quaterniond q; quaternion_rotation_aim_at(q, a, b, d); }, U3, U3, U3)
  FX(38, A1, { DV x; DV y; orthonormal_basis_2D(a, x, y); }, U2)
  FX(39, A2, { DV x; DV y; DV z; orthonormal_basis(a, b, x, y, z); }, U3, U3)
#elif PART == 2
  using MS = Ma<Sh<2, 2>, Sh<2, 3>, Sh<3, 2>, Sh<3, 3>, Sh<4, 4>>;
  using SQ = Ma<Sh<2, 2>, Sh<3, 3>, Sh<4, 4>>;
  FX(40, A2, { see(a + b); }, MS, MS)
  FX(41, A2, { see(a - b); }, MS, MS)
  FX(42, A2, { see(hadamard(a, b)); }, MS, MS)
  FX(43, A2, { a += b; }, MS, MS)
  FX(44, A2, { a -= b; }, MS, MS)
  FX(45, A2, { see(a * b); }, MS, MS)
  FX(46, A2, { see(a * b); }, MS, V234)
  FX(47, A2, { see(b * a); }, MS, V234)
  FX(48, A1, { trace(a); a.trace(); }, SQ)
  FX(49, A1, { determinant(a); a.determinant(); }, SQ)
  FX(50, A1, { see(inverse(a)); }, SQ)
  FX(51, A1, { a.inverse(); }, SQ)
  FX(52, A1, { see(transpose(a)); }, MS)
  FX(53, A1, { see(lu(a)); }, SQ)
  FX(54, A1, { see(lu_pivot(a).lu); }, SQ)
  FX(55, A2, { see(lu_solve(a, b)); }, SQ, V234)
  FX(56, A3, { lu_solve(a, d, b); }, SQ, V234, V234)
  FX(57, A2, { a.set_row(0, b); }, MS, V234)
  FX(58, A2, { a.set_col(0, b); }, MS, V234)
  FX(59, A2, { see((a - 2. * b) + a); see(-a + -b); }, MS, MS)
  FX(60, A1, { trace_2x2(a); }, SQ)
  FX(61, A1, { trace_3x3(a); }, Ma<Sh<3, 3>, Sh<4, 4>>)
  FX(62, A2, { matrix_skew_symmetric(a, b); }, Ma<Sh<3, 3>, Sh<4, 4>>, U3)
  FX(63, A1, { matrix_skew_symmetric_2D(a, 2.); }, SQ)
  FX(64, A2, { matrix_set_basis_vector_2D(a, 0, b); }, SQ, U2)
  FX(65, A2, { matrix_set_transposed_basis_vector_2D(a, 1, b); }, SQ, U2)
  FX(66, A2, { matrix_set_basis_vector(a, 2, b); }, S44, U3)
  FX(67, A2, { matrix_set_transposed_basis_vector(a, 0, b); }, S44, U3)
  FX(68, A1, { see(matrix_get_basis_vector_2D(a, 1)); }, SQ)
  FX(69, A1, { see(matrix_get_transposed_basis_vector_2D(a, 0)); }, SQ)
  FX(70, A1, { see(matrix_get_basis_vector(a, 2)); }, S44)
  FX(71, A1, { see(matrix_get_transposed_basis_vector(a, 1)); }, S44)
  FX(72, A3, { matrix_set_basis_vectors_2D(a, b, d); }, SQ, U2, U2)
  FX(73, A4, { matrix_set_basis_vectors(a, b, d, g); }, S44, U3, U3, U3)
#elif PART == 3
  using S33 = Ma<Sh<3, 3>, Sh<4, 4>>;
  using L3 = Ma<Sh<3, 3>, Sh<4, 4>, Sh<3, 4>, Sh<4, 3>>;
  FX(74, A1, { matrix_set_translation_2D(a, 1., 2.); }, S33)
  FX(75, A2, { matrix_set_translation_2D(a, b); }, S33, U2)
  FX(76, A1, { see(matrix_get_translation_2D(a)); matrix_get_translation_2D(a, s0, s1); }, S33)
  FX(77, A2, { matrix_translation_2D(a, b); }, S33, U2)
  FX(78, A1, { matrix_set_translation(a, 1., 2., 3.); }, S44)
  FX(79, A2, { matrix_set_translation(a, b); }, S44, Ve<3>)
  FX(80, A1, { see(matrix_get_translation(a)); matrix_get_translation(a, s0, s1, s2); }, S44)
  FX(81, A2, { matrix_translation(a, b); }, S44, Ve<3>)
  FX(82, A1, { matrix_scale_2D(a, 2., 3.); }, S33)
  FX(83, A2, { matrix_scale_2D(a, b); }, S33, U2)
  FX(84, A1, { matrix_scale(a, 2., 3., 4.); }, S44)
  FX(85, A2, { matrix_scale(a, b); }, S44, U3)
  FX(86, A2, { matrix_inverse_scale_2D(a, b); }, S33, U2)
  FX(87, A2, { matrix_inverse_scale(a, b); }, S44, U3)
  FX(88, A1, { matrix_rotation_2D(a, .5); }, S33)
  FX(89, A2, { matrix_rotation_align_2D(a, b); }, S33, U2)
  FX(90, A1, { matrix_rotation_world_axis(a, 1, .5); }, L3)
  FX(91, A2, { matrix_rotation_axis_angle(a, b, .5); }, L3, U3)
  FX(92, A1, { matrix_rotation_euler(a, .1, .2, .3, euler_order_zyz); }, L3)
  FX(93, A2, { matrix_rotation_euler(a, b, euler_order_xyz); }, L3, U3)
  FX(94, A2, { matrix_rotation_euler_derivatives(a, 1, b, euler_order_xyz); }, L3, U3)
  FX(95, A1, { matrix_rotation_quaternion(a, quaterniond(0., 0., .6, .8)); }, L3)
  FX(96, A3, { matrix_rotation_align(a, b, d); }, L3, U3, U3)
  FX(97, A4, { matrix_rotation_aim_at(a, b, d, g); }, L3, U3, U3, U3)
  FX(98, A1, { matrix_to_axis_angle(a); }, L3)
  FX(99, A1, { matrix_to_euler(a, s0, s1, s2, euler_order_xyz); }, L3)
#else
  using S33 = Ma<Sh<3, 3>, Sh<4, 4>>;
  using L3 = Ma<Sh<3, 3>, Sh<4, 4>, Sh<3, 4>, Sh<4, 3>>;
  using SQ = Ma<Sh<2, 2>, Sh<3, 3>, Sh<4, 4>>;
  FX(100, A4, { matrix_look_at(a, b, d, g, left_handed); }, S44, U3, U3, U3)
  FX(101, A2, { matrix_linear_transform(a, b); }, L3, L3)
  FX(102, A3, { matrix_affine_transform(a, b, .5, d); }, S44, U3, U3)
  FX(103, A3, { matrix_affine_transform(a, b, d); }, S44, L3, U3)
  FX(104, A1, { matrix_invert_RT_only_2D(a); }, S33)
  FX(105, A1, { matrix_invert_RT_only(a); }, S44)
  FX(106, A1, { matrix_invert_RT(a); }, SQ)
  FX(107, A2, { see(matrix_concat(a, b)); }, SQ, SQ)
  FX(108, A2, { see(transform_vector_2D(a, b)); }, SQ, U2)
  FX(109, A2, { see(transform_point_2D(a, b)); }, S33, U2)
  FX(110, A2, { see(transform_vector(a, b)); }, L3, U3)
  FX(111, A2, { see(transform_point(a, b)); }, S44, U3)
  FX(112, A2, { see(transform_vector_4D(a, b)); }, S44, Ve<4>)
  FX(113, A2, { see(transform_point_4D(a, b)); }, S44, U3)
  FX(114, A1, { matrix_orthographic(a, -1., 1., -1., 1., 1., 3., left_handed, z_clip_zero); }, S44)
  FX(115, A1, { matrix_perspective(a, -1., 1., -1., 1., 1., 3., right_handed, z_clip_neg_one); }, S44)
  FX(116, A1, { matrix_perspective_xfov(a, 1., 1., 1., 3., right_handed, z_clip_zero); matrix_perspective_yfov(a, 1., 1., 1., 3., left_handed, z_clip_zero); }, S44)
  FX(117, A1, { double p[6][4]; extract_frustum_planes(a, p, z_clip_zero, false); }, S44)
  FX(118, A1, { vector4d p; extract_near_frustum_plane(a, p, z_clip_neg_one); }, S44)
  FX(119, A1, { quaterniond q; quaternion_rotation_matrix(q, a); }, L3)
  FX(120, A1, { vector3d x; matrix_to_axis_angle(a, x, s0); see(matrix_to_euler(a, euler_order_zxz)); }, L3)
#endif
}
