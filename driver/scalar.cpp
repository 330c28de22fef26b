// Scalar helpers (C19).  -DTE1 argument type
#include "drv.h"
using namespace drv;
using T = TE1;
constexpr bool INT_ = std::is_integral<T>::value;
static bool skip(const Call& c) { return INT_ && c.s("den", 1) != 1; }
static std::vector<T> A(const Call& c) { return conv<T>(c.v("a"), c.s("den")); }
#define R_(NAME, ...) run(o, kind<T>(), std::string(NAME) + ":" + en<T>(), [&] { return __VA_ARGS__; })
OP("ssign") { if(skip(c)) return; auto a = A(c); R_("", Nums{enc(cml::sign(a[0]))}); }
OP("sclamp") { if(skip(c)) return; auto a = A(c); R_("", Nums{enc(cml::clamp(a[0], a[1], a[2]))}); }
OP("swrap") { if(skip(c)) return; auto a = A(c); R_("", Nums{enc(cml::wrap(a[0], a[1], a[2]))}); }
OP("sinrange") { if(skip(c)) return; auto a = A(c); R_("", Nums{enc(int(cml::in_range(a[0], a[1], a[2])))}); }
OP("spow") { if(skip(c)) return; auto a = A(c); R_("", Nums{enc(cml::sqr(a[0])), enc(cml::cub(a[0]))}); }
OP("slen") { if(skip(c)) return; auto a = A(c);
  if(a.size() == 2) R_("", Nums{enc(cml::length_squared(a[0], a[1])), enc(cml::length(a[0], a[1]))});
  else R_("", Nums{enc(cml::length_squared(a[0], a[1], a[2])), enc(cml::length(a[0], a[1], a[2]))});
}
OP("sbest") { if(skip(c)) return; auto a = A(c);
  auto f = [&](auto... x) { return Nums{enc(cml::index_of_max(x...)), enc(cml::index_of_max_abs(x...)), enc(cml::index_of_min(x...)), enc(cml::index_of_min_abs(x...))}; };
  if(a.size() == 2) R_("", f(a[0], a[1])); else if(a.size() == 3) R_("", f(a[0], a[1], a[2])); else R_("", f(a[0], a[1], a[2], a[3]));
}
// values known only by their rank in a table of the type's special values: what depends on order alone
static T ranked(int r) {
  using L = std::numeric_limits<T>;
  int m = r < 0 ? -r : r; T x;
  if constexpr(INT_) { const T t[8] = {0, 1, 2, 3, 1000, 1000000, T(L::max() - 1), L::max()}; x = t[m]; }
  else { const T t[8] = {0, L::denorm_min(), L::min(), T(1) - L::epsilon() / 2, 1, T(1) + L::epsilon(), L::max(), L::infinity()}; x = t[m]; }
  return r < 0 ? T(-x) : x;
}
static int rank_of(T x) { for(int r = -7; r <= 7; ++r) if(ranked(r) == x) return r; return 99; }
OP("sord") { auto a = c.v("a"); T x = ranked(int(a[0])), lo = ranked(int(a[1])), hi = ranked(int(a[2]));
  R_("", [&] { Nums r{enc(rank_of(cml::clamp(x, lo, hi))), enc(int(cml::in_range(x, lo, hi))), enc(int(cml::sign(x))), enc(cml::index_of_max(x, lo, hi)), enc(cml::index_of_max_abs(x, lo, hi)), enc(cml::index_of_min(x, lo, hi)), enc(cml::index_of_min_abs(x, lo, hi))};
    if constexpr(!INT_) if(x <= T(0)) r.push_back(enc(rank_of(cml::sqrt_safe(x))));
    return r; }());
}
OP("smap") { if constexpr(!INT_) { auto a = A(c); R_("", Nums{enc(cml::map_range(a[0], a[1], a[2], a[3], a[4]))}); } }
OP("sacos") { if constexpr(!INT_) { auto a = A(c); R_("", [&] { T t = cml::acos_safe(a[0]); return Nums{enc(T(std::cos(double(t)))), enc(T(std::sin(double(t)))), enc(t)}; }()); } }
OP("sasin") { if constexpr(!INT_) { auto a = A(c); R_("", [&] { T t = cml::asin_safe(a[0]); return Nums{enc(T(std::cos(double(t)))), enc(T(std::sin(double(t)))), enc(t)}; }()); } }
OP("ssqrt") { if constexpr(!INT_) { auto a = A(c); R_("", [&] { Nums r{enc(cml::sqrt_safe(a[0]))}; if(a[0] > 0) r.push_back(enc(cml::inv_sqrt(a[0]))); return r; }()); } }
OP("sdeg") { if constexpr(!INT_) { auto a = A(c); R_("", Nums{enc(cml::deg(a[0])), enc(cml::rad(cml::deg(a[0])))}); } }
OP("srad") { if constexpr(!INT_) { auto a = A(c); R_("", Nums{enc(cml::rad(a[0])), enc(cml::deg(cml::rad(a[0])))}); } }
OP("scyc") {
  if(!INT_) return;
  int i = int(c.s("i")), n = int(c.s("n"));
  R_("", [&] {
    Nums r{enc(cml::next(i, n)), enc(cml::prev(i, n))};
    int p[4] = {9, 9, 9, 9};
    if(n == 2) cml::cyclic_permutation(i, p[0], p[1]); else if(n == 3) cml::cyclic_permutation(i, p[0], p[1], p[2]); else if(n == 4) cml::cyclic_permutation(i, p[0], p[1], p[2], p[3]);
    if(n >= 2 && n <= 4) for(int k = 0; k < n; ++k) r.push_back(enc(p[k]));
    return r; }());
}
OP("sorder") {
  if(!INT_) return;
  auto od = cml::axis_order(c.s("order"));
  R_("", [&] { int i, j, k; bool odd; cml::unpack_axis_order(od, i, j, k, odd); return Nums{enc(i), enc(j), enc(k), enc(int(odd)), enc(int(cml::pack_axis_order(i, odd))), enc(int(cml::swap_axis_order(od)))}; }());
}
OP("sorder2") {
  if(!INT_) return;
  R_("", [&] { int i, j; bool odd; cml::unpack_axis_order2D(cml::axis_order2D(c.s("order")), i, j, odd); return Nums{enc(i), enc(j), enc(int(odd))}; }());
}
OP("seuler") {
  if(!INT_) return;
  R_("", [&] { int i, j, k; bool odd, rep; cml::unpack_euler_order(cml::euler_order(c.s("order")), i, j, k, odd, rep); return Nums{enc(i), enc(j), enc(k), enc(int(odd)), enc(int(rep))}; }());
}
OP("sconst") { if constexpr(!INT_) {
  using K = cml::constants<T>;
  R_("", [&] { Nums r; for(T x : {K::pi(), K::two_pi(), K::inv_pi(), K::inv_two_pi(), K::pi_over_2(), K::pi_over_4(), K::e(), K::deg_per_rad(), K::rad_per_deg(), K::sqrt_2(), K::sqrt_3(), K::sqrt_5(), K::sqrt_6()}) r.push_back(enc((long double)(x) * 1e6L)); return r; }());
} }
// the functions of the scalar traits: of integers by value, of reals through inverses with rational values
OP("straiti") { using S = cml::scalar_traits<T>; T x = T(c.s("x")), y = T(c.s("y"));
  if constexpr(INT_) R_("", [&] { Nums r{enc(S::fabs(x)), enc(S::fmod(x, y)), enc(S::sin(x)), enc(S::cos(x)), enc(S::tan(x)), enc(S::atan(x)), enc(S::atan2(x, y)), enc(S::exp(x)), enc(S::sqrt(x * x)), enc(S::sqrt_epsilon())};
    if(x > 0) { r.push_back(enc(S::log(x))); r.push_back(enc(S::sqrt(x))); }
    if(x >= -1 && x <= 1) { r.push_back(enc(S::asin(x))); r.push_back(enc(S::acos(x))); }
    return r; }());
}
OP("strait") { if constexpr(!INT_) { using S = cml::scalar_traits<T>; double d = double(c.s("da")); T C = T(c.s("ca") / d), D = T(c.s("sa") / d), p = T(c.s("p")), q = T(c.s("q"));
  T t = T(std::atan2(double(D), double(C)));
  R_("", [&] { auto cs = [](T z) { return enc(T(std::cos(double(z)))); }; auto sn = [](T z) { return enc(T(std::sin(double(z)))); };
    Nums r{enc(S::cos(t)), enc(S::sin(t)), cs(S::atan2(D, C)), sn(S::atan2(D, C)), cs(S::acos(C)), sn(S::acos(C)), cs(S::asin(D)), sn(S::asin(D)), cs(S::atan(q / p)), enc(S::fabs(-p / q)), enc(S::fmod(p, q)), enc(S::sqrt(p * p)), enc(S::exp(S::log(p / q))), enc(S::exp(T(0))), enc(S::log(T(std::exp(double(q) / 64)))), enc(T(S::exp(T(double(q) / 64)) / std::exp(double(q) / 64)))};
    if(c.s("ca")) r.push_back(enc(S::tan(t)));
    return r; }());
} }
// machine epsilon and its root, scaled to one
OP("sconsti") { if constexpr(!INT_) {
  int d = std::numeric_limits<T>::digits - 1;
  R_("", Nums{enc(std::ldexp(double(cml::epsilon<T>()), d)), enc(std::ldexp(double(cml::sqrt_epsilon<T>()) * double(cml::sqrt_epsilon<T>()), d)), enc(std::ldexp(double(cml::scalar_traits<T>::epsilon()), d))});
} }
