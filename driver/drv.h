// Conformance driver framework: executes calls (read from a file) against the
// real CML templates over many type configurations, and logs what the
// implementation did, one observation per distinct outcome.  No expected
// value is computed here: the TLA+ specification judges the observations.
#pragma once
#include <cml/cml.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
#include <cml/matrix/lu.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <functional>
#include <map>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

namespace drv {

// integers of a call's field; the values they stand for are multiplied by 2^sc
struct L : std::vector<long> { using std::vector<long>::vector; int sc = 0; };

// A number as logged: hi = floor(v), lo = micro-units of the fraction; and of
// doubles, n = thousandths of those.
struct Num { long hi; long lo; long double raw = 0; bool fl = false; long n = 0; bool fine = false; };
inline bool operator==(const Num& a, const Num& b) { return a.hi == b.hi && a.lo == b.lo && a.n == b.n; }
using Nums = std::vector<Num>;

constexpr long NANCODE = 2000000000L, PINF = 2000000001L, NINF = -2000000001L, BIG = 2000000002L;

inline Num encf(long double x, bool fine)
{
  if(std::isnan(x)) return {NANCODE, 0};
  if(std::isinf(x)) return {x > 0 ? PINF : NINF, 0};
  if(std::fabs(x) > 1.9e9L) return {BIG, 0, x, true, 0, fine};
  const long unit = fine ? 1000000000L : 1000000L;
  long double h = std::floor(x);
  long lo = std::lround((x - h) * unit);
  long hi = long(h);
  if(lo == unit) { ++hi; lo = 0; }
  if(fine) return {hi, lo / 1000, x, true, lo % 1000, true};
  return {hi, lo, x, true};
}
template<class T> inline Num enc(T v)
{
  if constexpr(std::is_integral<T>::value) {
    long x = long(v);
    if(x > 1999999999L || x < -1999999999L) return {BIG, 0};
    return {x, 0};
  } else {
    return encf((long double) v, !std::is_same<T, float>::value);
  }
}

struct Call {
  int idx = 0;
  std::string op;
  std::map<std::string, L> f;
  bool scaled = false;
  const L& v(const std::string& k) const
  {
    auto i = f.find(k);
    if(i == f.end()) { std::fprintf(stderr, "driver: call %s has no field %s\n", op.c_str(), k.c_str()); std::exit(3); }
    return i->second;
  }
  long s(const std::string& k) const { return v(k).at(0); }
  long s(const std::string& k, long d) const { auto i = f.find(k); return i == f.end() ? d : i->second.at(0); }
  bool has(const std::string& k) const { return f.count(k) != 0; }
};

template<class T> constexpr const char* kind()
{
  using U = std::remove_cv_t<std::remove_reference_t<T>>;
  return std::is_integral<U>::value ? "i" : std::is_same<U, float>::value ? "f" : std::is_same<U, double>::value ? "d" : "l";
}

extern const L* g_lg;   // exponents by which the outputs of a scaled call are divided
extern bool g_guard;   // set when a guard cell around external storage changed

struct Obs {
  struct Rec { std::string k, cfg, e; Nums v; long n; };
  std::vector<Rec> recs;
  void rec(const std::string& k, const std::string& cfg, Nums v)
  {
    if(g_lg) for(std::size_t j = 0; j < v.size(); ++j)
      if(v[j].fl) v[j] = encf(std::ldexp(v[j].raw, -int(g_lg->size() == 1 ? (*g_lg)[0] : g_lg->at(j))), v[j].fine);
    for(auto& r : recs)
      if(r.k == k && r.e.empty() && r.v == v) { ++r.n; return; }
    recs.push_back({k, cfg, "", v, 1});
  }
  void err(const std::string& cfg, const std::string& e)
  {
    for(auto& r : recs)
      if(r.e == e) { ++r.n; return; }
    recs.push_back({"e", cfg, e, {}, 1});
  }
};

inline std::string ename(const std::exception& e)
{
  int st = 0;
  char* p = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
  std::string s = p ? p : typeid(e).name();
  std::free(p);
  if(s.rfind("cml::", 0) == 0) s = s.substr(5);
  return s;
}

/// Run f(), which returns Nums; log the value or the exception.
template<class F> inline void run(Obs& o, const std::string& k, const std::string& cfg, F&& f)
{
  try { o.rec(k, cfg, f()); }
  catch(const std::exception& e) { o.err(cfg, ename(e)); }
  if(g_guard) { g_guard = false; o.err(cfg, "guard_cell_overwritten"); }
}

using Handler = void (*)(const Call&, Obs&);
std::map<std::string, std::vector<Handler>>& registry();
struct Reg { Reg(const char* op, Handler h) { registry()[op].push_back(h); } };
// scaled calls are for floating-point operands
#if defined(TES)
constexpr bool tu_integral = std::is_integral<TE1>::value || std::is_integral<TE2>::value || std::is_integral<TES>::value;
#elif defined(TE2)
constexpr bool tu_integral = std::is_integral<TE1>::value || std::is_integral<TE2>::value;
#elif defined(TE1)
constexpr bool tu_integral = std::is_integral<TE1>::value;
#else
constexpr bool tu_integral = false;
#endif
#define DRV_CAT2(a, b) a##b
#define DRV_CAT(a, b) DRV_CAT2(a, b)
#define OP(NAME) \
  static void DRV_CAT(h_, __LINE__)(const drv::Call& c, drv::Obs& o); \
  static drv::Reg DRV_CAT(r_, __LINE__)(NAME, [](const drv::Call& c, drv::Obs& o) { if(!(c.scaled && drv::tu_integral)) DRV_CAT(h_, __LINE__)(c, o); }); \
  static void DRV_CAT(h_, __LINE__)(const drv::Call& c, drv::Obs& o)

/* ---- values of expressions ------------------------------------------- */

template<class X> inline Nums vvals(const X& x)
{
  Nums r;
  for(int i = 0; i < x.size(); ++i) r.push_back(enc(x.get(i)));
  return r;
}
template<class X> inline Nums mvals(const X& m)
{
  Nums r;
  for(int i = 0; i < m.rows(); ++i)
    for(int j = 0; j < m.cols(); ++j) r.push_back(enc(m.get(i, j)));
  return r;
}
/// w, x, y, z
template<class Q> inline Nums qvals(const Q& q) { return {enc(q.w()), enc(q.x()), enc(q.y()), enc(q.z())}; }

template<int N> using ic = std::integral_constant<int, N>;

template<class F, int... I> inline void for_seq(std::integer_sequence<int, I...>, F&& f) { (f(ic<I>{}), ...); }
template<int N, class F> inline void for_n(F&& f) { for_seq(std::make_integer_sequence<int, N>{}, std::forward<F>(f)); }
/// f(ic<N>) for the N in the list equal to n (if any).
template<int... Ns, class F> inline void at_n(int n, F&& f) { ((n == Ns ? f(ic<Ns>{}) : void()), ...); }

template<class E> inline const char* en() { return kind<E>(); }

/* ---- vector configurations ------------------------------------------- */
// S: 0 fixed<N>, 1 dynamic<>, 2 external<N>, 3 external<>, 4 const external<N>, 5 const external<>
inline const char* sname(int S) { static const char* n[] = {"fixed", "dynamic", "ext_fixed", "ext_dynamic", "cext_fixed", "cext_dynamic"}; return n[S]; }

constexpr int GUARD = 3;
template<class E> struct Buf {
  std::vector<E> b;
  explicit Buf(std::size_t n) : b(n + 2 * GUARD, E(77)) {}
  Buf(const Buf&) = delete;
  E* p() { return b.data() + GUARD; }
  ~Buf()
  {
    for(int i = 0; i < GUARD; ++i)
      if(b[i] != E(77) || b[b.size() - 1 - i] != E(77)) g_guard = true;
  }
};

template<class E> inline std::vector<E> conv(const L& a, long den)
{
  std::vector<E> r;
  for(auto x : a) r.push_back(a.sc != 0 ? E(std::ldexp(double(E(double(x) / double(den))), a.sc)) : den == 1 ? E(x) : E(double(x) / double(den)));
  return r;
}

/// The scalar s/sd.
template<class S> inline S scalar(const Call& c)
{
  S s = S(S(c.s("s")) / S(c.s("sd", 1)));
  return c.v("s").sc != 0 ? S(std::ldexp(double(s), c.v("s").sc)) : s;
}
/// Are the elements a/den values of type E?
template<class E> inline bool fits(const L& a, long den)
{
  if(std::is_integral<E>::value)
    for(auto x : a) if(x % den) return false;
  return true;
}

template<class E> inline E* binit(Buf<E>& b, const L& a, long den) { auto c = conv<E>(a, den); for(std::size_t i = 0; i < a.size(); ++i) b.p()[i] = c[i]; return b.p(); }

template<class E, int N, int S> struct VH;
template<class E, int N> struct VH<E, N, 0> {
  using T = cml::vector<E, cml::fixed<N>>;
  T v;
  explicit VH(const L& a, long den = 1) { auto c = conv<E>(a, den); for(int i = 0; i < N; ++i) v.put(i, c[i]); }
};
template<class E, int N> struct VH<E, N, 1> {
  using T = cml::vector<E, cml::dynamic<>>;
  T v;
  explicit VH(const L& a, long den = 1) : v(int(a.size())) { auto c = conv<E>(a, den); for(int i = 0; i < int(a.size()); ++i) v.put(i, c[i]); }
};
template<class E, int N> struct VH<E, N, 2> {
  using T = cml::vector<E, cml::external<N>>;
  Buf<E> b;
  T v;
  explicit VH(const L& a, long den = 1) : b(N), v(b.p()) { auto c = conv<E>(a, den); for(int i = 0; i < N; ++i) v.put(i, c[i]); }
};
template<class E, int N> struct VH<E, N, 3> {
  using T = cml::vector<E, cml::external<>>;
  Buf<E> b;
  T v;
  explicit VH(const L& a, long den = 1) : b(a.size()), v(b.p(), int(a.size())) { auto c = conv<E>(a, den); for(int i = 0; i < int(a.size()); ++i) v.put(i, c[i]); }
};
template<class E, int N> struct VH<E, N, 4> {
  using T = cml::vector<const E, cml::external<N>>;
  Buf<E> b;
  T v;
  explicit VH(const L& a, long den = 1) : b(N), v(binit(b, a, den)) {}
};
template<class E, int N> struct VH<E, N, 5> {
  using T = cml::vector<const E, cml::external<>>;
  Buf<E> b;
  T v;
  explicit VH(const L& a, long den = 1) : b(a.size()), v(binit(b, a, den), int(a.size())) {}
};

/* ---- matrix configurations ------------------------------------------- */
// I in 0..15: storage I%4, basis (I/4)%2 (0 col, 1 row), layout (I/8)%2 (0 row_major, 1 col_major)
template<int I> struct MC {
  static constexpr int S = I % 4;
  using basis = std::conditional_t<(I / 4) % 2 == 0, cml::col_basis, cml::row_basis>;
  using layout = std::conditional_t<(I / 8) % 2 == 0, cml::row_major, cml::col_major>;
  static constexpr bool row_basis = (I / 4) % 2 == 1;
  static constexpr bool col_major = (I / 8) % 2 == 1;
};
inline std::string mname(int I) { return std::string(sname(I % 4)) + ((I / 4) % 2 ? "/rb" : "/cb") + ((I / 8) % 2 ? "/cm" : "/rm"); }

template<class E, int R, int C, int I, int S = I % 4> struct MH;
template<class M, class E> inline void mfill(M& m, const L& a, long den, int C)
{
  auto c = conv<E>(a, den);
  for(int i = 0; i < m.rows(); ++i)
    for(int j = 0; j < m.cols(); ++j) m.put(i, j, c[i * C + j]);
}
template<class E, int R, int C, int I> struct MH<E, R, C, I, 0> {
  using T = cml::matrix<E, cml::fixed<R, C>, typename MC<I>::basis, typename MC<I>::layout>;
  T m;
  MH(const L& a, int, int c, long den = 1) { mfill<T, E>(m, a, den, c); }
};
template<class E, int R, int C, int I> struct MH<E, R, C, I, 1> {
  using T = cml::matrix<E, cml::dynamic<>, typename MC<I>::basis, typename MC<I>::layout>;
  T m;
  MH(const L& a, int r, int c, long den = 1) : m(r, c) { mfill<T, E>(m, a, den, c); }
};
template<class E, int R, int C, int I> struct MH<E, R, C, I, 2> {
  using T = cml::matrix<E, cml::external<R, C>, typename MC<I>::basis, typename MC<I>::layout>;
  Buf<E> b;
  T m;
  MH(const L& a, int, int c, long den = 1) : b(R * C), m(b.p()) { mfill<T, E>(m, a, den, c); }
};
template<class E, int R, int C, int I> struct MH<E, R, C, I, 3> {
  using T = cml::matrix<E, cml::external<>, typename MC<I>::basis, typename MC<I>::layout>;
  Buf<E> b;
  T m;
  MH(const L& a, int r, int c, long den = 1) : b(r * c), m(b.p(), r, c) { mfill<T, E>(m, a, den, c); }
};

/* ---- quaternion configurations --------------------------------------- */
// I in 0..3: order I%2 (0 imaginary_first, 1 real_first), cross I/2 (0 positive, 1 negative)
template<class E, int I> using QT = cml::quaternion<E, cml::fixed<>,
  std::conditional_t<I % 2 == 0, cml::imaginary_first, cml::real_first>,
  std::conditional_t<I / 2 == 0, cml::positive_cross, cml::negative_cross>>;
inline std::string qname(int I) { return std::string(I % 2 ? "real_first" : "imag_first") + (I / 2 ? "/neg" : "/pos"); }
/// Build from (w,x,y,z)/den through named components.
template<class Q> inline Q mkq(const L& a, long den = 1)
{
  using E = cml::value_type_trait_of_t<Q>;
  auto c = conv<E>(a, den);
  using O = typename Q::order_type;
  Q q;
  q.put(int(O::W), c[0]); q.put(int(O::X), c[1]); q.put(int(O::Y), c[2]); q.put(int(O::Z), c[3]);
  return q;
}

}  // namespace drv
