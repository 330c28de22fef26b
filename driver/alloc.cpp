// C22: histories of vectors and matrices over tracking allocators.  Every block is entered in its
// allocator's ledger, and any allocation can be made to fail.  -DTE1 element, -DTE2 element of registers 4 and 9
#include "drv.h"
#include <array>
#include <memory>
#include <new>
#include <stdexcept>
#include <tuple>
using namespace drv;
namespace {
using E = TE1;
// one ledger per allocator family (1 and 2; 0 is std::allocator)
std::map<const void*, std::size_t> g_live[3];
long g_bad = 0, g_left = 0;
bool g_hit = false;
template<int K, class T> struct Track {
  using value_type = T;
  Track() = default;
  template<class U> Track(const Track<K, U>&) {}
  template<class U> struct rebind { using other = Track<K, U>; };
  T* allocate(std::size_t n)
  {
    if(g_left > 0 && --g_left == 0) { g_hit = true; throw std::bad_alloc(); }
    if(n > 100000) { ++g_bad; throw std::bad_alloc(); }
    T* p = static_cast<T*>(::operator new(n * sizeof(T) + 1));
    g_live[K][p] = n * sizeof(T);
    return p;
  }
  void deallocate(T* p, std::size_t n)
  {
    auto i = g_live[K].find(p);
    if(i == g_live[K].end()) { ++g_bad; return; }    // not a block of this allocator (or returned before)
    if(i->second != n * sizeof(T)) ++g_bad;
    g_live[K].erase(i);
    ::operator delete(p);
  }
  template<class U> bool operator==(const Track<K, U>&) const { return true; }
  template<class U> bool operator!=(const Track<K, U>&) const { return false; }
};
template<int K> struct AllocOf { using T = Track<K, void*>; };
template<> struct AllocOf<0> { using T = std::allocator<void*>; };
template<class X, int K> using V = cml::vector<X, cml::dynamic<typename AllocOf<K>::T>>;
template<class X, int K, class B, class L> using M = cml::matrix<X, cml::dynamic<typename AllocOf<K>::T>, B, L>;
using cml::col_basis; using cml::row_basis; using cml::row_major; using cml::col_major;
template<class T> struct AK;
template<class X, class A> struct AK<cml::vector<X, cml::allocated<A>>> { static constexpr int k = std::is_same<A, typename AllocOf<1>::T>::value ? 1 : std::is_same<A, typename AllocOf<2>::T>::value ? 2 : 0; using el = X; };
template<class X, class A, class B, class L> struct AK<cml::matrix<X, cml::allocated<A>, B, L>> : AK<cml::vector<X, cml::allocated<A>>> {};
template<class T> struct ism : std::false_type {};
template<class X, class S, class B, class L> struct ism<cml::matrix<X, S, B, L>> : std::true_type {};
template<class T> constexpr bool mv = ism<T>::value;
template<class T> using UP = std::unique_ptr<T>;
template<class T> using OT = typename std::decay_t<T>::element_type;
constexpr int NR = 10, NV = 5, W = 13;
template<class T> int cells(const T& t) { if constexpr(mv<T>) return t.rows() * t.cols(); else return t.size(); }
// is the storage of t a block of its allocator, of exactly that size?
template<class T> long owns(const T& t)
{
  constexpr int K = AK<T>::k;
  if(K == 0) return 1;
  if(t.data() == nullptr) return cells(t) == 0;
  auto i = g_live[K].find(t.data());
  return i != g_live[K].end() && i->second == cells(t) * sizeof(typename AK<T>::el);
}
template<class Q> constexpr bool prodreg(Q) { return Q::value == 5 || Q::value == 6 || Q::value == 8 || Q::value == 9; }
int code(const std::exception& e)
{
  static const std::map<std::string, int> m = {{"incompatible_vector_size_error", 1}, {"vector_size_error", 2}, {"minimum_vector_size_error", 3}, {"std::invalid_argument", 4},
    {"incompatible_matrix_size_error", 5}, {"matrix_size_error", 6}, {"incompatible_matrix_inner_size_error", 7}, {"std::bad_alloc", 9}};
  auto i = m.find(ename(e));
  return i == m.end() ? 99 : i->second;
}
struct World {
  std::tuple<UP<V<E, 1>>, UP<V<E, 1>>, UP<V<E, 2>>, UP<V<E, 0>>, UP<V<TE2, 1>>,
    UP<M<E, 1, col_basis, row_major>>, UP<M<E, 1, col_basis, row_major>>, UP<M<E, 2, row_basis, col_major>>, UP<M<E, 0, col_basis, row_major>>, UP<M<TE2, 1, col_basis, row_major>>> r;
  bool moved[NR] = {};
  template<class Fn> void with(int p, Fn&& f) { for_n<NR>([&](auto k) { if(decltype(k)::value == p) f(std::get<decltype(k)::value>(r), k); }); }
  World() { for_n<NR>([&](auto k) { auto& u = std::get<decltype(k)::value>(r); u.reset(new OT<decltype(u)>()); }); }
  void show(Nums& o)
  {
    auto n = [&](long x) { o.push_back({x, 0}); };
    long held[3] = {0, 0, 0};
    for(int p = 0; p < NR; ++p)
      with(p, [&](auto& u, auto) {
        using T = OT<decltype(u)>;
        const T& v = *u;
        if(v.data() != nullptr) ++held[AK<T>::k];
        if(moved[p]) { n(1); n(owns(v)); return; }
        n(0);
        if constexpr(mv<T>) {
          n(v.rows()); n(v.cols()); n(owns(v));
          for(int i = 0; i < v.rows(); ++i) for(int j = 0; j < v.cols(); ++j) o.push_back(enc(v(i, j)));
        } else {
          n(v.size()); n(1); n(owns(v));
          for(int i = 0; i < v.size(); ++i) o.push_back(enc(v[i]));
        }
      });
    // blocks nobody holds, and blocks returned that were not owed
    n(long(g_live[1].size()) - held[1]); n(long(g_live[2].size()) - held[2]); n(g_bad);
  }
};
template<class T, class Fn> void listed(const long* x, int n, Fn&& f)
{
  using X = typename AK<T>::el;
  auto e = [&](int i) { return X(x[i]); };
  if(n == 1) f(e(0)); if(n == 2) f(e(0), e(1)); if(n == 3) f(e(0), e(1), e(2)); if(n == 4) f(e(0), e(1), e(2), e(3));
  if(n == 5) f(e(0), e(1), e(2), e(3), e(4)); if(n == 6) f(e(0), e(1), e(2), e(3), e(4), e(5));
}
template<class T> T by_value(const T& t) { T u(t); return u; }
// cells of p that carry no value yet get x
template<class T> void fillrest(T& t, int from, long x) { for(int k = from; k < cells(t); ++k) t.data()[k] = typename AK<T>::el(x); }
template<class T> bool small(const T& t) { for(int k = 0; k < cells(t); ++k) if(std::fabs(double(t.data()[k])) > 500) return false; return true; }

void step(World& w, const long* I, int variant)
{
  const int c = int(I[0]), p = int(I[1]), q = int(I[2]), r = int(I[3]), a = int(I[4]), b = int(I[5]);
  const long* x = I + 7;
  auto live = [&](int k) { return !w.moved[k]; };
  auto fresh = [&] { w.moved[p] = false; };
  // the parts of a step that may fail are run with the fault armed
  auto go = [&](auto&& f) {
    g_left = I[6];
    g_hit = false;
    struct Off { ~Off() { g_left = 0; } } off;
    f();
  };
  w.with(p, [&](auto& u, auto P) {
    using T = OT<decltype(u)>;
    using X = typename AK<T>::el;
    T& t = *u;
    switch(c) {
    case 5: if(live(p)) { int n = cells(t); go([&] { if constexpr(mv<T>) t.resize(a, b); else t.resize(a); }); fillrest(t, std::min(n, cells(t)), x[0]); } return;
    case 6: if(live(p)) { go([&] { if constexpr(mv<T>) t.resize_fast(a, b); else t.resize_fast(a); }); fillrest(t, 0, x[0]); } return;
    case 7: { UP<T> y; go([&] { if constexpr(mv<T>) y.reset(new T(a, b)); else y.reset(new T(a)); }); u = std::move(y); fillrest(*u, 0, x[0]); return fresh(); }
    case 8: if(live(p)) { go([&] { listed<T>(x, a, [&](auto... e) { if(variant) t = {e...}; else std::move(t) = {e...}; }); }); } return;
    case 9: { UP<T> y; go([&] {
        if constexpr(mv<T>) listed<T>(x, r, [&](auto... e) { y.reset(new T(a, b, e...)); });
        else if(variant) listed<T>(x, a, [&](auto... e) { y.reset(new T(std::initializer_list<X>{e...})); });
        else { X d[6]; for(int k = 0; k < 6; ++k) d[k] = X(x[k]); y.reset(new T(a, static_cast<const X*>(d))); } });
      u = std::move(y); return fresh(); }
    case 10: if constexpr(mv<T>) { UP<T> y; go([&] {
        at_n<1, 2, 4, 6>(r, [&](auto n) {
          X d[decltype(n)::value];
          for(int k = 0; k < n(); ++k) d[k] = X(x[k]);
          y.reset(new T(a, b, d));
        }); });
      u = std::move(y); fresh(); } return;
    case 13: if(live(p)) { variant ? void(t *= x[0]) : void(std::move(t) *= x[0]); } return;
    case 18: if constexpr(mv<T>) if(live(p)) go([&] { variant ? void(t.transpose()) : void(std::move(t).transpose()); }); return;
    case 21: u.reset(); u.reset(new T()); return fresh();
    default: break;
    }
    w.with(q, [&](auto& y, auto Q) {
      using S = OT<decltype(y)>;
      S& sw = *y;
      const S& s = sw;
      constexpr bool same = std::is_same<S, T>::value;
      if constexpr(same) {
        if(p != q) {
          if(c == 2) { if(live(q)) { go([&] { t = std::move(sw); }); fresh(); w.moved[q] = true; } return; }
          if(c == 4) { if(live(q)) { UP<T> z; go([&] { z.reset(new T(std::move(sw))); }); u = std::move(z); fresh(); w.moved[q] = true; } return; }
          if(c == 20) { if(live(p) && live(q)) go([&] { std::swap(t, sw); }); return; }
        }
      }
      if constexpr(mv<S> == mv<T>) {
        if(c == 1) { if(live(q)) { go([&] { t = s; }); fresh(); } return; }
        if(c == 3) { if(live(q)) { UP<T> z; go([&] { if constexpr(same) { if(variant) z.reset(new T(by_value(s))); else z.reset(new T(s)); } else z.reset(new T(s)); }); u = std::move(z); fresh(); } return; }
        if(c == 12) { if(live(p) && live(q)) go([&] { t += s; }); return; }
        if(c == 19) { if constexpr(mv<T>) if(live(q) && p != q) { go([&] { t = cml::transpose(s); }); fresh(); } return; }
        if constexpr(!mv<T>) {
          if(c == 22) { if(p != q && live(q) && a < s.size() && s.size() >= 2) { go([&] { t = cml::subvector(s, a); }); fresh(); } return; }
          if(c == 23) { if(p != q && live(q)) { UP<T> z; go([&] { z.reset(new T(s, x[0])); }); u = std::move(z); fresh(); } return; }
        }
      }
      if(c == 25) {
        if constexpr(mv<S>) {
          if(live(q) && s.rows() == s.cols() && s.rows() >= 1 && s.rows() <= 3)
            go([&] {
              if constexpr(std::is_floating_point<typename AK<S>::el>::value) { if(a == 0) { auto z = cml::inverse(s); (void)z.rows(); } if(a == 4) { S z(s); z.inverse(); } }
              if(a == 1) { auto z = cml::determinant(s); (void)z; }
              if constexpr(std::is_floating_point<typename AK<S>::el>::value) { if(a == 2) { auto z = cml::lu(s); (void)z; } }
              if(a == 3) { auto z = s * s; (void)z.rows(); }
            });
        }
        return;
      }
      w.with(r, [&](auto& z, auto R) {
        using Z = OT<decltype(z)>;
        const Z& zz = *z;
        if(!live(q) || !live(r)) return;
        if constexpr(mv<T> == mv<S> && mv<S> == mv<Z>) {
          if(c == 11) { go([&] { t = s + zz; }); return fresh(); }
          if(c == 24) { if(q != r) { w.moved[q] = true; go([&] { t = std::move(sw) + zz; }); fresh(); } return; }
        }
        if(c == 14) { if constexpr(mv<T> && prodreg(Q) && prodreg(R)) { if(small(s) && small(zz) && cells(s) > 0 && cells(zz) > 0) { go([&] { t = s * zz; }); fresh(); } } return; }
        if(c == 15) { if constexpr(!mv<T> && mv<S> && !mv<Z>) { if(small(s) && small(zz) && cells(s) > 0) { go([&] { t = s * zz; }); fresh(); } } return; }
        if(c == 16) { if constexpr(!mv<T> && !mv<S> && mv<Z>) { if(small(s) && small(zz) && cells(zz) > 0) { go([&] { t = s * zz; }); fresh(); } } return; }
        if(c == 17) { if constexpr(mv<T> && !mv<S> && !mv<Z>) { if(small(s) && small(zz)) { go([&] { t = cml::outer(s, zz); }); fresh(); } } return; }
      });
    });
  });
}
}  // namespace
OP("ahist") {
  for(int variant = 0; variant < 2; ++variant)
    run(o, "v", std::string(en<E>()) + "," + en<TE2>() + (variant ? "/b" : "/a"), [&] {
      Nums r;
      g_live[1].clear(); g_live[2].clear();
      g_bad = 0;
      {
        World w;
        const L& p = c.v("prog");
        for(std::size_t k = 0; k + W <= p.size(); k += W) {
          int e = 0;
          g_hit = false;
          g_left = 0;
          try { step(w, p.data() + k, variant); }
          catch(const std::exception& x) { e = code(x); }
          r.push_back({e, 0});
          r.push_back({g_hit, 0});
          w.show(r);
        }
      }
      // everything destroyed
      r.push_back({long(g_live[1].size()), 0}); r.push_back({long(g_live[2].size()), 0}); r.push_back({g_bad, 0});
      return r;
    });
}
// Which allocator does a result of operands with allocators a and b use?
namespace {
template<class T> struct AW { static Nums f() { return {{99, 0}}; } };
template<class X, class A> struct AW<cml::vector<X, cml::allocated<A>>> { static Nums f() { using U = typename std::allocator_traits<A>::template rebind_alloc<void*>; return {{std::is_same<U, AllocOf<1>::T>::value ? 1 : std::is_same<U, AllocOf<2>::T>::value ? 2 : std::is_same<U, AllocOf<0>::T>::value ? 0 : 98, 0}}; } };
template<class X, class A, class B, class L> struct AW<cml::matrix<X, cml::allocated<A>, B, L>> : AW<cml::vector<X, cml::allocated<A>>> {};
template<class X> Nums aw() { return AW<cml::temporary_of_t<X>>::f(); }
template<class T> T& lv();
template<int A, int B> void picks(Obs& o)
{
  using VA = V<E, A>; using VB = V<TE2, B>; using MA = M<E, A, col_basis, row_major>; using MB = M<TE2, B, col_basis, row_major>;
  std::string nm = std::to_string(A) + "." + std::to_string(B);
#define PICK(K, X) run(o, K, nm, [] { return aw<std::decay_t<decltype(X)>>(); })
  PICK("vadd", lv<VA>() + lv<VB>());
  PICK("vadd2", (lv<VA>() - lv<VB>()) + lv<VB>());
  PICK("cross", cml::cross(lv<VA>(), lv<VB>()));
  PICK("madd", lv<MA>() - lv<MB>());
  PICK("mm", lv<MA>() * lv<MB>());
  PICK("mvec", lv<MA>() * lv<VB>());
  PICK("vecm", lv<VA>() * lv<MB>());
  PICK("outer", cml::outer(lv<VA>(), lv<VB>()));
  if(A == B) {
    PICK("neg", -lv<VA>());
    PICK("mneg", -lv<MA>());
    PICK("tr", cml::transpose(lv<MA>()));
    PICK("inv", cml::inverse(lv<MA>()));
    PICK("sub", cml::subvector(lv<VA>(), 0));
    PICK("row", cml::row(lv<MA>(), 0));
    PICK("unit", lv<VA>().normalize());
  }
}
}  // namespace
OP("apick") {
  for_n<3>([&](auto a) { for_n<3>([&](auto b) { if(c.s("a") == a() && c.s("b") == b()) picks<decltype(a)::value, decltype(b)::value>(o); }); });
}
