// C06, C07, C08: histories over vector registers and a caller-owned buffer.
// -DTE1 element, -DTE2 element of register 4
#include "drv.h"
#include <memory>
#include <stdexcept>
#include <tuple>
using namespace drv;
using E = TE1;
using F = cml::vector<E, cml::fixed<3>>;
using D = cml::vector<E, cml::dynamic<>>;
using D2 = cml::vector<TE2, cml::dynamic<>>;
using X = cml::vector<E, cml::external<3>>;
using Y = cml::vector<E, cml::external<>>;
using CX = cml::vector<const E, cml::external<3>>;
using CY = cml::vector<const E, cml::external<>>;
static constexpr int W = 10, MEM = 20, NR = 11;
template<class T> struct is_view : std::false_type {};
template<class A, int N> struct is_view<cml::vector<A, cml::external<N>>> : std::true_type {};
template<class T> constexpr bool viewv = is_view<T>::value;
template<class T> constexpr bool constv = std::is_same<T, CX>::value || std::is_same<T, CY>::value;
template<class T> constexpr bool dynv = std::is_same<T, D>::value || std::is_same<T, D2>::value;
template<class T> constexpr bool fixedv = std::is_same<T, F>::value || std::is_same<T, X>::value || std::is_same<T, CX>::value;

static int code(const std::exception& e)
{
  std::string s = ename(e);
  static const std::map<std::string, int> m = {{"incompatible_vector_size_error", 1}, {"vector_size_error", 2}, {"minimum_vector_size_error", 3}, {"std::invalid_argument", 4}};
  auto i = m.find(s);
  return i == m.end() ? 99 : i->second;
}
namespace {
struct World {
  E* mem;
  std::tuple<std::unique_ptr<F>, std::unique_ptr<F>, std::unique_ptr<D>, std::unique_ptr<D>, std::unique_ptr<D2>, std::unique_ptr<X>, std::unique_ptr<X>,
    std::unique_ptr<Y>, std::unique_ptr<Y>, std::unique_ptr<CX>, std::unique_ptr<CY>> r;
  bool moved[NR] = {};
  template<class Fn> void with(int p, Fn&& f) { for_n<NR>([&](auto k) { if(decltype(k)::value == p) f(std::get<decltype(k)::value>(r)); }); }
  World()
  {
    mem = new E[MEM];
    for(int k = 0; k < MEM; ++k) mem[k] = E(101 + k);
    std::get<0>(r).reset(new F(1, 2, 3));
    std::get<1>(r).reset(new F(-4, 5, -6));
    std::get<2>(r).reset(new D(7, 8, 9));
    std::get<3>(r).reset(new D(10, -11));
    std::get<4>(r).reset(new D2(12, 13, 14, 15));
    std::get<5>(r).reset(new X(mem + 3));
    std::get<6>(r).reset(new X(mem + 6));
    std::get<7>(r).reset(new Y(mem + 5, 4));
    std::get<8>(r).reset(new Y(3, mem + 11));
    std::get<9>(r).reset(new CX(mem + 3));
    std::get<10>(r).reset(new CY(mem + 7, 5));
  }
  ~World() { delete[] mem; }
  void show(Nums& o)
  {
    auto n = [&](long x) { o.push_back({x, 0}); };
    for(int k = 0; k < MEM; ++k) o.push_back(enc(mem[k]));
    for(int p = 0; p < NR; ++p)
      with(p, [&](auto& u) {
        using T = typename std::decay_t<decltype(u)>::element_type;
        const T& v = *u;
        if(moved[p]) { n(1); return; }
        if(viewv<T> && v.data() == nullptr) { n(2); n(fixedv<T> ? 0 : v.size()); return; }
        n(0);
        n(v.size());
        n(viewv<T> ? long((const E*) (const void*) v.data() - mem) + 1 : 0);
        for(int i = 0; i < v.size(); ++i) o.push_back(enc(v[i]));
        for(auto q = v.begin(); q != v.end(); ++q) o.push_back(enc(*q));
      });
  }
};
}  // namespace
template<class T> static T by_value(const T& v) { return v; }
template<class T> static T by_value2(const T& v) { T t(v); return t; }

template<class T, std::size_t N, class U> static void build(std::unique_ptr<T>& u, const E (&a)[N], U&& list, int form)
{
  if constexpr(dynv<T>) { if(form % 2) u.reset(new T(a)); else u.reset(new T(list())); }
  else if constexpr(std::is_same<T, F>::value && N == 3) {
    const E* p = a;
    switch(form) {
    case 0: u.reset(new T(a)); break;
    case 1: u.reset(new T(p)); break;
    case 2: u.reset(new T(list())); break;
    default: u.reset(new T(a[0], a[1], a[2])); break;
    }
  }
}
// how: 0 a list, 1 set(), 2 an array, 3 construction; form: which of the equivalent ways
template<class T> static void list_assign(std::unique_ptr<T>& u, const long* x, int n, int how, int form)
{
  T& v = *u;
  auto e = [&](int i) { return E(x[i]); };
#define LST(K, ...) if(n == K) { \
    if(how == 0) { if(form % 2) v = {__VA_ARGS__}; else std::move(v) = {__VA_ARGS__}; } \
    else if(how == 1) { if constexpr(!fixedv<T> || K == 3) { form % 2 ? void(v.set(__VA_ARGS__)) : void(std::move(v).set(__VA_ARGS__)); } } \
    else if(how == 2) { E a[] = {__VA_ARGS__}; if(form % 2) v = a; else std::move(v) = a; } \
    else if constexpr(!viewv<T>) { E a[] = {__VA_ARGS__}; build(u, a, [&] { return T({__VA_ARGS__}); }, form); } }
  LST(1, e(0)) LST(2, e(0), e(1)) LST(3, e(0), e(1), e(2)) LST(4, e(0), e(1), e(2), e(3)) LST(5, e(0), e(1), e(2), e(3), e(4))
#undef LST
}

static void step(World& w, const long* I, int variant)
{
  const int c = int(I[0]), p = int(I[1]), q = int(I[2]), r = int(I[3]), n = int(I[4]);
  const long* x = I + 5;
  if(c == 24) { w.mem[q - 1] = E(x[0]); return; }
  // constructors and assignments complete before the moved-from mark is cleared
  auto fresh = [&] { w.moved[p] = false; };
  if(c == 23) {
    w.with(p, [&](auto& u) {
      using T = typename std::decay_t<decltype(u)>::element_type;
      E* at = w.mem + q - 1;
      if constexpr(std::is_same<T, X>::value || std::is_same<T, CX>::value) u.reset(new T(at));
      else if constexpr(viewv<T>) { if(variant) u.reset(new T(at, n)); else u.reset(new T(n, at)); }
    });
    return fresh();
  }
  if(c == 27) { w.with(p, [&](auto& u) { using T = typename std::decay_t<decltype(u)>::element_type; if constexpr(std::is_same<T, Y>::value || std::is_same<T, CY>::value) u->reset(); }); return; }
  if(c == 29) { w.with(p, [&](auto& u) { using T = typename std::decay_t<decltype(u)>::element_type; u.reset(); u.reset(new T()); }); return; }
  // one register
  bool done = false;
  const int form = int((x[0] + 1000 + variant + n) % 4);
  w.with(p, [&](auto& u) {
    using T = typename std::decay_t<decltype(u)>::element_type;
    T& v = *u;
    if constexpr(dynv<T> || std::is_same<T, F>::value) if(c == 22) { done = true; list_assign(u, x, n, 3, form); return fresh(); }
    if constexpr(dynv<T>) {
      done = true;
      switch(c) {
      case 5: v.resize(n); return;
      case 6: v.resize_fast(n); return;
      case 20: { T t(n); u.reset(new T(n)); return fresh(); }
      case 21: { if(variant) u.reset(new T(x, n)); else u.reset(new T(n, x)); return fresh(); }
      default: done = false;
      }
    }
    if constexpr(!constv<T>) {
      done = true;
      switch(c) {
      case 7: variant ? void(v.put(n, x[0])) : void(std::move(v).put(n, x[0])); return;
      case 8: if(variant) v[n] = E(x[0]); else v.get(n) = E(x[0]); return;
      case 34: v.data()[n] = E(x[0]); return;
      case 9: list_assign(u, x, n, 0, form); return fresh();
      case 31: list_assign(u, x, n, 1, form); return fresh();
      case 36: list_assign(u, x, n, 2, form); return fresh();
      case 12: variant ? void(v *= x[0]) : void(std::move(v) *= x[0]); return;
      case 38: form % 2 ? void(v /= x[0]) : void(std::move(v) /= x[0]); return;
      case 17: form % 2 ? void(v.fill(E(x[0]))) : void(std::move(v).fill(E(x[0]))); return;
      case 18: variant ? void(v.zero()) : void(std::move(v).zero()); return;
      case 19: variant ? void(v.cardinal(n)) : void(std::move(v).cardinal(n)); return;
      default: done = false;
      }
    }
  });
  if(done) return;
  // p and q of the same type
  if(c == 2 || c == 3 || c == 4 || c == 13) {
    w.with(p, [&](auto& u) {
      using T = typename std::decay_t<decltype(u)>::element_type;
      w.with(q, [&](auto& t) {
        if constexpr(!constv<T> && std::is_same<typename std::decay_t<decltype(t)>::element_type, T>::value) {
          if(c == 2) { *u = std::move(*t); w.moved[q] = !viewv<T>; }
          else if(c == 3) { if(variant || viewv<T>) u.reset(new T(*t)); else u.reset(new T(by_value2(*t))); }
          else if(c == 4) { u.reset(new T(std::move(*t))); w.moved[q] = !viewv<T>; }
          else if constexpr(!viewv<T>) std::swap(*u, *t);
        }
      });
    });
    w.moved[p] = false;
    return;
  }
  w.with(p, [&](auto& u) {
    using T = typename std::decay_t<decltype(u)>::element_type;
    w.with(q, [&](auto& t) {
      using S = typename std::decay_t<decltype(t)>::element_type;
      const S& s = *t;
      if constexpr(!constv<T>) {
        switch(c) {
        case 1: if(variant) *u = s; else { if constexpr(std::is_same<S, T>::value) *u = s; else std::move(*u) = s; } return fresh();
        case 10: variant ? void(*u += s) : void(std::move(*u) += s); return;
        case 11: variant ? void(*u -= s) : void(std::move(*u) -= s); return;
        case 15: *u = -s; return fresh();
        case 25: variant ? void(u->minimize(s)) : void(std::move(*u).minimize(s)); return;
        case 26: variant ? void(u->maximize(s)) : void(std::move(*u).maximize(s)); return;
        case 37: *u = 2 * *u + s; return;
        case 16: if constexpr(!(fixedv<T> && fixedv<S>)) *u = cml::subvector(s, n); return fresh();
        case 14: w.with(r, [&](auto& z) {
            const auto& zz = *z;
            *u = s + zz;
          }); return fresh();
        default: break;
        }
      }
      if constexpr(!viewv<T>) {
        if(c == 28) { u.reset(new T(s)); return fresh(); }
        if(c == 30) { if constexpr(!(fixedv<T> && fixedv<S>)) u.reset(new T(s, x[0])); return fresh(); }
      }
    });
  });
}
OP("vhist") {
  for(int variant = 0; variant < 2; ++variant)
    run(o, "v", std::string(en<E>()) + "," + en<TE2>() + (variant ? "/b" : "/a"), [&] {
      World w;
      Nums r;
      const L& p = c.v("prog");
      for(std::size_t k = 0; k + W <= p.size(); k += W) {
        int e = 0;
        try { step(w, p.data() + k, variant); }
        catch(const std::exception& x) { e = code(x); }
        r.push_back({e, 0});
        w.show(r);
      }
      return r;
    });
}
