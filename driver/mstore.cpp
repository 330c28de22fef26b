// C06, C07, C08: histories over matrix registers and a caller-owned buffer.
// -DTE1 element, -DTE2 element of register 6
#include "drv.h"
#include <array>
#include <memory>
#include <stdexcept>
#include <tuple>
using namespace drv;
namespace {
using E = TE1;
using F = cml::matrix<E, cml::fixed<2, 3>, cml::col_basis, cml::row_major>;
using FC = cml::matrix<E, cml::fixed<2, 3>, cml::row_basis, cml::col_major>;
using D = cml::matrix<E, cml::dynamic<>, cml::col_basis, cml::row_major>;
using DC = cml::matrix<E, cml::dynamic<>, cml::row_basis, cml::col_major>;
using D2 = cml::matrix<TE2, cml::dynamic<>, cml::row_basis, cml::row_major>;
using X = cml::matrix<E, cml::external<2, 3>, cml::col_basis, cml::row_major>;
using XC = cml::matrix<E, cml::external<2, 3>, cml::row_basis, cml::col_major>;
using Y = cml::matrix<E, cml::external<>, cml::col_basis, cml::row_major>;
using YC = cml::matrix<E, cml::external<>, cml::row_basis, cml::col_major>;
constexpr int W = 12, MEM = 26, NR = 13;
template<class T> constexpr bool dynv = std::is_same<T, D>::value || std::is_same<T, DC>::value || std::is_same<T, D2>::value;
template<class T> constexpr bool fixv = std::is_same<T, F>::value || std::is_same<T, FC>::value;
template<class T> constexpr bool xv = std::is_same<T, X>::value || std::is_same<T, XC>::value;
template<class T> constexpr bool yv = std::is_same<T, Y>::value || std::is_same<T, YC>::value;
template<class T> constexpr bool viewv = xv<T> || yv<T>;
template<class T> constexpr bool fixedv = fixv<T> || xv<T>;
template<class T> constexpr bool cmv = std::is_same<T, FC>::value || std::is_same<T, DC>::value || std::is_same<T, XC>::value || std::is_same<T, YC>::value;
template<class T> using UP = std::unique_ptr<T>;
template<class T> using OT = typename std::decay_t<T>::element_type;

int code(const std::exception& e)
{
  static const std::map<std::string, int> m = {{"incompatible_vector_size_error", 1}, {"vector_size_error", 2}, {"minimum_vector_size_error", 3}, {"std::invalid_argument", 4},
    {"incompatible_matrix_size_error", 5}, {"matrix_size_error", 6}, {"incompatible_matrix_inner_size_error", 7},
    {"incompatible_matrix_row_size_error", 8}, {"incompatible_matrix_col_size_error", 9}, {"non_square_matrix_error", 10}};
  auto i = m.find(ename(e));
  return i == m.end() ? 99 : i->second;
}
struct World {
  E* mem;
  std::tuple<UP<F>, UP<F>, UP<FC>, UP<D>, UP<D>, UP<DC>, UP<D2>, UP<X>, UP<XC>, UP<Y>, UP<YC>, UP<Y>, UP<X>> r;
  bool moved[NR] = {};
  template<class Fn> void with(int p, Fn&& f) { for_n<NR>([&](auto k) { if(decltype(k)::value == p) f(std::get<decltype(k)::value>(r)); }); }
  // storage-order initial values
  template<class M> static void ini(M& m, std::initializer_list<int> l) { int k = 0; for(int x : l) m.data()[k++] = x; }
  World()
  {
    mem = new E[MEM];
    for(int k = 0; k < MEM; ++k) mem[k] = E(201 + k);
    std::get<0>(r).reset(new F); ini(*std::get<0>(r), {1, 2, 3, 4, 5, 6});
    std::get<1>(r).reset(new F); ini(*std::get<1>(r), {-1, 7, -3, 8, -5, 9});
    std::get<2>(r).reset(new FC); ini(*std::get<2>(r), {11, 12, 13, 14, 15, 16});
    std::get<3>(r).reset(new D(2, 3)); ini(*std::get<3>(r), {21, 22, 23, 24, 25, 26});
    std::get<4>(r).reset(new D(3, 2)); ini(*std::get<4>(r), {-31, 32, 33, -34, 35, 36});
    std::get<5>(r).reset(new DC(3, 2)); ini(*std::get<5>(r), {41, 42, 43, 44, 45, 46});
    std::get<6>(r).reset(new D2(2, 2)); ini(*std::get<6>(r), {51, 52, 53, 54});
    std::get<7>(r).reset(new X(mem + 3));
    std::get<8>(r).reset(new XC(mem + 7));
    std::get<9>(r).reset(new Y(mem + 5, 3, 2));
    std::get<10>(r).reset(new YC(2, 3, mem + 11));
    std::get<11>(r).reset(new Y(mem + 13, 3, 3));
    std::get<12>(r).reset(new X(mem + 17));
  }
  ~World() { delete[] mem; }
  void show(Nums& o)
  {
    auto n = [&](long x) { o.push_back({x, 0}); };
    for(int k = 0; k < MEM; ++k) o.push_back(enc(mem[k]));
    for(int p = 0; p < NR; ++p)
      with(p, [&](auto& u) {
        using T = OT<decltype(u)>;
        const T& v = *u;
        if(moved[p]) { n(1); return; }
        if(viewv<T> && v.data() == nullptr) { n(2); n(fixedv<T> ? 0 : v.rows()); n(fixedv<T> ? 0 : v.cols()); return; }
        n(0);
        n(v.rows());
        n(v.cols());
        n(viewv<T> ? long((const E*) (const void*) v.data() - mem) + 1 : 0);
        for(int i = 0; i < v.rows(); ++i) for(int j = 0; j < v.cols(); ++j) o.push_back(enc(v(i, j)));
        for(auto q = v.begin(); q != v.end(); ++q) o.push_back(enc(*q));
      });
  }
};
template<class T> T copy_of(const T& v) { T t(v); return t; }
// values x as a C array of A x B
template<int A, int B, class Fn> void arr2(const long* x, Fn&& f) { E a[A][B]; for(int i = 0; i < A; ++i) for(int j = 0; j < B; ++j) a[i][j] = E(x[i * B + j]); f(a); }
template<class T, class Fn> void dims(int a, int b, const long* x, Fn&& f)
{
  if constexpr(fixedv<T>) arr2<2, 3>(x, f);
  else for_n<3>([&](auto i) { for_n<3>([&](auto j) { constexpr int A = decltype(i)::value + 1, B = decltype(j)::value + 1; if constexpr(A * B <= 6) { if(A == a && B == b) arr2<A, B>(x, f); } }); });
}
template<class T> void lists(T& v, const long* x, int n, bool lv)
{
  auto e = [&](int i) { return E(x[i]); };
#define LST(K, ...) if(n == K) { if(lv) v = {__VA_ARGS__}; else std::move(v) = {__VA_ARGS__}; }
  LST(1, e(0)) LST(2, e(0), e(1)) LST(3, e(0), e(1), e(2)) LST(4, e(0), e(1), e(2), e(3)) LST(5, e(0), e(1), e(2), e(3), e(4)) LST(6, e(0), e(1), e(2), e(3), e(4), e(5))
#undef LST
}
template<class A, class B> constexpr bool mulok = cmv<A> == cmv<B> && std::is_same<typename A::basis_tag, typename B::basis_tag>::value && !(fixedv<A> && fixedv<B>);

void step(World& w, const long* I, int variant)
{
  const int c = int(I[0]), p = int(I[1]), q = int(I[2]), r = int(I[3]), a = int(I[4]), b = int(I[5]);
  const long* x = I + 6;
  if(c == 24) { w.mem[q - 1] = E(x[0]); return; }
  auto fresh = [&] { w.moved[p] = false; };
  bool done = false;
  w.with(p, [&](auto& u) {
    using T = OT<decltype(u)>;
    T& v = *u;
    done = true;
    E* at = w.mem + q - 1;
    switch(c) {
    case 23: if constexpr(xv<T>) u.reset(new T(at)); else if constexpr(yv<T>) { if(variant) u.reset(new T(at, a, b)); else u.reset(new T(a, b, at)); } return fresh();
    case 27: if constexpr(yv<T>) v.reset(); return;
    case 29: if constexpr(viewv<T>) { u.reset(); u.reset(new T()); } return;
    case 5: if constexpr(dynv<T> || yv<T>) v.resize(a, b); return;
    case 6: if constexpr(dynv<T>) v.resize_fast(a, b); return;
    case 7: variant ? void(v.put(a, b, x[0])) : void(std::move(v).put(a, b, x[0])); return;
    case 8: if(variant) v(a, b) = E(x[0]); else v.get(a, b) = E(x[0]); return;
    case 35: variant ? void(v.set_basis_element(a, b, x[0])) : void(std::move(v).set_basis_element(a, b, x[0])); return;
    case 9: v.data()[a] = E(x[0]); return;
    case 12: variant ? void(v *= x[0]) : void(std::move(v) *= x[0]); return;
    case 37: variant ? void(v /= x[0]) : void(std::move(v) /= x[0]); return;
    case 16: variant ? void(v.identity()) : void(std::move(v).identity()); return;
    case 17: variant ? void(v.fill(E(x[0]))) : void(std::move(v).fill(E(x[0]))); return;
    case 18: variant ? void(v.zero()) : void(std::move(v).zero()); return;
    case 20: if constexpr(dynv<T> || yv<T>) { variant ? void(v.transpose()) : void(std::move(v).transpose()); } return;
    case 21: if constexpr(dynv<T>) { std::unique_ptr<T> t(new T(a, b)); u = std::move(t); fresh(); } return;
    case 22:
      if constexpr(dynv<T>) { if(variant) u.reset(new T(x, a, b)); else u.reset(new T(a, b, x)); }
      else if constexpr(fixv<T>) { if(variant) u.reset(new T(x)); else u.reset(new T(x[0], x[1], x[2], x[3], x[4], x[5])); }
      return fresh();
    case 25: lists(v, x, a, variant != 0); return;
    case 36: {
      auto asg = [&](auto n) {
        constexpr int N = decltype(n)::value;
        if constexpr(!fixedv<T> || N == 6) {
          if(variant) { E t[N]; for(int k = 0; k < N; ++k) t[k] = E(x[k]); v = t; }
          else { long t[N]; for(int k = 0; k < N; ++k) t[k] = x[k]; std::move(v) = t; }
        }
      };
      at_n<2, 4, 6>(a, asg);
      return;
    }
    case 26: dims<T>(a, b, x, [&](auto& t) { if(variant) v = t; else std::move(v) = t; }); return fresh();
    case 31: case 32: {
      cml::vector<E, cml::dynamic<>> t(b);
      for(int k = 0; k < b; ++k) t[k] = E(x[k % 6] + 10 * (k / 6));
      if(c == 31) { variant ? void(v.set_row(a, t)) : void(std::move(v).set_row(a, t)); }
      else { variant ? void(v.set_col(a, t)) : void(std::move(v).set_col(a, t)); }
      return;
    }
    default: done = false;
    }
  });
  if(done) return;
  if(c == 2 || c == 3 || c == 4 || c == 13) {
    w.with(p, [&](auto& u) {
      using T = OT<decltype(u)>;
      w.with(q, [&](auto& t) {
        if constexpr(std::is_same<OT<decltype(t)>, T>::value) {
          if(c == 2) { *u = std::move(*t); w.moved[q] = !viewv<T>; }
          else if(c == 4) { u.reset(new T(std::move(*t))); w.moved[q] = !viewv<T>; }
          else if constexpr(!viewv<T>) {
            if(c == 13) std::swap(*u, *t);
            else if(variant) u.reset(new T(*t));
            else u.reset(new T(copy_of(*t)));
          }
        }
      });
    });
    return fresh();
  }
  w.with(p, [&](auto& u) {
    using T = OT<decltype(u)>;
    w.with(q, [&](auto& t) {
      using S = OT<decltype(t)>;
      const S& s = *t;
      switch(c) {
      case 1: if(variant) *u = s; else { if constexpr(std::is_same<S, T>::value) *u = s; else std::move(*u) = s; } return fresh();
      case 10: variant ? void(*u += s) : void(std::move(*u) += s); return;
      case 11: variant ? void(*u -= s) : void(std::move(*u) -= s); return;
      case 15: *u = -s; return fresh();
      case 33: *u = 2 * *u + s; return;
      case 19: if constexpr(!(fixedv<T> && fixedv<S>)) *u = cml::transpose(s); return fresh();
      case 28: if constexpr(!viewv<T>) u.reset(new T(s)); return fresh();
      case 14: case 30:
        for_n<NR>([&](auto k) {
          constexpr int K = decltype(k)::value;
          if constexpr(K == 0 || K == 3 || K == 5 || K == 6 || K == 9 || K == 10) {
            if(K == r) {
              const auto& z = *std::get<K>(w.r);
              using Z = std::decay_t<decltype(z)>;
              if(c == 14) *u = s + z;
              else if constexpr(mulok<S, Z>) *u = s * z;
            }
          }
        });
        return fresh();
      default: break;
      }
    });
  });
}
}  // namespace
OP("mhist") {
  for(int variant = 0; variant < 2; ++variant)
    run(o, "v", std::string(en<E>()) + "," + en<TE2>() + (variant ? "/b" : "/a"), [&] {
      World w;
      Nums r;
      const L& p = c.v("prog");
      for(std::size_t k = 0; k + W <= p.size(); k += W) {
        int e = 0;
        try { step(w, p.data() + k, variant); }
        catch(const std::exception& x) { e = code(x); }
        r.push_back({e, 0});
        w.show(r);
      }
      return r;
    });
}
