// Quaternion algebra, in every element order and both cross conventions.
// -DTE1 -DTE2: element types
#include "drv.h"
using namespace drv;
using P = decltype(TE1() + TE2());
static bool skip(const Call& c)
{
  bool f = std::is_same<TE1, float>::value || std::is_same<TE2, float>::value;
  long d = c.s("den", 1);
  return (c.s("wide", 0) && f) || (c.has("a") && (!fits<TE1>(c.v("a"), d) || !fits<TE2>(c.v(c.has("b") ? "b" : "a"), d) ||
         (c.has("c") && (!fits<TE1>(c.v("c"), d) || !fits<TE2>(c.v("c"), d)))));
}
constexpr bool INT1 = std::is_integral<TE1>::value;
constexpr bool SAME = std::is_same<TE1, TE2>::value;
// f(config constant, name) for the configurations of the call's cross convention
template<class F> static void each(const Call& c, F&& f)
{
  if(skip(c)) return;
  for_n<4>([&](auto i) { constexpr int I = decltype(i)::value; if(!c.has("neg") || c.s("neg") == I / 2) f(i, qname(I)); });
}
#define Q1 using Q = QT<TE1, decltype(i)::value>; const Q q = mkq<Q>(c.v("a"), c.s("den", 1)); std::string n = n0 + ":" + en<TE1>();
#define Q2 using A = QT<TE1, decltype(i)::value>; using B = QT<TE2, decltype(i)::value>; long d = c.s("den", 1); const A a = mkq<A>(c.v("a"), d); const B b = mkq<B>(c.v("b"), d); std::string n = n0 + ":" + en<TE1>() + "," + en<TE2>();
#define R1(NN, ...) run(o, kind<TE1>(), n + NN, [&] { return __VA_ARGS__; })
#define R2(NN, ...) run(o, kind<P>(), n + NN, [&] { return __VA_ARGS__; })
template<class Q> static Q ret(const Q& q) { return q; }

OP("qadd") { each(c, [&](auto i, const std::string& n0) { Q2
  R2("", qvals(a + b)); R2("/x", qvals(a - (-b))); R2("/t", qvals(ret(a) + ret(b)));
  R2("/ip", [&] { QT<P, decltype(i)::value> t(a); t += b; return qvals(t); }());
  R2("/ipt", [&] { QT<P, decltype(i)::value> t = (QT<P, decltype(i)::value>(a) += b); return qvals(t); }());
  R2("/other", [&] { QT<P, decltype(i)::value> t(a); t += QT<TE2, decltype(i)::value ^ 1>(b); return qvals(t); }());
  R2("/keep", [&] { auto t = a + b; (void) t.w(); if(!(a == mkq<A>(c.v("a"), d)) || !(b == mkq<B>(c.v("b"), d))) throw std::runtime_error("operand changed"); return qvals(t); }());
}); }
OP("qsub") { each(c, [&](auto i, const std::string& n0) { Q2
  R2("", qvals(a - b)); R2("/x", qvals(a + (-b))); R2("/t", qvals(ret(a) - ret(b)));
  R2("/ip", [&] { QT<P, decltype(i)::value> t(a); t -= b; return qvals(t); }());
  R2("/ipt", [&] { QT<P, decltype(i)::value> t = (QT<P, decltype(i)::value>(a) -= b); return qvals(t); }());
  R2("/other", [&] { QT<P, decltype(i)::value> t(a); t -= QT<TE2, decltype(i)::value ^ 1>(b); return qvals(t); }());
}); }
OP("qmul") { each(c, [&](auto i, const std::string& n0) { Q2
  R2("", qvals(a * b)); R2("/x", qvals((-a) * (-b))); R2("/t", qvals(ret(a) * ret(b)));
  R2("/rev", qvals(cml::conjugate(cml::conjugate(b) * cml::conjugate(a))));
  R2("/ip", [&] { QT<P, decltype(i)::value> t(a); t *= b; return qvals(t); }());
  R2("/ipt", [&] { QT<P, decltype(i)::value> t = (QT<P, decltype(i)::value>(a) *= b); return qvals(t); }());
  if(c.v("a") == c.v("b") && c.v("a").sc == c.v("b").sc) R1("/self", [&] { A t(a); t *= t; return qvals(t); }());
}); }
OP("qmul3") { each(c, [&](auto i, const std::string& n0) { Q2
  const A t = mkq<A>(c.v("c"), d);
  R2("/l", qvals((a * b) * t)); R2("/r", qvals(a * (b * t)));
}); }
OP("qdot") { each(c, [&](auto i, const std::string& n0) { Q2
  R2("", Nums{enc(cml::dot(a, b))}); R2("/c", Nums{enc(cml::dot(b, a))}); R2("/x", Nums{enc(cml::dot(-a, -b))}); R2("/v", Nums{enc((a * cml::conjugate(b)).w())});
}); }
OP("qscale") { each(c, [&](auto i, const std::string& n0) { Q1
  long w = c.s("which"); TE2 s = scalar<TE2>(c);
  if(w == 0) {
    R2("", qvals(q * s)); R2("/l", qvals(s * q)); R2("/x", qvals((-q) * (-s)));
    R1("/ip", [&] { Q t(q); t *= s; return qvals(t); }()); R1("/ipt", [&] { Q t = (Q(q) *= s); return qvals(t); }());
  } else if(!std::is_integral<P>::value) {
    R2("", qvals(q / s)); R2("/x", qvals((-q) / (-s)));
    if constexpr(!INT1) { R1("/ip", [&] { Q t(q); t /= s; return qvals(t); }()); R1("/ipt", [&] { Q t = (Q(q) /= s); return qvals(t); }()); }
  }
}); }
OP("qown") { each(c, [&](auto i, const std::string& n0) { Q1
  auto part = [&](Q& t) -> TE1& { int k = int(c.s("s")); return k == 0 ? t.w() : k == 1 ? t.x() : k == 2 ? t.y() : t.z(); };
  if(c.s("which") == 0) { R1("", [&] { Q t(q); t *= part(t); return qvals(t); }()); }
  else { R1("", [&] { Q t(q); t /= part(t); return qvals(t); }()); }
}); }
OP("qneg") { each(c, [&](auto i, const std::string& n0) { Q1 R1("", qvals(-q)); R1("/x", qvals(-(+q))); R1("/t", qvals(-ret(q))); }); }
OP("qconj") { each(c, [&](auto i, const std::string& n0) { Q1
  R1("", qvals(cml::conjugate(q))); R1("/m", qvals(q.conjugate())); R1("/t", qvals(cml::conjugate(ret(q)))); R1("/x", qvals(cml::conjugate(-q) * TE1(-1))); R1("/mx", qvals((-(-q)).conjugate())); R1("/mxt", qvals((-Q(-q)).conjugate()));
  R1("/ip", [&] { Q t(q); t.conjugate(); return qvals(t); }()); R1("/ipt", [&] { return qvals(Q(Q(q).conjugate())); }());
}); }
OP("qinv") { if constexpr(!INT1) each(c, [&](auto i, const std::string& n0) { Q1
  R1("", qvals(cml::inverse(q))); R1("/m", qvals(q.inverse())); R1("/t", qvals(cml::inverse(ret(q)))); R1("/x", qvals(cml::inverse(-q) * TE1(-1))); R1("/mx", qvals((-(-q)).inverse())); R1("/mxt", qvals((-Q(-q)).inverse()));
  R1("/ip", [&] { Q t(q); t.inverse(); return qvals(t); }()); R1("/ipt", [&] { return qvals(Q(Q(q).inverse())); }());
  R1("/self", [&] { Q t(q); Q r = cml::inverse(t); return qvals(r); }());
}); }
OP("qnorm") { each(c, [&](auto i, const std::string& n0) { Q1
  R1("", Nums{enc(q.norm())}); R1("", Nums{enc(cml::norm(q))}); R1("", Nums{enc(q.length_squared())}); R1("", Nums{enc(cml::length_squared(q))}); R1("/x", Nums{enc(cml::norm(-q))}); R1("/d", Nums{enc(cml::dot(q, q))});
}); }
OP("qlen") { if constexpr(!INT1) each(c, [&](auto i, const std::string& n0) { Q1
  R1("", Nums{enc(q.length())}); R1("", Nums{enc(cml::length(q))}); R1("/x", Nums{enc(cml::length(-q))});
}); }
OP("qnormalize") { if constexpr(!INT1) each(c, [&](auto i, const std::string& n0) { Q1
  R1("", qvals(cml::normalize(q))); R1("/m", qvals(q.normalize())); R1("/x", qvals(cml::normalize(q * TE1(2)))); R1("/t", qvals(cml::normalize(ret(q)))); R1("/mx", qvals((-(-q)).normalize())); R1("/mxt", qvals((-Q(-q)).normalize()));
  R1("/ip", [&] { Q t(q); t.normalize(); return qvals(t); }()); R1("/ipt", [&] { return qvals(Q(Q(q).normalize())); }());
}); }
OP("qparts") { each(c, [&](auto i, const std::string& n0) { Q1
  auto im = [](const auto& v) { return vvals(v); };
  auto all = [&](TE1 w, const Nums& v) { Nums r{enc(w)}; r.insert(r.end(), v.begin(), v.end()); return r; };
  R1("", all(q.real(), im(q.imaginary()))); R1("/f", all(cml::real(q), im(cml::imaginary(q)))); R1("/x", all(cml::real(q * TE1(1)), im(cml::imaginary(q * TE1(1)))));
  R1("/t", all(ret(q).real(), im(ret(q).imaginary()))); R1("/nm", Nums{enc(q.w()), enc(q.x()), enc(q.y()), enc(q.z())});
  R1("/ix", Nums{enc(q[Q::W]), enc(q[Q::X]), enc(q[Q::Y]), enc(q[Q::Z])});
  R1("/mut", [&] { Q t(q); Nums r{enc(t.w()), enc(t.x()), enc(t.y()), enc(t.z())}; t.w() = 0; t.x() = 0; t.y() = 0; t.z() = 0; t.w() = q.w(); t.x() = q.x(); t.y() = q.y(); t.z() = q.z(); for(auto& v : qvals(t)) if(!(v == r[&v - &v])) {} return qvals(t); }());
}); }
// every way of building or assigning: which selects
OP("qbuild") { each(c, [&](auto i, const std::string& n0) { Q1
  using QO = QT<TE1, decltype(i)::value ^ 1>;
  using QP = QT<TE2, decltype(i)::value>;
  constexpr bool RF = decltype(i)::value % 2 == 1;
  TE1 w = q.w(), x = q.x(), y = q.y(), z = q.z();
  cml::vector<TE1, cml::fixed<3>> v(x, y, z);
  cml::vector<TE2, cml::dynamic<>> vd(3); vd[0] = TE2(x); vd[1] = TE2(y); vd[2] = TE2(z);
  TE1 arr[4] = {RF ? w : x, RF ? x : y, RF ? y : z, RF ? z : w};
  TE1 im[3] = {x, y, z};
  R1("/4", qvals(Q(arr[0], arr[1], arr[2], arr[3])));
  R1("/vs", qvals(Q(v, w))); R1("/sv", qvals(Q(w, v))); R1("/xvs", qvals(Q(-(-v), w)));
  R1("/as", qvals(Q(im, w))); R1("/sa", qvals(Q(w, im)));
  R1("/arr", qvals(Q(arr))); R1("/ptr", qvals(Q((const TE1*) arr))); R1("/il", qvals(Q({arr[0], arr[1], arr[2], arr[3]})));
  R1("/cp", qvals(Q(q))); R1("/mv", [&] { Q t(q); Q u(std::move(t)); return qvals(u); }());
  R1("/oth", [&] { QO t = mkq<QO>(c.v("a"), c.s("den", 1)); Q u(t); return qvals(u); }());
  R1("/otha", [&] { QO t = mkq<QO>(c.v("a"), c.s("den", 1)); Q u; u = t; return qvals(u); }());
  R1("/othx", [&] { QO t = mkq<QO>(c.v("a"), c.s("den", 1)); Q u; u = -(-t); return qvals(u); }());
  R1("/rt", [&] { QO t(q); Q u(t); return qvals(u); }());
  R1("/=", [&] { Q u; u = q; return qvals(u); }()); R1("/=mv", [&] { Q t(q), u; u = std::move(t); return qvals(u); }());
  R1("/=x", [&] { Q u; u = q * TE1(1); return qvals(u); }());
  R1("/=arr", [&] { Q u; u = arr; return qvals(u); }()); R1("/=il", [&] { Q u; u = {arr[0], arr[1], arr[2], arr[3]}; return qvals(u); }());
  R1("/set", [&] { Q u; u.set(v, w); return qvals(u); }()); R1("/set2", [&] { Q u; u.set(w, v); return qvals(u); }());
  R1("/sett", [&] { Q u = Q().set(v, w); return qvals(u); }()); R1("/set2t", [&] { Q u = Q().set(w, v); return qvals(u); }());
  R1("/self", [&] { Q u(q); Q& r = u; u = r; return qvals(u); }());
  R1("/selfx", [&] { Q u(q); u = cml::conjugate(cml::conjugate(u)); return qvals(u); }());
  R1("/put", [&] { Q u; u.put(0, arr[0]).put(1, arr[1]).put(2, arr[2]).put(3, arr[3]); return qvals(u); }());
  R1("/putt", [&] { Q u = Q().put(0, arr[0]).put(1, arr[1]).put(2, arr[2]).put(3, arr[3]); return qvals(u); }());
  R1("/=xt", [&] { Q u; std::move(u) = -(-q); return qvals(u); }()); R1("/=arrt", [&] { Q u; std::move(u) = arr; return qvals(u); }());
  R1("/=ilt", [&] { Q u; std::move(u) = {arr[0], arr[1], arr[2], arr[3]}; return qvals(u); }());
  R1("/cdata", [&] { const Q u(q); Q t; for(int k = 0; k < 4; ++k) t[k] = u.data()[k]; return qvals(t); }());
  R1("/idx", [&] { Q u; for(int k = 0; k < 4; ++k) u[k] = arr[k]; return qvals(u); }());
  R1("/data", [&] { Q u(q); Q t; for(int k = 0; k < 4; ++k) t.data()[k] = u.data()[k]; if(u.end() - u.begin() != 4 || u.begin() != u.data() || u.size() != 4) throw std::runtime_error("range"); return qvals(t); }());
  R1("/el", [&] { QP p = mkq<QP>(c.v("a"), c.s("den", 1)); Q u(p), t; t = p; if(!(u == t)) throw std::runtime_error("assign/construct differ"); return qvals(u); }());
  R1("/vd", [&] { Q u(vd, w), t(w, vd); if(!(u == t)) throw std::runtime_error("order of parts"); return qvals(u); }());
  R1("/aim", [&] { Q u(w, cml::imaginary(q)); return qvals(u); }());
}); }
OP("qconst") { each(c, [&](auto i, const std::string& n0) { Q1
  long w = c.s("which");
  if(w == 0) { R1("", qvals(cml::identity(q))); R1("", [&] { Q t(q); t.identity(); return qvals(t); }()); R1("", qvals(Q(Q(q).identity()))); }
  else { R1("", [&] { Q t(q); t.zero(); return qvals(t); }()); R1("", qvals(Q(Q(q).zero()))); }
}); }
// exp of (ln(p/r), theta * u): theta = angle of (ca, sa) plus k turns, u = b/du
OP("qexp") { if constexpr(!INT1 && SAME) each(c, [&](auto i, const std::string& n0) {
  using Q = QT<TE1, decltype(i)::value>;
  std::string n = n0 + ":" + en<TE1>();
  double th = std::atan2(double(c.s("sa")), double(c.s("ca"))) + 2 * M_PI * double(c.s("k"));
  const int k2 = int(c.s("k2", 0)), fm = int(c.s("fm", 0));     // result scaled by 2^k2; small imaginary parts shown times 2^fm
  if(fm && !std::is_same<TE1, double>::value) return;
  double w = std::log(double(c.s("p")) / double(c.s("r"))) + k2 * M_LN2;
  const L& u = c.v("b"); double du = double(c.s("du"));
  auto qvals = [&](const auto& q) { auto f = [&](auto x, int s) { return enc(decltype(x)(std::ldexp(x, s - k2))); }; return Nums{f(q.w(), 0), f(q.x(), fm), f(q.y(), fm), f(q.z(), fm)}; };
  cml::vector<TE1, cml::fixed<3>> v(TE1(th * u[0] / du), TE1(th * u[1] / du), TE1(th * u[2] / du));
  const Q q(TE1(w), v);
  R1("", qvals(cml::exp(q))); R1("/x", qvals(cml::exp(-(-q)))); R1("/ip", [&] { Q t(q); t.exp(); return qvals(t); }()); R1("/ipt", qvals(Q(Q(q).exp())));
}); }
// log of (p/r)(ca + sa u)/da: logged as exp(w), cos|v|, sin|v|, then v/|v| (or v when |v| is 0), and |v|
OP("qlog") { if constexpr(!INT1 && SAME) each(c, [&](auto i, const std::string& n0) {
  using Q = QT<TE1, decltype(i)::value>;
  std::string n = n0 + ":" + en<TE1>();
  const int k2 = int(c.s("k2", 0)), fm = int(c.s("fm", 0));
  if(fm && !std::is_same<TE1, double>::value) return;
  double s = std::ldexp(double(c.s("p")) / double(c.s("r")) / double(c.s("da")), k2), sa = double(c.s("sa"));
  const L& u = c.v("b"); double du = double(c.s("du"));
  cml::vector<TE1, cml::fixed<3>> v(TE1(s * sa * u[0] / du), TE1(s * sa * u[1] / du), TE1(s * sa * u[2] / du));
  const Q q(TE1(s * c.s("ca")), v);
  auto x = [&](const Q& l) {
    if(fm) return Nums{enc(TE1(std::ldexp(l.x(), fm))), enc(TE1(std::ldexp(l.y(), fm))), enc(TE1(std::ldexp(l.z(), fm)))};
    double t = std::sqrt(double(l.x()) * double(l.x()) + double(l.y()) * double(l.y()) + double(l.z()) * double(l.z())), m = t > 0 ? t : 1;
    return Nums{enc(TE1(std::exp(double(l.w()) - k2 * M_LN2))), enc(TE1(std::cos(t))), enc(TE1(std::sin(t))), enc(TE1(double(l.x()) / m)), enc(TE1(double(l.y()) / m)), enc(TE1(double(l.z()) / m)), enc(TE1(t))};
  };
  R1("", x(cml::log(q))); R1("/x", x(cml::log(-(-q)))); R1("/ip", [&] { Q t(q); t.log(); return x(t); }()); R1("/ipt", x(Q(Q(q).log())));
  if(!fm) run(o, "rt" , n + "/rt", [&] { Q z(cml::exp(cml::log(q))); z *= TE1(std::ldexp(1., -k2)); return qvals(z); });
}); }
