// splines over differentiable numbers: values and derivatives with respect to control points, weights and parameters
#include "ad.hpp"
#include "ref.hpp"
using namespace ref;
using ad::AD; using ad::Num; using ad::num;
template <size_t S, size_t N> using APt = bezman::Point<S, AD<N>>;
struct Pn { vector<Num> c; };
template <size_t S, size_t N> Pn symPn(const std::string &n) { Pn p; for (size_t k = 0; k < S; k++) p.c.push_back(num(n + "_" + vp::str(k), N)); return p; }
template <size_t S, size_t N> APt<S, N> toPt(const Pn &p) { APt<S, N> r; for (size_t k = 0; k < S; k++) r[k] = ad::make<N>(p.c[k]); return r; }
template <size_t D, size_t N> array<Num, D> symPar() { array<Num, D> u; for (size_t d = 0; d < D; d++) { u[d].v = vp::real_open("u" + vp::str(d), 0, 1); for (size_t j = 0; j < N; j++) u[d].d.push_back(vp::real("u" + vp::str(d) + "_d" + vp::str(j))); } return u; }
template <size_t D> array<double, D> values(const array<Num, D> &u) { array<double, D> r; for (size_t d = 0; d < D; d++) r[d] = u[d].v; return r; }
template <size_t D, size_t N> APt<D, N> toPar(const array<Num, D> &u) { APt<D, N> r; for (size_t d = 0; d < D; d++) r[d] = ad::make<N>(u[d]); return r; }
// value and derivative j of sum_i c_i B_i(u)
template <size_t D> Num combine(const Idx<D> &deg, const vector<Num> &c, const array<Num, D> &u, size_t n) {
  const auto x = values(u);
  vector<double> v;
  for (auto &p : c) v.push_back(p.v);
  Num r{eval(deg, v, x), {}};
  for (size_t j = 0; j < n; j++) {
    vector<double> dc;
    for (auto &p : c) dc.push_back(p.d[j]);
    double s = eval(deg, dc, x);
    for (size_t d = 0; d < D; d++) { Idx<D> k{}; k[d] = 1; s = s + u[d].d[j] * evalD(deg, v, x, k); }
    r.d.push_back(s);
  }
  return r;
}
template <size_t D, size_t S, size_t N> void poly(const Idx<D> &deg) {
  vector<Pn> c;
  vector<APt<S, N>> p;
  for (size_t i = 0; i < count(deg); i++) { c.push_back(symPn<S, N>("c" + vp::str(i))); p.push_back(toPt<S, N>(c.back())); }
  const auto u = symPar<D, N>();
  const bezman::BezierSpline<D, APt<S, N>, AD<N>> s(deg, p);
  const auto r = s.Evaluate(toPar<D, N>(u));
  for (size_t k = 0; k < S; k++) {
    vector<Num> cc;
    for (auto &q : c) cc.push_back(q.c[k]);
    const Num e = combine<D>(deg, cc, u, N);
    ad::expect<N>(r[k], e.v, e.d, "Evaluate, coordinate " + vp::str(k));
  }
  const auto b = s.BasisFunctions(toPar<D, N>(u));
  vp::check(b.size() == count(deg), "number of basis functions");
  for (size_t i = 0; i < b.size(); i++) {
    const double v = basis(deg, values(u))[i];
    vector<double> d;
    for (size_t j = 0; j < N; j++) { double t = 0; for (size_t q = 0; q < D; q++) { Idx<D> k{}; k[q] = 1; t = t + u[q].d[j] * basisD(deg, values(u), k)[i]; } d.push_back(t); }
    ad::expect<N>(b[i], v, d, "basis function " + vp::str(i));
  }
}
#ifndef VP_CORE  // instantiations of little use on their own, see check.py
template <size_t D, size_t S, size_t N> void rational(const Idx<D> &deg) {
  vector<Pn> c;
  vector<Num> w;
  vector<APt<S, N>> p;
  vector<AD<N>> aw;
  for (size_t i = 0; i < count(deg); i++) {
    c.push_back(symPn<S, N>("c" + vp::str(i)));
    p.push_back(toPt<S, N>(c.back()));
    w.push_back(num("w" + vp::str(i), N, 0, vp::kInf));
    aw.push_back(ad::make<N>(w.back()));
  }
  const auto u = symPar<D, N>();
  const bezman::RationalBezierSpline<D, APt<S, N>, AD<N>> s(deg, p, aw);
  const auto r = s.Evaluate(toPar<D, N>(u));
  const Num W = combine<D>(deg, w, u, N);
  for (size_t k = 0; k < S; k++) {
    vector<Num> cc;
    for (size_t i = 0; i < c.size(); i++) cc.push_back({c[i].c[k].v * w[i].v, ad::each(c[i].c[k], w[i], [&](double dc, double dw) { return dc * w[i].v + c[i].c[k].v * dw; })});
    const Num e = combine<D>(deg, cc, u, N);
    ad::expect<N>(r[k], e.v / W.v, ad::each(e, W, [&](double de, double dW) { return (de * W.v - e.v * dW) / (W.v * W.v); }), "Evaluate, coordinate " + vp::str(k));
  }
}
// a spline that has gone through arithmetic keeps exact derivatives
template <size_t N> void arith(size_t n, size_t m) {
  vector<Num> a, b;
  vector<AD<N>> pa, pb;
  for (size_t i = 0; i <= n; i++) { a.push_back(num("a" + vp::str(i), N)); pa.push_back(ad::make<N>(a.back())); }
  for (size_t i = 0; i <= m; i++) { b.push_back(num("b" + vp::str(i), N)); pb.push_back(ad::make<N>(b.back())); }
  const Num f = num("f", N), q = num("q", N);
  using S1 = bezman::BezierSpline<1, AD<N>, AD<N>>;
  const S1 s(Idx<1>{n}, pa), t(Idx<1>{m}, pb);
  const auto u = symPar<1, N>();
  auto prod = [&](const Num &x, const Num &y) { return Num{x.v * y.v, ad::each(x, y, [&](double p, double r) { return p * y.v + x.v * r; })}; };
  const Num ea = combine<1>({n}, a, u, N), eb = combine<1>({m}, b, u, N);
  auto is = [&](const AD<N> &g, const Num &e, const char *l) { ad::expect<N>(g, e.v, e.d, l); };
  is((s * t).Evaluate(ad::make<N>(u[0])), prod(ea, eb), "product of splines");
  is((s * ad::make<N>(f)).Evaluate(ad::make<N>(u[0])), prod(ea, f), "scaled spline");
  auto sh = s;
  sh += ad::make<N>(q);
  is(sh.Evaluate(ad::make<N>(u[0])), Num{ea.v + q.v, ad::each(ea, q, [](double x, double y) { return x + y; })}, "shifted spline");
  is((-s).Evaluate(ad::make<N>(u[0])), Num{-ea.v, ad::each(ea, [](double x) { return -x; })}, "negated spline");
}
// operations on splines over differentiable numbers: the result at u carries the derivatives of what it represents
inline Num mulN(const Num &x, const Num &y) { return Num{x.v * y.v, ad::each(x, y, [&](double p, double r) { return p * y.v + x.v * r; })}; }
inline Num addN(const Num &x, const Num &y, double f = 1) { return Num{x.v + f * y.v, ad::each(x, y, [&](double p, double r) { return p + f * r; })}; }
inline Num scaleN(const Num &x, double f) { return Num{x.v * f, ad::each(x, [&](double p) { return p * f; })}; }
// k-th derivative of sum_i c_i B_i at u
template <size_t D> Num combineD(const Idx<D> &deg, const vector<Num> &c, const array<Num, D> &u, const Idx<D> &k, size_t n) {
  const auto x = values(u);
  vector<double> v;
  for (auto &p : c) v.push_back(p.v);
  Num r{evalD(deg, v, x, k), {}};
  for (size_t j = 0; j < n; j++) {
    vector<double> dc;
    for (auto &p : c) dc.push_back(p.d[j]);
    double s = evalD(deg, dc, x, k);
    for (size_t d = 0; d < D; d++) { Idx<D> q = k; q[d]++; s = s + u[d].d[j] * evalD(deg, v, x, q); }
    r.d.push_back(s);
  }
  return r;
}
template <size_t D, size_t N> struct Net {
  vector<Num> c;
  bezman::BezierSpline<D, AD<N>, AD<N>> s;
  Net(const Idx<D> &deg, const std::string &n, double lo = -vp::kInf, double hi = vp::kInf) {
    vector<AD<N>> p;
    for (size_t i = 0; i < count(deg); i++) { c.push_back(num(n + vp::str(i), N, lo, hi)); p.push_back(ad::make<N>(c.back())); }
    s = bezman::BezierSpline<D, AD<N>, AD<N>>(deg, p);
  }
};
template <size_t N> void is(const AD<N> &g, const Num &e, const std::string &l) { ad::expect<N>(g, e.v, e.d, l); }
template <size_t D, size_t N> void operations(const Idx<D> &deg, const Idx<D> &deg2) {
  const Net<D, N> a(deg, "a"), b(deg2, "b");
  const auto u = symPar<D, N>();
  const auto U = toPar<D, N>(u);
  const Num ea = combine<D>(deg, a.c, u, N), eb = combine<D>(deg2, b.c, u, N);
  is<N>(a.s.ForwardEvaluate(U), ea, "ForwardEvaluate");
  for (size_t d = 0; d < D; d++) {
    for (size_t k = 1; k <= 2; k++) {
      Idx<D> q{};
      q[d] = k;
      const Num ed = combineD<D>(deg, a.c, u, q, N);
      is<N>(a.s.DerivativeWRTParametricDimension(q).Evaluate(U), ed, "derivative spline " + vp::str(q));
    }
  }
}
template <size_t D, size_t N> void compositions(const Idx<D> &deg, const Idx<1> &inner) {
  const Net<D, N> o(deg, "o");
  const auto u = symPar<1, N>();
  vector<vector<Num>> c(D);
  vector<APt<D, N>> p;
  for (size_t i = 0; i < count(inner); i++) {
    APt<D, N> q;
    for (size_t k = 0; k < D; k++) { c[k].push_back(num("i" + vp::str(i) + "_" + vp::str(k), N, 0, 1)); q[k] = ad::make<N>(c[k].back()); }
    p.push_back(q);
  }
  array<Num, D> x;
  for (size_t k = 0; k < D; k++) x[k] = combine<1>(inner, c[k], u, N);
  {
    const bezman::BezierSpline<1, APt<D, N>, AD<N>> in(inner, p);
    is<N>(o.s.Compose(in).Evaluate(toPar<1, N>(u)), combine<D>(deg, o.c, x, N), "composition");
    for (size_t k = 0; k < D; k++) is<N>(in.ExtractDimension(k).Evaluate(toPar<1, N>(u)), x[k], "coordinate " + vp::str(k));
  }
}
#endif
void vp_register() {
  for (size_t n = 0; n <= 5; n++) vp::add("curve " + vp::str(n), 0, [n] { poly<1, 2, 2>({n}); });
  vp::add("curve 8, one derivative", 0, [] { poly<1, 1, 1>({8}); });
  vp::add("curve 3, four derivatives", 0, [] { poly<1, 3, 4>({3}); });
  for (auto d : degCombos<2>(0, 2)) vp::add("surface " + vp::str(d), 0, [d] { poly<2, 2, 2>(d); });
  vp::add("surface 3x1", 0, [] { poly<2, 3, 2>({3, 1}); });
  vp::add("volume 1x2x1", 0, [] { poly<3, 1, 3>({1, 2, 1}); });
#ifndef VP_CORE
  for (size_t n = 0; n <= 4; n++) vp::add("rational curve " + vp::str(n), 0, [n] { rational<1, 2, 2>({n}); });
  for (auto d : degCombos<2>(0, 1)) vp::add("rational surface " + vp::str(d), 0, [d] { rational<2, 2, 2>(d); });
  vp::add("rational surface 2x1", 0, [] { rational<2, 1, 1>({2, 1}); });
  vp::add("rational volume 1x1x1", 0, [] { rational<3, 1, 1>({1, 1, 1}); });
  for (size_t n = 0; n <= 3; n++) for (size_t m = 0; m <= 2; m++) vp::add("arithmetic " + vp::str(n) + "," + vp::str(m), 0, [=] { arith<2>(n, m); });
  for (size_t n = 0; n <= 3; n++) for (size_t m = 0; m <= 2; m++) vp::add("operations on curves " + vp::str(n) + "," + vp::str(m), 0, [=] { operations<1, 2>({n}, {m}); });
  vp::add("operations on curves 6,4", 0, [] { operations<1, 1>({6}, {4}); });
  for (auto d : degCombos<2>(0, 2)) vp::add("operations on surfaces " + vp::str(d), 0, [=] { operations<2, 1>(d, {1, 0}); });
  vp::add("operations on volumes 1x2x1", 0, [] { operations<3, 1>({1, 2, 1}, {1, 1, 0}); });
  for (size_t n = 0; n <= 3; n++) for (size_t m = 0; m <= 2; m++) vp::add("composition of curves " + vp::str(n) + "," + vp::str(m), 0, [=] { compositions<1, 2>({n}, {m}); });
  for (auto d : degCombos<2>(0, 1)) for (size_t m = 0; m <= 2; m++) vp::add("composition of surface " + vp::str(d) + " with a curve " + vp::str(m), 0, [=] { compositions<2, 1>(d, {m}); });
#endif
}
