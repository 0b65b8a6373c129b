// pointwise derivatives of basis functions and splines
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> void derivCase(const Idx<D> &deg, const Idx<D> &k, bool any = false) {
  auto s = symSpline<D, P>("c", deg);
  array<double, D> u;
  for (size_t d = 0; d < D; d++) u[d] = any ? vp::real("u" + vp::str(d)) : fixU() ? fixedU<D>()[d] : vp::unit("u" + vp::str(d));
  const auto &cs = s;
  auto up = asPoint(u);
  auto c = cs.BasisFunctionsDerivativeContributions(up, k);
  for (size_t d = 0; d < D; d++) {
    vp::check(c[d].size() == deg[d] + 1, "one derivative factor per degree index in direction " + vp::str(d));
    for (size_t i = 0; i <= deg[d] && i < c[d].size(); i++) vp::check_eq(c[d][i], bernD(deg[d], i, u[d], k[d]), "derivative factor " + vp::str(i) + " of direction " + vp::str(d));
  }
  auto b = cs.BasisFunctionsDerivatives(up, k);
  auto e = basisD(deg, u, k);
  vp::check(b.size() == e.size(), "one basis function derivative per control point");
  for (size_t i = 0; i < e.size() && i < b.size(); i++) vp::check_eq(b[i], e[i], "derivative of basis function " + vp::str(i));
  auto f = cs.EvaluateDerivative(up, k);
  for (size_t c = 0; c < dimOf<P>::value; c++) {
    vp::check_eq(comp(f, c), dot(e, coord(s, c)), "EvaluateDerivative == sum_i c_i D^k B_i(u), coordinate " + vp::str(c));
    bool zero = false;
    for (size_t d = 0; d < D; d++) zero = zero || k[d] > deg[d];
    if (zero) vp::check_eq(comp(f, c), 0, "derivative of order above the degree vanishes, coordinate " + vp::str(c));
  }
}
// results do not depend on what was evaluated before
template <size_t D> void sequence(const Idx<D> &da, const Idx<D> &db) {
  auto s = symSpline<D, Pt<2>>("c", da), t = symSpline<D, Pt<2>>("d", db);
  const auto u = symU<D>("u"), v = symU<D>("v");
  auto is = [&](const auto &x, const array<double, D> &at, const Idx<D> &k, const std::string &n) {
    const auto e = basisD(x.GetDegrees(), at, k);
    const auto b = x.BasisFunctionsDerivatives(asPoint(at), k);
    vp::check(b.size() == e.size(), n + ": one basis function per control point");
    for (size_t i = 0; i < e.size() && i < b.size(); i++) vp::check_eq(b[i], e[i], n + ": basis function " + vp::str(i));
    const auto r = x.EvaluateDerivative(asPoint(at), k);
    for (size_t c = 0; c < 2; c++) vp::check_eq(r[c], dot(e, coord(x, c)), n + ": derivative, coordinate " + vp::str(c));
  };
  Idx<D> k{}, o{};
  k[0] = 1; o[D - 1] = 2;
  is(s, u, k, "first evaluation");
  is(s, u, o, "other order");
  is(s, v, k, "other parameter");
  is(t, v, k, "other spline, same parameter and order");
  is(t, u, o, "other spline, first parameter");
  is(t, u, Idx<D>{}, "order zero");
  is(s, u, k, "first evaluation again");
  for (auto &p : s.control_points) p = symPoint<Pt<2>>("e" + vp::str(size_t(&p - s.control_points.data())));
  is(s, u, k, "after a change of the control points");
}
void vp_register() {
  for (size_t n = 0; n <= 29; n++) large("derivative 1D degree " + vp::str(n) + " every order", [n] { for (size_t k = 0; k <= n + 2; k++) derivCase<1, double>({n}, {k}); });
  for (size_t k = 0; k <= 30; k++) large("derivative 1D degree 29 order " + vp::str(k), [k] { derivCase<1, double>({29}, {k}); });
  for (size_t n = 13; n <= 28; n++) for (size_t k : {3, 7, 10, 12, 15, 18, 21}) large("derivative 1D degree " + vp::str(n) + " order " + vp::str(k), [n, k] { derivCase<1, double>({n}, {k}); });
  for (auto p : vector<Idx<4>>{{9, 5, 8, 2}, {12, 4, 11, 1}, {5, 5, 5, 5}, {7, 6, 2, 5}, {15, 2, 14, 2}, {2, 15, 1, 13}}) large("derivative 2D " + vp::str(p), [p] { derivCase<2, Pt<3>>({p[0], p[1]}, {p[2], p[3]}); });
  for (auto k : degCombos<3>(0, 3)) large("derivative 3D 4x3x2 orders " + vp::str(k), [k] { derivCase<3, Pt<1>>({4, 3, 2}, k); });
  for (auto k : degCombos<4>(0, 1)) large("derivative 4D 2x1x3x2 orders " + vp::str(k), [k] { derivCase<4, double>({2, 1, 3, 2}, k); });
  for (auto k : vector<Idx<4>>{{2, 1, 3, 2}, {0, 2, 1, 0}, {3, 0, 0, 2}, {1, 0, 2, 2}}) large("derivative 4D 2x1x3x2 orders " + vp::str(k), [k] { derivCase<4, double>({2, 1, 3, 2}, k); });
  for (auto k : vector<Idx<5>>{{1, 0, 1, 0, 2}, {0, 1, 0, 1, 0}}) large("derivative 5D orders " + vp::str(k), [k] { derivCase<5, double>({1, 2, 1, 1, 2}, k); });
  for (size_t n = 0; n <= 4; n++) for (size_t m = 0; m <= 4; m++) vp::add("sequence 1D " + vp::str(n) + ", " + vp::str(m), 0, [=] { sequence<1>({n}, {m}); });
  for (auto d : degCombos<2>(0, 2)) vp::add("sequence 2D " + vp::str(d), 0, [=] { sequence<2>(d, {d[1], 2}); });
  vp::add("sequence 3D", 0, [] { sequence<3>({1, 0, 2}, {2, 1, 0}); });
  for (size_t n = 0; n <= 12; n++) for (size_t k = 0; k <= n + 2; k++) vp::add("derivative 1D degree " + vp::str(n) + " order " + vp::str(k), n <= 8 ? 0 : 1, [n, k] { derivCase<1, double>({n}, {k}); });
  for (auto p : vector<Idx<2>>{{14, 1}, {14, 12}, {14, 14}, {20, 2}, {20, 20}, {29, 1}, {29, 2}, {29, 29}, {29, 28}, {29, 35}, {20, 13}})
    vp::add("derivative 1D degree " + vp::str(p[0]) + " order " + vp::str(p[1]), 0, [p] { derivCase<1, double>({p[0]}, {p[1]}); });
  for (size_t k = 3; k <= 27; k++) vp::add("derivative 1D degree 29 order " + vp::str(k), 1, [k] { derivCase<1, double>({29}, {k}); });
  for (auto d : degCombos<2>(0, 4)) for (auto k : degCombos<2>(0, 4))
    if (k[0] <= d[0] + 1 && k[1] <= d[1] + 1) vp::add("derivative 2D degrees " + vp::str(d) + " orders " + vp::str(k), d[0] <= 3 && d[1] <= 3 && k[0] + k[1] <= 3 ? 0 : 1, [d, k] { derivCase<2, Pt<2>>(d, k); });
  for (auto d : vector<Idx<3>>{{2, 1, 3}, {1, 3, 2}, {0, 2, 1}}) for (auto k : degCombos<3>(0, 2))
    vp::add("derivative 3D degrees " + vp::str(d) + " orders " + vp::str(k), k[0] + k[1] + k[2] <= 3 ? 0 : 1, [d, k] { derivCase<3, Pt<3>>(d, k); });
  vp::add("derivative 1D degree 5 order 2, any real parameter", 0, [] { derivCase<1, Pt<2>>({5}, {2}, true); });
  vp::add("derivative 2D degrees 3x2 orders 2x1, any real parameter", 0, [] { derivCase<2, Pt<2>>({3, 2}, {2, 1}, true); });
}
