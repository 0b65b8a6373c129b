// basis functions and the basis-function based evaluation
#include "ref.hpp"
using namespace ref;
// the identities (not the sign) hold for any parameter
template <size_t D, size_t... I> void anyParameter(const Idx<D> &deg, std::index_sequence<I...>) {
  const auto s = symSpline<D, Pt<2>>("c", deg);
  array<double, D> u;
  for (size_t d = 0; d < D; d++) u[d] = vp::real("x" + vp::str(d));
  const auto e = basis(deg, u);
  const auto b = s.BasisFunctions(asPoint(u)), c = s.BasisFunctions(u[I]...);
  const auto f = s.ForwardEvaluate(asPoint(u)), g = s.ForwardEvaluate(u[I]...);
  const auto q = s.BasisFunctionContributions(asPoint(u)), r = s.BasisFunctionContributions(u[I]...);
  for (size_t i = 0; i < e.size(); i++) { vp::check_eq(b.at(i), e[i], "any parameter: basis function " + vp::str(i)); vp::check_eq(c.at(i), e[i], "any parameter (coordinates): basis function " + vp::str(i)); }
  for (size_t k = 0; k < 2; k++) { vp::check_eq(f[k], dot(e, coord(s, k)), "any parameter: ForwardEvaluate coordinate " + vp::str(k)); vp::check_eq(g[k], dot(e, coord(s, k)), "any parameter (coordinates): ForwardEvaluate coordinate " + vp::str(k)); }
  for (size_t d = 0; d < D; d++) for (size_t i = 0; i <= deg[d]; i++) { vp::check_eq(q[d].at(i), bern(deg[d], i, u[d]), "any parameter: factor " + vp::str(i) + " of direction " + vp::str(d)); vp::check_eq(r[d].at(i), bern(deg[d], i, u[d]), "any parameter (coordinates): factor " + vp::str(i) + " of direction " + vp::str(d)); }
}
template <size_t D, class P> void basisCase(const Idx<D> &deg, bool unity = true) {
  auto s = symSpline<D, P>("c", deg);
  auto u = symU<D>();
  const auto &cs = s;
  auto up = asPoint(u);
  auto c = cs.BasisFunctionContributions(up);
  for (size_t d = 0; d < D; d++) {
    vp::check(c[d].size() == deg[d] + 1, "one factor per degree index in direction " + vp::str(d));
    for (size_t i = 0; i <= deg[d] && i < c[d].size(); i++) vp::check_eq(c[d][i], bern(deg[d], i, u[d]), "factor " + vp::str(i) + " of direction " + vp::str(d) + " is the Bernstein polynomial");
  }
  auto b = cs.BasisFunctions(up);
  auto e = basis(deg, u);
  vp::check(b.size() == e.size(), "one basis function per control point");
  double sum = 0;
  for (size_t i = 0; i < e.size() && i < b.size(); i++) {
    vp::check_eq(b[i], e[i], "basis function " + vp::str(i) + " is the tensor product belonging to control point " + vp::str(i));
    vp::check_le(0, b[i], "basis function " + vp::str(i) + " is non-negative");
    sum = sum + b[i];
  }
  if (unity) vp::check_eq(sum, 1, "basis functions sum to one");
  auto f = cs.ForwardEvaluate(up);
  auto g = cs.Evaluate(up);
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    vp::check_eq(comp(f, k), dot(e, coord(s, k)), "ForwardEvaluate == sum_i c_i B_i(u), coordinate " + vp::str(k));
    vp::check_eq(comp(f, k), comp(g, k), "ForwardEvaluate == Evaluate, coordinate " + vp::str(k));
  }
}
template <size_t D, size_t... I> void variadicCase(const Idx<D> &deg, std::index_sequence<I...>) {
  auto s = symSpline<D, Pt<2>>("c", deg);
  auto u = symU<D>();
  auto e = basis(deg, u);
  auto b = s.BasisFunctions(u[I]...);
  vp::check(b.size() == e.size(), "variadic: one basis function per control point");
  for (size_t i = 0; i < e.size() && i < b.size(); i++) vp::check_eq(b[i], e[i], "variadic: basis function " + vp::str(i));
  auto c = s.BasisFunctionContributions(u[I]...);
  for (size_t d = 0; d < D; d++) for (size_t i = 0; i <= deg[d]; i++) vp::check_eq(c[d].at(i), bern(deg[d], i, u[d]), "variadic: factor " + vp::str(i) + " of direction " + vp::str(d));
  auto f = s.ForwardEvaluate(u[I]...);
  for (size_t k = 0; k < 2; k++) vp::check_eq(f[k], dot(e, coord(s, k)), "variadic: ForwardEvaluate coordinate " + vp::str(k));
}
template <class S, size_t D, size_t... I> void variadicIs(const S &x, const array<double, D> &at, const vector<double> &e, const std::string &n, std::index_sequence<I...>) {
  const auto b = x.BasisFunctions(at[I]...);
  for (size_t i = 0; i < e.size(); i++) vp::check_eq(b.at(i), e[i], n + ": basis function (coordinates) " + vp::str(i));
  const auto f = x.ForwardEvaluate(at[I]...);
  for (size_t k = 0; k < 2; k++) vp::check_eq(f[k], dot(e, coord(x, k)), n + ": ForwardEvaluate (coordinates) coordinate " + vp::str(k));
}
// results do not depend on what was evaluated before
template <size_t D> void sequence(const Idx<D> &da, const Idx<D> &db) {
  auto s = symSpline<D, Pt<2>>("c", da), t = symSpline<D, Pt<2>>("d", db);
  const auto u = symU<D>("u"), v = symU<D>("v");
  auto is = [&](const auto &x, const array<double, D> &at, const std::string &n) {
    const auto e = basis(x.GetDegrees(), at);
    const auto b = x.BasisFunctions(asPoint(at));
    vp::check(b.size() == e.size(), n + ": one basis function per control point");
    for (size_t i = 0; i < e.size() && i < b.size(); i++) vp::check_eq(b[i], e[i], n + ": basis function " + vp::str(i));
    const auto r = x.ForwardEvaluate(asPoint(at));
    for (size_t k = 0; k < 2; k++) vp::check_eq(r[k], dot(e, coord(x, k)), n + ": ForwardEvaluate coordinate " + vp::str(k));
    variadicIs(x, at, e, n, std::make_index_sequence<D>());
  };
  is(s, u, "first evaluation");
  is(s, v, "same spline, other parameter");
  is(t, v, "other spline, same parameter");
  is(t, u, "other spline, first parameter");
  is(s, u, "first evaluation again");
  for (auto &p : s.control_points) p = symPoint<Pt<2>>("e" + vp::str(size_t(&p - s.control_points.data())));
  is(s, u, "after a change of the control points");
  s.OrderElevateAlongParametricDimension(0);
  is(s, u, "after a change of the degree");
}
void vp_register() {
  for (size_t n = 0; n <= 8; n++) vp::add("any parameter 1D " + vp::str(n), 0, [n] { anyParameter<1>({n}, std::make_index_sequence<1>()); });
  for (auto d : degCombos<2>(0, 2)) vp::add("any parameter 2D " + vp::str(d), 0, [d] { anyParameter<2>(d, std::make_index_sequence<2>()); });
  for (auto d : degCombos<3>(0, 1)) vp::add("any parameter 3D " + vp::str(d), 0, [d] { anyParameter<3>(d, std::make_index_sequence<3>()); });
  for (auto d : vector<Idx<2>>{{12, 5}, {5, 12}, {16, 15}, {29, 3}, {3, 29}, {7, 7}}) large("basis 2D degrees " + vp::str(d), [d] { basisCase<2, Pt<2>>(d); });
  for (auto d : vector<Idx<3>>{{4, 3, 5}, {3, 6, 2}, {7, 1, 4}, {1, 2, 16}}) large("basis 3D degrees " + vp::str(d), [d] { basisCase<3, Pt<3>>(d); });
  for (auto d : vector<Idx<4>>{{2, 2, 2, 2}, {3, 1, 2, 4}, {1, 4, 3, 2}, {0, 2, 3, 1}}) large("basis 4D degrees " + vp::str(d), [d] { basisCase<4, Pt<4>>(d); });
  for (auto d : vector<Idx<5>>{{1, 1, 1, 1, 1}, {2, 1, 3, 1, 2}}) large("basis 5D degrees " + vp::str(d), [d] { basisCase<5, double>(d); });
  large("variadic 4D", [] { variadicCase<4>({2, 1, 3, 2}, std::make_index_sequence<4>()); });
  for (size_t n = 0; n <= 4; n++) for (size_t m = 0; m <= 4; m++) vp::add("sequence 1D " + vp::str(n) + ", " + vp::str(m), 0, [=] { sequence<1>({n}, {m}); });
  for (auto d : degCombos<2>(0, 2)) vp::add("sequence 2D " + vp::str(d), 0, [=] { sequence<2>(d, {d[1], 2}); });
  vp::add("sequence 3D", 0, [] { sequence<3>({1, 0, 2}, {2, 1, 0}); });
  for (size_t n = 0; n <= 29; n++) vp::add("basis 1D degree " + vp::str(n), 0, [n] { basisCase<1, double>({n}); });
  for (auto d : degCombos<2>(0, 5)) vp::add("basis 2D degrees " + vp::str(d), d[0] <= 3 && d[1] <= 3 ? 0 : 1, [d] { basisCase<2, Pt<2>>(d); });
  for (auto d : degCombos<3>(0, 2)) vp::add("basis 3D degrees " + vp::str(d), 0, [d] { basisCase<3, Pt<3>>(d, d[0] + d[1] + d[2] < 5); });
  for (auto d : vector<Idx<2>>{{10, 1}, {2, 8}, {29, 1}}) vp::add("basis 2D degrees " + vp::str(d), 0, [d] { basisCase<2, double>(d, d[0] < 20); });
  vp::add("basis 4D degrees 1x2x1x2", 0, [] { basisCase<4, double>({1, 2, 1, 2}); });
  vp::add("variadic 1D", 0, [] { variadicCase<1>({4}, std::make_index_sequence<1>()); });
  vp::add("variadic 2D", 0, [] { variadicCase<2>({3, 2}, std::make_index_sequence<2>()); });
  vp::add("variadic 3D", 0, [] { variadicCase<3>({1, 2, 3}, std::make_index_sequence<3>()); });
}
