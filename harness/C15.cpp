// evaluation, basis functions and accessors of a rational spline
#include "ref.hpp"
using namespace ref;
template <size_t D, class P, size_t... I> P evalV(const bezman::RationalBezierSpline<D, P, double> &s, const array<double, D> &u, std::index_sequence<I...>) { return s.Evaluate(u[I]...); }
template <size_t D, class P, size_t... I> P fwdV(const bezman::RationalBezierSpline<D, P, double> &s, const array<double, D> &u, std::index_sequence<I...>) { return s.ForwardEvaluate(u[I]...); }
template <size_t D, class P, size_t... I> vector<double> basV(const bezman::RationalBezierSpline<D, P, double> &s, const array<double, D> &u, std::index_sequence<I...>) { return s.BasisFunctions(u[I]...); }
template <size_t D, class P, size_t... I> vector<double> ubasV(const bezman::RationalBezierSpline<D, P, double> &s, const array<double, D> &u, std::index_sequence<I...>) { return s.UnweightedBasisFunctions(u[I]...); }

template <size_t D, class P, size_t... I> auto conV(const bezman::RationalBezierSpline<D, P, double> &s, const array<double, D> &u, std::index_sequence<I...>) { return s.BasisFunctionContributions(u[I]...); }
// any parameter at which the weight function does not vanish
template <size_t D> void anyParameter(const Idx<D> &deg) {
  const auto s = symRat<D, Pt<2>>("c", deg);
  array<double, D> u;
  for (size_t d = 0; d < D; d++) u[d] = vp::real("x" + vp::str(d));
  auto seq = std::make_index_sequence<D>();
  const auto q = frac(s, u);
  vp::assume_ne(q.den, 0);
  const auto a = s.Evaluate(asPoint(u)), b = evalV(s, u, seq), c = s.ForwardEvaluate(asPoint(u)), d = fwdV(s, u, seq);
  for (size_t k = 0; k < 2; k++) for (const auto &r : {a, b, c, d}) vp::check_eq(r[k] * q.den, q.num[k], "any parameter: value, coordinate " + vp::str(k));
  const auto B = basis(deg, u);
  const auto r = s.BasisFunctions(asPoint(u)), r2 = basV(s, u, seq), m = s.UnweightedBasisFunctions(asPoint(u)), m2 = ubasV(s, u, seq);
  for (size_t i = 0; i < B.size(); i++) {
    for (double x : {r.at(i), r2.at(i)}) vp::check_eq(x * q.den, B[i] * s.GetWeights()[i], "any parameter: basis function " + vp::str(i));
    for (double x : {m.at(i), m2.at(i)}) vp::check_eq(x * q.den, B[i], "any parameter: unweighted basis function " + vp::str(i));
  }
}
// symbolic weighted points and weights
template <size_t D, class P> auto make(const Idx<D> &deg) { return symRat<D, P>("c", deg); }

template <size_t D, class P> void evalCase(const Idx<D> &deg, bool fwd) {
  const auto s = make<D, P>(deg);
  auto u = symUopen<D>();
  auto seq = std::make_index_sequence<D>();
  const auto a = fwd ? s.ForwardEvaluate(asPoint(u)) : s.Evaluate(asPoint(u));
  const auto b = fwd ? fwdV(s, u, seq) : evalV(s, u, seq);
  auto q = frac(s, u);
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    vp::check_eq(comp(a, k) * q.den, q.num[k], std::string(fwd ? "forward e" : "e") + "valuation (point) is numerator over weight function, coordinate " + vp::str(k));
    vp::check_eq(comp(b, k) * q.den, q.num[k], std::string(fwd ? "forward e" : "e") + "valuation (coordinates) is numerator over weight function, coordinate " + vp::str(k));
  }
}
template <size_t D, class P> void basisCase(const Idx<D> &deg) {
  const auto s = make<D, P>(deg);
  auto u = symUopen<D>();
  auto seq = std::make_index_sequence<D>();
  const auto B = basis(deg, u);
  const double W = dot(B, s.GetWeights());
  const auto r = s.BasisFunctions(asPoint(u)), r2 = basV(s, u, seq);
  const auto n = s.UnweightedBasisFunctions(asPoint(u)), n2 = ubasV(s, u, seq);
  const auto c = s.BasisFunctionContributions(asPoint(u)), c2 = conV(s, u, seq);
  vp::check(r.size() == B.size() && r2.size() == B.size() && n.size() == B.size() && n2.size() == B.size(), "one basis function per control point");
  double sum = 0;
  for (size_t i = 0; i < B.size(); i++) {
    vp::check_eq(r[i] * W, B[i] * s.GetWeights()[i], "basis function " + vp::str(i));
    vp::check_eq(r2[i] * W, B[i] * s.GetWeights()[i], "basis function (coordinates) " + vp::str(i));
    vp::check_eq(n[i] * W, B[i], "unweighted basis function " + vp::str(i));
    vp::check_eq(n2[i] * W, B[i], "unweighted basis function (coordinates) " + vp::str(i));
    sum = sum + r[i];
  }
  vp::check_eq(sum * W, W, "basis functions sum to one");
  for (size_t d = 0; d < D; d++) {
    vp::check(c[d].size() == deg[d] + 1, "number of contributions in direction " + vp::str(d));
    for (size_t i = 0; i <= deg[d]; i++) { vp::check_eq(c[d][i], bern(deg[d], i, u[d]), "contribution of direction " + vp::str(d) + " index " + vp::str(i)); vp::check_eq(c2[d].at(i), bern(deg[d], i, u[d]), "contribution (coordinates) of direction " + vp::str(d) + " index " + vp::str(i)); }
  }
}
template <size_t D, class P, size_t... I> P cpV(const bezman::RationalBezierSpline<D, P, double> &s, const Idx<D> &u, std::index_sequence<I...>) { return s.ControlPoint(u[I]...); }
template <size_t D, class P, size_t... I> P wcpV(const bezman::RationalBezierSpline<D, P, double> &s, const Idx<D> &u, std::index_sequence<I...>) { return s.WeightedControlPoint(u[I]...); }
template <size_t D, class P, size_t... I> P &wcpVm(bezman::RationalBezierSpline<D, P, double> &s, const Idx<D> &u, std::index_sequence<I...>) { return s.WeightedControlPoint(u[I]...); }
template <size_t D, class P, size_t... I> double wV(const bezman::RationalBezierSpline<D, P, double> &s, const Idx<D> &u, std::index_sequence<I...>) { return s.Weight(u[I]...); }
template <size_t D, class P, size_t... I> double &wVm(bezman::RationalBezierSpline<D, P, double> &s, const Idx<D> &u, std::index_sequence<I...>) { return s.Weight(u[I]...); }
template <size_t D, class P> void accessCase(const Idx<D> &deg) {
  vector<P> c;
  vector<double> w;
  for (size_t i = 0; i < count(deg); i++) { c.push_back(symPoint<P>("c" + vp::str(i))); w.push_back(vp::positive("w" + vp::str(i))); }
  bezman::RationalBezierSpline<D, P, double> m(deg, c, w);
  const auto &s = m;
  auto seq = std::make_index_sequence<D>();
  vp::check(ratWellFormed(s), "structure");
  vp::check(s.GetDegrees() == deg, "degrees");
  vp::check(s.GetNumberOfControlPoints() == count(deg) && s.GetWeights().size() == count(deg) && s.GetWeightedControlPoints().size() == count(deg), "sizes");
  for (size_t i = 0; i < count(deg); i++) {
    const auto ix = unrank(i, deg);
    const P p = s.ControlPoint(ix), pv = cpV(s, ix, seq), wp = s.WeightedControlPoint(ix), wpv = wcpV(s, ix, seq);
    for (size_t k = 0; k < dimOf<P>::value; k++) {
      vp::check_eq(comp(p, k), comp(c[i], k), "control point (array) " + vp::str(i));
      vp::check_eq(comp(pv, k), comp(c[i], k), "control point (indices) " + vp::str(i));
      vp::check_eq(comp(wp, k), comp(c[i], k) * w[i], "weighted control point (array) " + vp::str(i));
      vp::check_eq(comp(wpv, k), comp(c[i], k) * w[i], "weighted control point (indices) " + vp::str(i));
    }
    vp::check_eq(s.Weight(ix), w[i], "weight (array) " + vp::str(i));
    vp::check_eq(wV(s, ix, seq), w[i], "weight (indices) " + vp::str(i));
    // the mutable accessors refer to the same entries
    vp::check(&m.Weight(ix) == &m.GetWeights()[i] && &wVm(m, ix, seq) == &m.GetWeights()[i], "mutable weight " + vp::str(i));
    vp::check(&m.WeightedControlPoint(ix) == &m.GetWeightedControlPoints()[i] && &wcpVm(m, ix, seq) == &m.GetWeightedControlPoints()[i], "mutable weighted control point " + vp::str(i));
    vp::check(s.LocalToGlobalIndex(i) == ix && s.GlobalToLocalIndex(ix) == i, "index conversion " + vp::str(i));
  }
}
// a rational spline built from a polynomial describes the same function
template <size_t D, class P> void fromPolyCase(const Idx<D> &deg) {
  const auto p = symSpline<D, P>("c", deg);
  const bezman::RationalBezierSpline<D, P, double> s(p);
  vp::check(ratWellFormed(s), "structure");
  auto u = symUopen<D>();
  for (size_t i = 0; i < count(deg); i++) vp::check_eq(s.GetWeights()[i], 1, "weight " + vp::str(i) + " is one");
  const auto v = s.Evaluate(asPoint(u));
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    vp::check_eq(atN(s, u, k), eval(deg, coord(p, k), u), "numerator equals the polynomial");
    vp::check_eq(comp(v, k), eval(deg, coord(p, k), u), "value equals the polynomial");
  }
}
// endpoint interpolation: closed corners of the domain
template <size_t D, class P> void cornerCase(const Idx<D> &deg) {
  const auto s = make<D, P>(deg);
  for (size_t m = 0; m < (1u << D); m++) {
    array<double, D> u;
    Idx<D> ix;
    for (size_t d = 0; d < D; d++) { bool hi = (m >> d) & 1; u[d] = hi ? 1 : 0; ix[d] = hi ? deg[d] : 0; }
    const auto a = s.Evaluate(asPoint(u)), b = s.ForwardEvaluate(asPoint(u));
    const size_t l = rank(ix, deg);
    for (size_t k = 0; k < dimOf<P>::value; k++) {
      vp::check_eq(comp(a, k) * s.GetWeights()[l], comp(s.GetWeightedControlPoints()[l], k), "corner " + vp::str(m) + " interpolates its control point");
      vp::check_eq(comp(b, k) * s.GetWeights()[l], comp(s.GetWeightedControlPoints()[l], k), "corner " + vp::str(m) + " interpolates its control point (forward)");
    }
  }
}
// evaluations follow changes of the spline and do not influence each other
template <size_t D> void sequence(const Idx<D> &da, const Idx<D> &db) {
  using P = Pt<2>;
  auto s = make<D, P>(da), t = symRat<D, P>("d", db);
  const auto u = symUopen<D>("u"), v = symUopen<D>("v");
  auto seq = std::make_index_sequence<D>();
  auto is = [&](const auto &x, const array<double, D> &at, const std::string &n) {
    const auto q = frac(x, at);
    const auto a = x.Evaluate(asPoint(at)), b = evalV(x, at, seq), c = x.ForwardEvaluate(asPoint(at)), d = fwdV(x, at, seq);
    for (size_t k = 0; k < 2; k++) for (const auto &r : {a, b, c, d}) vp::check_eq(r[k] * q.den, q.num[k], n + ", coordinate " + vp::str(k));
    const auto B = basis(x.GetDegrees(), at);
    const auto r = x.BasisFunctions(asPoint(at)), r2 = basV(x, at, seq), m = x.UnweightedBasisFunctions(asPoint(at)), m2 = ubasV(x, at, seq);
    for (size_t i = 0; i < B.size(); i++) {
      vp::check_eq(r.at(i) * q.den, B[i] * x.GetWeights()[i], n + ", basis function " + vp::str(i));
      vp::check_eq(r2.at(i) * q.den, B[i] * x.GetWeights()[i], n + ", basis function (coordinates) " + vp::str(i));
      vp::check_eq(m.at(i) * q.den, B[i], n + ", unweighted basis function " + vp::str(i));
      vp::check_eq(m2.at(i) * q.den, B[i], n + ", unweighted basis function (coordinates) " + vp::str(i));
    }
  };
  is(s, u, "first evaluation");
  is(s, v, "same spline, other parameter");
  is(t, v, "other spline, same parameter");
  is(t, u, "other spline, first parameter");
  is(s, u, "first evaluation again");
  s.GetWeights()[0] = vp::positive("nw");
  is(s, u, "after a change of a weight");
  s.GetWeightedControlPoints()[count(da) - 1] = symPoint<P>("np");
  is(s, u, "after a change of a control point");
  s.Weight(Idx<D>{}) = vp::positive("nw2");
  s.WeightedControlPoint(Idx<D>{}) = symPoint<P>("np2");
  is(s, u, "after a change through the accessors");
  t = s;
  is(t, u, "after assignment");
}
template <size_t D, class P> void all(const std::string &n, const Idx<D> &deg, int tier) {
  const std::string d = std::to_string(D) + "D " + vp::str(deg) + " " + n;
  vp::add("evaluate " + d, tier, [deg] { evalCase<D, P>(deg, false); });
  vp::add("forward evaluate " + d, tier, [deg] { evalCase<D, P>(deg, true); });
  vp::add("basis " + d, tier, [deg] { basisCase<D, P>(deg); });
  vp::add("accessors " + d, tier, [deg] { accessCase<D, P>(deg); });
  vp::add("from polynomial " + d, tier, [deg] { fromPolyCase<D, P>(deg); });
  vp::add("corners " + d, tier, [deg] { cornerCase<D, P>(deg); });
}
void vp_register() {
  for (size_t n = 0; n <= 4; n++) vp::add("any parameter 1D " + vp::str(n), 0, [n] { anyParameter<1>({n}); });
  for (auto d : degCombos<2>(0, 1)) vp::add("any parameter 2D " + vp::str(d), 0, [d] { anyParameter<2>(d); });
  vp::add("any parameter 3D 1x0x1", 0, [] { anyParameter<3>({1, 0, 1}); });
  for (size_t n = 0; n <= 2; n++) for (size_t m = 0; m <= 2; m++) vp::add("sequence 1D " + vp::str(n) + ", " + vp::str(m), 0, [=] { sequence<1>({n}, {m}); });
  for (auto d : degCombos<2>(0, 1)) vp::add("sequence 2D " + vp::str(d), 0, [=] { sequence<2>(d, {d[1], 1}); });
  large("sequence 2D 4x3, 3x4", [] { sequence<2>({4, 3}, {3, 4}); });
  large("sequence 3D 1x2x1, 2x1x1", [] { sequence<3>({1, 2, 1}, {2, 1, 1}); });
  auto big = [](auto pt, const auto &deg) {
    using P = decltype(pt);
    constexpr size_t D = std::tuple_size<std::decay_t<decltype(deg)>>::value;
    const std::string d = std::to_string(D) + "D " + vp::str(deg);
    largeW("evaluate " + d, [deg] { evalCase<D, P>(deg, false); });
    largeW("forward evaluate " + d, [deg] { evalCase<D, P>(deg, true); });
    large("basis " + d, [deg] { basisCase<D, P>(deg); });
    large("accessors " + d, [deg] { accessCase<D, P>(deg); });
    large("from polynomial " + d, [deg] { fromPolyCase<D, P>(deg); });
    largeW("corners " + d, [deg] { cornerCase<D, P>(deg); });
  };
  for (size_t n : {16, 23, 29}) big(Pt<2>{}, Idx<1>{n});
  for (auto d : vector<Idx<2>>{{9, 4}, {4, 9}, {16, 2}, {2, 16}, {6, 7}}) big(Pt<3>{}, d);
  for (auto d : vector<Idx<3>>{{4, 3, 5}, {2, 6, 3}}) big(Pt<2>{}, d);
  for (auto d : vector<Idx<4>>{{2, 1, 3, 2}, {1, 2, 1, 3}}) big(Pt<4>{}, d);
  for (size_t n = 0; n <= 12; n++) all<1, double>("scalar", {n}, n <= 7 ? 0 : 1);
  for (size_t n = 0; n <= 5; n++) all<1, Pt<2>>("point2", {n}, 0);
  all<1, Pt<3>>("point3", {2}, 0);
  for (auto d : degCombos<2>(0, 4)) all<2, Pt<2>>("point2", d, d[0] <= 3 && d[1] <= 3 ? 0 : 1);
  for (auto d : vector<Idx<2>>{{1, 2}, {2, 0}}) all<2, double>("scalar", d, 0);
  for (auto d : degCombos<3>(0, 2)) all<3, Pt<1>>("point1", d, 0);
  all<3, Pt<3>>("point3", {1, 2, 3}, 0);
  all<4, double>("scalar", {1, 2, 0, 1}, 0);
}
