// Evaluate of a polynomial spline == sum_i c_i B_i(u)
#include "ref.hpp"
using namespace ref;
template <size_t D, class P, size_t... I> P variadic(const bezman::BezierSpline<D, P, double> &s, const array<double, D> &u, std::index_sequence<I...>) { return s.Evaluate(u[I]...); }
template <size_t D, class P> void evalCase(const Idx<D> &deg, bool wide = false, bool fixed = false) {
  auto s = symSpline<D, P>("c", deg);
  array<double, D> u;
  // the polynomial identity is not limited to the unit cube
  for (size_t d = 0; d < D; d++) u[d] = wide ? vp::real("u" + vp::str(d)) : vp::unit("u" + vp::str(d));
  if (fixed) u = fixedU<D>();
  auto b = basis(deg, u);
  const auto &cs = s;
  auto r = cs.Evaluate(asPoint(u));
  auto v = variadic(s, u, std::make_index_sequence<D>());
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    double e = dot(b, coord(s, k));
    vp::check_eq(comp(r, k), e, "Evaluate(point) == sum_i c_i B_i(u), coordinate " + vp::str(k));
    vp::check_eq(comp(v, k), e, "Evaluate(coordinates...) == sum_i c_i B_i(u), coordinate " + vp::str(k));
  }
}
template <size_t D> void corners(const Idx<D> &deg) {
  auto s = symSpline<D, Pt<2>>("c", deg);
  for (size_t m = 0; m < (1u << D); m++) {
    array<double, D> u;
    Idx<D> ix;
    for (size_t d = 0; d < D; d++) { bool hi = (m >> d) & 1; u[d] = hi ? 1 : 0; ix[d] = hi ? deg[d] : 0; }
    auto r = s.Evaluate(asPoint(u));
    for (size_t k = 0; k < 2; k++) vp::check_eq(r[k], s.control_points[rank(ix, deg)][k], "corner " + vp::str(m) + " interpolates its control point");
  }
}
// evaluations do not influence each other, and follow changes of the control points
template <size_t D> void sequence(const Idx<D> &da, const Idx<D> &db) {
  auto s = symSpline<D, Pt<2>>("c", da), t = symSpline<D, Pt<2>>("d", db);
  const auto u = symU<D>("u"), v = symU<D>("v");
  auto is = [&](const auto &x, const array<double, D> &at, const std::string &n) {
    const auto r = x.Evaluate(asPoint(at));
    const auto v = variadic(x, at, std::make_index_sequence<D>());
    for (size_t k = 0; k < 2; k++) { const double e = eval(x.GetDegrees(), coord(x, k), at); vp::check_eq(r[k], e, n + ", coordinate " + vp::str(k)); vp::check_eq(v[k], e, n + " (coordinates), coordinate " + vp::str(k)); }
  };
  is(s, u, "first evaluation");
  is(s, v, "same spline, other parameter");
  is(t, v, "other spline, same parameter");
  is(t, u, "other spline, first parameter");
  is(s, u, "first evaluation again");
  for (auto &p : s.control_points) p = symPoint<Pt<2>>("e" + vp::str(size_t(&p - s.control_points.data())));
  is(s, u, "after a change of the control points");
  s *= 3.0;
  is(s, u, "after scaling");
  s.control_points[0] = symPoint<Pt<2>>("f");
  is(s, u, "after a change of one control point");
  is(t, u, "other spline in between");
  t = s;
  is(t, u, "after assignment");
  is(t, v, "after assignment, other parameter");
}
void vp_register() {
  for (size_t n = 0; n <= 4; n++) for (size_t m = 0; m <= 4; m++) vp::add("sequence 1D " + vp::str(n) + ", " + vp::str(m), 0, [=] { sequence<1>({n}, {m}); });
  for (auto d : degCombos<2>(0, 2)) vp::add("sequence 2D " + vp::str(d), 0, [=] { sequence<2>(d, {d[1], 2}); });
  vp::add("sequence 3D", 0, [] { sequence<3>({1, 0, 2}, {2, 1, 0}); });
  for (size_t n = 0; n <= 29; n++) vp::add("eval 1D degree " + vp::str(n) + " scalar", 0, [n] { evalCase<1, double>({n}); });
  for (size_t n : {0, 1, 2, 3, 6}) vp::add("eval 1D degree " + vp::str(n) + " point2, any real parameter", 0, [n] { evalCase<1, Pt<2>>({n}, true); });
  for (auto d : degCombos<2>(0, 6)) vp::add("eval 2D degrees " + vp::str(d) + " point3", d[0] <= 4 && d[1] <= 4 ? 0 : 1, [d] { evalCase<2, Pt<3>>(d); });
  for (auto d : degCombos<3>(0, 3)) vp::add("eval 3D degrees " + vp::str(d) + " point1", d[0] <= 2 && d[1] <= 2 && d[2] <= 2 ? 0 : 1, [d] { evalCase<3, Pt<1>>(d); });
  for (auto d : vector<Idx<4>>{{1, 2, 1, 2}, {2, 1, 3, 1}, {0, 2, 0, 1}}) vp::add("eval 4D degrees " + vp::str(d) + " scalar", 0, [d] { evalCase<4, double>(d); });
  for (auto d : vector<Idx<2>>{{12, 1}, {1, 12}, {9, 3}}) vp::add("eval 2D degrees " + vp::str(d) + " scalar", 0, [d] { evalCase<2, double>(d); });
  for (auto d : vector<Idx<2>>{{29, 2}, {3, 20}}) vp::add("eval 2D degrees " + vp::str(d) + " scalar", 1, [d] { evalCase<2, double>(d); });
  for (size_t n : {30, 31, 32, 33, 40, 50}) vp::add("eval 1D degree " + vp::str(n) + " at a fixed parameter", 0, [n] { evalCase<1, Pt<2>>({n}, false, true); });
  for (auto d : vector<Idx<2>>{{20, 2}, {2, 20}, {29, 1}, {1, 33}, {16, 16}, {8, 15}, {6, 6}, {7, 5}}) vp::add("eval 2D degrees " + vp::str(d) + " at a fixed parameter", 0, [d] { evalCase<2, Pt<2>>(d, false, true); });
  for (auto d : vector<Idx<3>>{{5, 4, 6}, {7, 1, 3}, {3, 3, 8}, {16, 2, 1}}) vp::add("eval 3D degrees " + vp::str(d) + " at a fixed parameter", 0, [d] { evalCase<3, Pt<3>>(d, false, true); });
  for (auto d : vector<Idx<4>>{{2, 2, 2, 2}, {3, 1, 2, 4}, {1, 5, 3, 2}}) vp::add("eval 4D degrees " + vp::str(d) + " point4 at a fixed parameter", 0, [d] { evalCase<4, Pt<4>>(d, false, true); });
  for (auto d : vector<Idx<5>>{{1, 1, 1, 1, 1}, {2, 1, 2, 1, 3}, {1, 3, 0, 2, 1}}) vp::add("eval 5D degrees " + vp::str(d) + " point5 at a fixed parameter", 0, [d] { evalCase<5, Pt<5>>(d, false, true); });
  for (auto d : vector<Idx<1>>{{0}, {1}, {5}, {29}}) vp::add("corners 1D " + vp::str(d), 0, [d] { corners<1>(d); });
  for (auto d : vector<Idx<2>>{{0, 2}, {3, 2}, {2, 5}}) vp::add("corners 2D " + vp::str(d), 0, [d] { corners<2>(d); });
  for (auto d : vector<Idx<3>>{{1, 2, 3}, {3, 1, 2}}) vp::add("corners 3D " + vp::str(d), 0, [d] { corners<3>(d); });
  for (auto d : vector<Idx<4>>{{1, 2, 1, 2}, {0, 3, 1, 1}}) vp::add("corners 4D " + vp::str(d), 0, [d] { corners<4>(d); });
}
