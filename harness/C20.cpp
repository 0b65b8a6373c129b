// storage order, indexed access and index maps
#include "ref.hpp"
using namespace ref;
template <class Sp, size_t D, size_t... I> auto &accessV(Sp &s, const Idx<D> &ix, std::index_sequence<I...>) { return s.ControlPoint(ix[I]...); }
template <size_t D, class P> void access(const Idx<D> &deg) {
  auto s = symSpline<D, P>("c", deg);
  const auto o = s;
  const auto seq = std::make_index_sequence<D>();
  for (size_t l = 0; l < count(deg); l++) {
    const auto ix = unrank(l, deg);
    for (size_t k = 0; k < dimOf<P>::value; k++) {
      vp::check_eq(comp(s.ControlPoint(ix), k), comp(o.control_points[l], k), "read by index array, point " + vp::str(l));
      vp::check_eq(comp(o.ControlPoint(ix), k), comp(o.control_points[l], k), "read by index array from a const spline, point " + vp::str(l));
      vp::check_eq(comp(accessV(s, ix, seq), k), comp(o.control_points[l], k), "read by indices, point " + vp::str(l));
      vp::check_eq(comp(accessV(o, ix, seq), k), comp(o.control_points[l], k), "read by indices from a const spline, point " + vp::str(l));
    }
  }
}
// a write by index changes exactly that control point
template <size_t D, class P> void write(const Idx<D> &deg, size_t at) {
  for (int how = 0; how < 2; how++) {
    auto s = symSpline<D, P>("c", deg);
    const auto o = s;
    const auto q = symPoint<P>("q");
    const auto ix = unrank(at, deg);
    if (how) accessV(s, ix, std::make_index_sequence<D>()) = q; else s.ControlPoint(ix) = q;
    for (size_t l = 0; l < count(deg); l++) for (size_t k = 0; k < dimOf<P>::value; k++)
      vp::check_eq(comp(s.control_points[l], k), l == at ? comp(q, k) : comp(o.control_points[l], k), (l == at ? "written point " : "other point ") + vp::str(l));
    auto u = symU<D>();
    auto v = s.Evaluate(asPoint(u));
    for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(comp(v, k), eval(deg, coord(s, k), u), "the written point takes part in evaluation");
  }
}
// the index of a control point selects its basis function
template <size_t D> void meaning(const Idx<D> &deg, size_t at) {
  vector<double> c(count(deg), 0.0);
  bezman::BezierSpline<D, double, double> s(deg, c);
  const double q = vp::real("q");
  const auto ix = unrank(at, deg);
  s.ControlPoint(ix) = q;
  const auto u = symU<D>();
  double b = q;
  for (size_t d = 0; d < D; d++) b = b * bern(deg[d], ix[d], u[d]);
  vp::check_eq(s.Evaluate(asPoint(u)), b, "a single control point contributes its Bernstein product");
}
template <size_t D> void reg(const Idx<D> &deg, int tier) {
  const std::string n = std::to_string(D) + "D " + vp::str(deg);
  vp::add("access " + n, tier, [deg] { access<D, Pt<2>>(deg); });
  for (size_t l = 0; l < count(deg); l++) {
    vp::add("write " + n + " point " + vp::str(l), count(deg) > 18 ? 1 : tier, [deg, l] { write<D, double>(deg, l); });
    vp::add("meaning " + n + " point " + vp::str(l), tier, [deg, l] { meaning<D>(deg, l); });
  }
}
void vp_register() {
  for (size_t n = 0; n <= 8; n++) reg<1>({n}, 0);
  reg<1>({29}, 1);
  for (auto d : degCombos<2>(0, 3)) reg<2>(d, d[0] <= 2 && d[1] <= 3 ? 0 : 1);
  for (auto d : degCombos<3>(0, 2)) reg<3>(d, d[0] + d[1] + d[2] <= 4 ? 0 : 1);
  reg<4>({1, 2, 0, 1}, 0);
}
