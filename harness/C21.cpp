// bounding corners and the unit-cube predicate
#include "ref.hpp"
using namespace ref;
template <bool R, size_t D, class P> auto make(const Idx<D> &deg, vector<P> &pts) {
  for (size_t i = 0; i < count(deg); i++) pts.push_back(symPoint<P>("c" + vp::str(i)));
  if constexpr (R) {
    vector<double> w;
    for (size_t i = 0; i < count(deg); i++) w.push_back(vp::positive("w" + vp::str(i)));
    return bezman::RationalBezierSpline<D, P, double>(deg, pts, w);
  } else return bezman::BezierSpline<D, P, double>(deg, pts);
}
// which: 0 maximum, 1 minimum
template <bool R, size_t D, class P> void corner(const Idx<D> &deg, int which) {
  vector<P> c;
  const auto s = make<R, D, P>(deg, c);
  const P m = which ? s.MinimumCorner() : s.MaximumCorner();
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    double prod = 1;
    for (size_t i = 0; i < c.size(); i++) {
      if (which) vp::check_le(comp(m, k), comp(c[i], k), "minimum corner is below every control point, coordinate " + vp::str(k));
      else vp::check_le(comp(c[i], k), comp(m, k), "maximum corner is above every control point, coordinate " + vp::str(k));
      prod = prod * (comp(m, k) - comp(c[i], k));
    }
    vp::check_eq(prod, 0, std::string(which ? "minimum" : "maximum") + " corner is attained by a control point, coordinate " + vp::str(k));
  }
}
// mode: 0 everything inside, otherwise control point i, coordinate k leaves on one side
template <bool R, size_t D, class P> void fits(const Idx<D> &deg, size_t i, size_t k, int side) {
  vector<P> c;
  vector<double> w;
  for (size_t j = 0; j < count(deg); j++) { c.push_back(side ? symPoint<P>("c" + vp::str(j)) : symPointIn<P>("c" + vp::str(j), 0, 1)); w.push_back(R ? vp::positive("w" + vp::str(j)) : 1); }
  if (side) compRef(c[i], k) = side > 0 ? vp::real_open("bad", 1, vp::kInf) : vp::real_open("bad", -vp::kInf, 0);
  bool r;
  if constexpr (R) r = bezman::RationalBezierSpline<D, P, double>(deg, c, w).FitsIntoUnitCube();
  else r = bezman::BezierSpline<D, P, double>(deg, c).FitsIntoUnitCube();
  vp::check(r == (side == 0), side ? "a control point outside is noticed" : "control points inside are accepted");
}
template <bool R, class P> void boundary() {
  // exact boundary values count as inside
  for (size_t m = 0; m < 4; m++) {
    vector<P> c(2);
    for (size_t k = 0; k < dimOf<P>::value; k++) { compRef(c[0], k) = double(m & 1); compRef(c[1], k) = double(m >> 1); }
    if constexpr (R) vp::check(bezman::RationalBezierSpline<1, P, double>({1}, c, {1, 2}).FitsIntoUnitCube(), "boundary " + vp::str(m) + " is inside");
    else vp::check(bezman::BezierSpline<1, P, double>({1}, c).FitsIntoUnitCube(), "boundary " + vp::str(m) + " is inside");
  }
}
// the spline stays inside its bounding corners
template <size_t D> void hull(const Idx<D> &deg) {
  vector<double> c;
  const auto s = make<false, D, double>(deg, c);
  auto u = symU<D>();
  const double lo = s.MinimumCorner(), hi = s.MaximumCorner(), v = s.Evaluate(asPoint(u));
  vp::check_le(lo, v, "value above the minimum corner");
  vp::check_le(v, hi, "value below the maximum corner");
}
template <bool R, size_t D, class P> void all(const Idx<D> &deg, int tier) {
  const std::string n = std::string(R ? "rational " : "polynomial ") + std::to_string(D) + "D " + vp::str(deg) + " in " + vp::str(dimOf<P>::value) + (std::is_same_v<P, double> ? " scalar" : "");
  vp::add("maximum corner " + n, tier, [deg] { corner<R, D, P>(deg, 0); });
  vp::add("minimum corner " + n, tier, [deg] { corner<R, D, P>(deg, 1); });
  vp::add("fits " + n, tier, [deg] { fits<R, D, P>(deg, 0, 0, 0); });
  for (size_t i = 0; i < count(deg); i++) for (size_t k = 0; k < dimOf<P>::value; k++) for (int s : {-1, 1})
    vp::add("fits " + n + " point " + vp::str(i) + " coordinate " + vp::str(k) + (s > 0 ? " above" : " below"), tier, [=] { fits<R, D, P>(deg, i, k, s); });
}
// larger nets: fixed numbers everywhere except for one coordinate of one point, which is any number
template <bool R, size_t D, class P> auto net(const Idx<D> &deg, size_t i, size_t k, double x, vector<P> &c, bool unit) {
  vector<double> w;
  for (size_t j = 0; j < count(deg); j++) {
    P p{};
    for (size_t d = 0; d < dimOf<P>::value; d++) compRef(p, d) = unit ? double((j * 7 + d * 3) % 9) / 8 : (double((j * 7 + d * 3) % 11) - 5) / 8;
    c.push_back(p);
    w.push_back(R ? 1 + double(j % 3) / 2 : 1);
  }
  compRef(c[i], k) = x;
  if constexpr (R) return bezman::RationalBezierSpline<D, P, double>(deg, c, w);
  else return bezman::BezierSpline<D, P, double>(deg, c);
}
template <bool R, size_t D, class P> void bigNet(const Idx<D> &deg, size_t i, size_t k) {
  const double x = vp::real("x");
  vector<P> c;
  const auto s = net<R, D, P>(deg, i, k, x, c, false);
  const P hi = s.MaximumCorner(), lo = s.MinimumCorner();
  for (size_t d = 0; d < dimOf<P>::value; d++) {
    double a = 1e9, b = -1e9;
    for (size_t j = 0; j < c.size(); j++) if (j != i || d != k) { if (comp(c[j], d) < a) a = comp(c[j], d); if (comp(c[j], d) > b) b = comp(c[j], d); }
    if (d != k) { vp::check_eq(comp(hi, d), b, "maximum corner, another coordinate"); vp::check_eq(comp(lo, d), a, "minimum corner, another coordinate"); continue; }
    vp::check_le(b, comp(hi, d), "maximum corner is above the other control points");
    vp::check_le(x, comp(hi, d), "maximum corner is above the control point");
    if (c.size() > 1) vp::check_eq((comp(hi, d) - x) * (comp(hi, d) - b), 0, "maximum corner is attained");
    vp::check_le(comp(lo, d), a, "minimum corner is below the other control points");
    vp::check_le(comp(lo, d), x, "minimum corner is below the control point");
    if (c.size() > 1) vp::check_eq((comp(lo, d) - x) * (comp(lo, d) - a), 0, "minimum corner is attained");
  }
  for (int side : {-1, 0, 1}) {
    const double y = side ? side > 0 ? vp::real_open("above", 1, vp::kInf) : vp::real_open("below", -vp::kInf, 0) : vp::unit("inside");
    vector<P> e;
    vp::check(net<R, D, P>(deg, i, k, y, e, true).FitsIntoUnitCube() == (side == 0), side ? "a control point outside is noticed" : "control points inside are accepted");
  }
}
template <bool R, size_t D, class P> void big(const Idx<D> &deg, size_t step) {
  const std::string n = std::string(R ? "rational " : "polynomial ") + std::to_string(D) + "D " + vp::str(deg) + " in " + vp::str(dimOf<P>::value);
  for (size_t i = 0; i < count(deg); i += i + 1 < count(deg) && i + step >= count(deg) ? count(deg) - 1 - i : step) for (size_t k = 0; k < dimOf<P>::value; k++)
    vp::add("net " + n + " point " + vp::str(i) + " coordinate " + vp::str(k), 0, [=] { bigNet<R, D, P>(deg, i, k); });
}
template <bool R> void kinds() {
  big<R, 1, double>({9}, 1); big<R, 1, double>({17}, 3); big<R, 1, double>({29}, 5); big<R, 1, double>({40}, 10);
  big<R, 1, Pt<2>>({11}, 2); big<R, 1, Pt<3>>({19}, 4); big<R, 1, Pt<4>>({5}, 2);
  big<R, 2, Pt<2>>({2, 2}, 1); big<R, 2, Pt<3>>({3, 4}, 3); big<R, 2, double>({5, 3}, 3); big<R, 2, Pt<2>>({0, 7}, 2);
  big<R, 3, Pt<3>>({2, 2, 2}, 2); big<R, 3, Pt<2>>({1, 3, 2}, 5); big<R, 4, double>({1, 2, 1, 2}, 5);
  for (size_t n = 0; n <= 4; n++) all<R, 1, double>({n}, n <= 3 ? 0 : 1);
  for (size_t n = 0; n <= 3; n++) all<R, 1, Pt<2>>({n}, n <= 2 ? 0 : 1);
  for (size_t n = 0; n <= 2; n++) all<R, 1, Pt<3>>({n}, n <= 1 ? 0 : 1);
  all<R, 2, Pt<2>>({1, 1}, 0);
  all<R, 2, Pt<3>>({1, 0}, 0);
  all<R, 2, double>({1, 2}, 1);
  all<R, 3, Pt<1>>({1, 1, 1}, 2);
  vp::add(std::string(R ? "rational" : "polynomial") + " boundary scalar", 0, [] { boundary<R, double>(); });
  vp::add(std::string(R ? "rational" : "polynomial") + " boundary point", 0, [] { boundary<R, Pt<2>>(); });
}
void vp_register() {
  kinds<false>();
  kinds<true>();
  for (size_t n = 0; n <= 2; n++) vp::add("hull 1D " + vp::str(n), 0, [n] { hull<1>({n}); });
  vp::add("hull 1D 3", 1, [] { hull<1>({3}); });
  vp::add("hull 2D 1x1", 1, [] { hull<2>({1, 1}); });
}
