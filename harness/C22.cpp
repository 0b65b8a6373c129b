// affine normalisation of the control polygon
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> void transpose(const Idx<D> &deg) {
  auto s = symSpline<D, P>("c", deg);
  const auto o = s;
  const P t = symPoint<P>("t"), f = symPoint<P>("f");
  auto &r = s.TransposeAndScale(t, f);
  vp::check(&r == &s, "returns its object");
  checkDegrees(s, deg, "transposed");
  auto u = symU<D>();
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    for (size_t i = 0; i < count(deg); i++) vp::check_eq(comp(s.control_points[i], k), (comp(o.control_points[i], k) + comp(t, k)) * comp(f, k), "control point " + vp::str(i) + " is shifted, then scaled, coordinate " + vp::str(k));
    vp::check_eq(at(s, u, k), (at(o, u, k) + comp(t, k)) * comp(f, k), "the function is shifted, then scaled, coordinate " + vp::str(k));
  }
}
void transposes() {
  for (size_t n : {9, 17, 29}) vp::add("transpose 1D " + vp::str(n) + " point2", 0, [n] { transpose<1, Pt<2>>({n}); });
  for (auto d : vector<Idx<2>>{{5, 3}, {0, 7}, {4, 4}}) vp::add("transpose 2D " + vp::str(d) + " scalar", 0, [d] { transpose<2, double>(d); });
  vp::add("transpose 3D 2x2x2 point4", 0, [] { transpose<3, Pt<4>>({2, 2, 2}); });
  vp::add("transpose 4D 1x2x1x2 point1", 0, [] { transpose<4, Pt<1>>({1, 2, 1, 2}); });
}
// the point with the smallest (largest) coordinate k has index lo[k] (hi[k])
template <size_t D, class P> void fit(const Idx<D> &deg, array<size_t, 3> lo, array<size_t, 3> hi, unsigned flat) {
  auto s = symSpline<D, P>("c", deg);
  constexpr size_t n = dimOf<P>::value;
  for (size_t k = 0; k < n; k++) {
    if ((flat >> k) & 1) { for (auto &p : s.control_points) compRef(p, k) = comp(s.control_points[0], k); lo[k] = hi[k] = 0; continue; }
    for (size_t i = 0; i < count(deg); i++) { vp::assume_le(comp(s.control_points[lo[k]], k), comp(s.control_points[i], k)); vp::assume_le(comp(s.control_points[i], k), comp(s.control_points[hi[k]], k)); }
    vp::assume_lt(comp(s.control_points[lo[k]], k), comp(s.control_points[hi[k]], k));
  }
  const auto o = s;
  auto &r = s.FitIntoUnitCube();
  vp::check(&r == &s, "returns its object");
  checkDegrees(s, deg, "fitted");
  for (size_t k = 0; k < n; k++) {
    const double a = comp(o.control_points[lo[k]], k), e = comp(o.control_points[hi[k]], k) - a;
    for (size_t i = 0; i < count(deg); i++) {
      const double v = comp(s.control_points[i], k);
      vp::check_le(0, v, "fitted coordinate " + vp::str(k) + " of point " + vp::str(i) + " is not negative");
      vp::check_le(v, 1, "fitted coordinate " + vp::str(k) + " of point " + vp::str(i) + " is not above one");
      if ((flat >> k) & 1) vp::check_eq(v, comp(s.control_points[0], k), "a flat direction stays flat");
      else vp::check_eq(v * e, comp(o.control_points[i], k) - a, "coordinate " + vp::str(k) + " of point " + vp::str(i) + " is mapped affinely onto the unit interval");
    }
  }
}
// larger nets: fixed numbers everywhere except for one coordinate of one point, which is any number
template <size_t D, class P> void fitBig(const Idx<D> &deg, size_t i, size_t k) {
  vector<P> c;
  for (size_t j = 0; j < count(deg); j++) { P p{}; for (size_t d = 0; d < dimOf<P>::value; d++) compRef(p, d) = (double((j * 7 + d * 3) % 11) - 5) / 8; c.push_back(p); }
  compRef(c[i], k) = vp::real("x");
  bezman::BezierSpline<D, P, double> s(deg, c);
  s.FitIntoUnitCube();
  for (size_t d = 0; d < dimOf<P>::value; d++) {
    double a = comp(c[0], d), b = a;
    for (const auto &p : c) { if (comp(p, d) < a) a = comp(p, d); if (comp(p, d) > b) b = comp(p, d); }
    for (size_t j = 0; j < c.size(); j++) vp::check_eq(comp(s.control_points[j], d) * (b - a), comp(c[j], d) - a, "coordinate " + vp::str(d) + " is mapped affinely onto the unit interval");
  }
}
template <size_t D, class P> void bigs(const Idx<D> &deg, size_t step) {
  for (size_t i = 0; i < count(deg); i += i + 1 < count(deg) && i + step >= count(deg) ? count(deg) - 1 - i : step) for (size_t k = 0; k < dimOf<P>::value; k++)
    vp::add("fit net " + std::to_string(D) + "D " + vp::str(deg) + " in " + vp::str(dimOf<P>::value) + ", any coordinate " + vp::str(k) + " of point " + vp::str(i), 0, [=] { fitBig<D, P>(deg, i, k); });
}
void vp_register() {
  bigs<1, double>({9}, 1); bigs<1, double>({29}, 5); bigs<1, Pt<2>>({17}, 3); bigs<1, Pt<4>>({5}, 2);
  bigs<2, Pt<2>>({2, 2}, 1); bigs<2, Pt<3>>({3, 4}, 3); bigs<3, Pt<3>>({2, 2, 2}, 4); bigs<4, double>({1, 2, 1, 2}, 5);
  transposes();
  for (size_t n = 0; n <= 6; n++) vp::add("transpose 1D " + vp::str(n) + " scalar", 0, [n] { transpose<1, double>({n}); });
  for (size_t n = 0; n <= 4; n++) vp::add("transpose 1D " + vp::str(n) + " point3", 0, [n] { transpose<1, Pt<3>>({n}); });
  for (auto d : degCombos<2>(0, 3)) vp::add("transpose 2D " + vp::str(d) + " point2", 0, [d] { transpose<2, Pt<2>>(d); });
  vp::add("transpose 3D 1x2x1 point3", 0, [] { transpose<3, Pt<3>>({1, 2, 1}); });
  for (size_t n = 1; n <= 4; n++) for (size_t lo = 0; lo <= n; lo++) for (size_t hi = 0; hi <= n; hi++) if (lo != hi) {
    vp::add("fit 1D " + vp::str(n) + " scalar, minimum at " + vp::str(lo) + ", maximum at " + vp::str(hi), n <= 3 ? 0 : 1, [=] { fit<1, double>({n}, {lo}, {hi}, 0); });
    vp::add("fit 1D " + vp::str(n) + " point1, minimum at " + vp::str(lo) + ", maximum at " + vp::str(hi), n <= 2 ? 0 : 1, [=] { fit<1, Pt<1>>({n}, {lo}, {hi}, 0); });
  }
  for (size_t a = 0; a < 3; a++) for (size_t b = 0; b < 3; b++) if (a != b) {
    vp::add("fit 1D 2 point2, extremes " + vp::str(a) + "," + vp::str(b), 0, [=] { fit<1, Pt<2>>({2}, {a, b}, {b, 3 - a - b}, 0); });
    vp::add("fit 1D 2 point2, extremes " + vp::str(a) + "," + vp::str(b) + ", flat in coordinate 1", 0, [=] { fit<1, Pt<2>>({2}, {a, b}, {b, a}, 2); });
    vp::add("fit 1D 2 point2, extremes " + vp::str(a) + "," + vp::str(b) + ", flat in coordinate 0", 0, [=] { fit<1, Pt<2>>({2}, {a, b}, {b, a}, 1); });
    vp::add("fit 1D 2 point3, extremes " + vp::str(a) + "," + vp::str(b), 0, [=] { fit<1, Pt<3>>({2}, {a, b, a}, {b, a, 3 - a - b}, 0); });
  }
  vp::add("fit 1D 2 scalar, flat", 0, [] { fit<1, double>({2}, {0}, {0}, 1); });
  vp::add("fit 1D 0 scalar, flat", 0, [] { fit<1, double>({0}, {0}, {0}, 1); });
  for (size_t a = 0; a < 4; a++) for (size_t b = 0; b < 4; b++) if (a != b) vp::add("fit 2D 1x1 point2, extremes " + vp::str(a) + "," + vp::str(b), 0, [=] { fit<2, Pt<2>>({1, 1}, {a, b}, {b, a}, 0); });
}
