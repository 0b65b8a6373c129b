// products and integer powers of splines
#include "ref.hpp"
using namespace ref;
template <size_t D, class P, class Q> void product(const Idx<D> &da, const Idx<D> &db, bool fixed = false) {
  const auto a = symSpline<D, P>("a", da);
  const auto b = symSpline<D, Q>("b", db);
  auto u = fixed ? fixedU<D>() : symU<D>();
  const auto r = a * b;
  Idx<D> want;
  for (size_t d = 0; d < D; d++) want[d] = da[d] + db[d];
  vp::check(wellFormed(r), "product: structurally consistent");
  checkDegrees(r, want, "product degree is the sum of the degrees");
  constexpr bool sa = std::is_same_v<P, double>, sb = std::is_same_v<Q, double>;
  if constexpr (sa || sb) {
    constexpr size_t n = sa ? dimOf<Q>::value : dimOf<P>::value;
    for (size_t k = 0; k < n; k++)
      vp::check_eq(at(r, u, k), eval(da, coord(a, sa ? 0 : k), u) * eval(db, coord(b, sb ? 0 : k), u), "product at u == product of the values, coordinate " + vp::str(k));
  } else {  // scalar product of point valued splines
    double e = 0;
    for (size_t k = 0; k < dimOf<P>::value; k++) e = e + eval(da, coord(a, k), u) * eval(db, coord(b, k), u);
    vp::check_eq(at(r, u, 0), e, "product at u == scalar product of the values");
  }
}
template <size_t D> void powers(const Idx<D> &deg, size_t p) {
  const auto s = symSpline<D, double>("c", deg);
  auto u = symU<D>();
  const auto r = s.RaisePower(p);
  Idx<D> want;
  for (size_t d = 0; d < D; d++) want[d] = deg[d] * p;
  vp::check(wellFormed(r), "power: structurally consistent");
  checkDegrees(r, want, "power multiplies the degrees");
  vp::check_eq(at(r, u, 0), ipow(eval(deg, s.control_points, u), p), "power at u == power of the value");
}
void vp_register() {
  for (size_t n = 0; n <= 7; n++) for (size_t m = 0; m <= 7; m++) vp::add("product 1D degrees " + vp::str(n) + " and " + vp::str(m), n <= 4 && m <= 4 ? 0 : 1, [n, m] { product<1, double, double>({n}, {m}); });
  for (auto p : vector<Idx<2>>{{14, 15}, {1, 28}, {25, 3}, {9, 9}, {29, 0}}) vp::add("product 1D degrees " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<1, double, double>({p[0]}, {p[1]}); });
  for (auto a : degCombos<2>(0, 2)) for (auto b : degCombos<2>(0, 2)) vp::add("product 2D degrees " + vp::str(a) + " and " + vp::str(b), 0, [a, b] { product<2, double, double>(a, b); });
  for (auto a : degCombos<2>(0, 3)) for (auto b : degCombos<2>(0, 3)) if (a[0] > 2 || a[1] > 2 || b[0] > 2 || b[1] > 2) vp::add("product 2D degrees " + vp::str(a) + " and " + vp::str(b), 1, [a, b] { product<2, double, double>(a, b); });
  for (auto p : vector<array<Idx<2>, 2>>{{{{1, 2}, {2, 1}}}, {{{3, 0}, {1, 2}}}, {{{0, 2}, {2, 2}}}, {{{3, 1}, {1, 4}}}}) {
    vp::add("product 2D point*scalar " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<2, Pt<2>, double>(p[0], p[1]); });
    vp::add("product 2D scalar*point " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<2, double, Pt<2>>(p[0], p[1]); });
    vp::add("product 2D point.point " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<2, Pt<2>, Pt<2>>(p[0], p[1]); });
  }
  for (auto p : vector<array<Idx<3>, 2>>{{{{1, 1, 1}, {1, 1, 1}}}, {{{1, 2, 0}, {0, 1, 2}}}, {{{2, 0, 1}, {1, 2, 1}}}}) {
    vp::add("product 3D " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<3, double, double>(p[0], p[1]); });
    vp::add("product 3D point.point " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<3, Pt<3>, Pt<3>>(p[0], p[1]); });
  }
  for (size_t n = 0; n <= 3; n++) for (size_t p = 0; p <= 9; p++) vp::add("power 1D degree " + vp::str(n) + " to " + vp::str(p), n * p <= 8 ? 0 : 1, [n, p] { powers<1>({n}, p); });
  for (auto d : degCombos<2>(0, 2)) for (size_t p = 0; p <= 4; p++) vp::add("power 2D degrees " + vp::str(d) + " to " + vp::str(p), p <= 2 || (d[0] + d[1] <= 2 && p <= 3) ? 0 : 1, [d, p] { powers<2>(d, p); });
  for (size_t p = 10; p <= 17; p++) vp::add("power 1D degree 1 to " + vp::str(p), 0, [p] { powers<1>({1}, p); });
  vp::add("power 1D degree 1 to 29", 0, [] { powers<1>({1}, 29); });
  for (auto p : vector<array<Idx<2>, 2>>{{{{7, 5}, {6, 8}}}, {{{15, 1}, {14, 2}}}, {{{1, 14}, {2, 15}}}, {{{4, 9}, {9, 4}}}}) vp::add("product 2D at a fixed parameter " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<2, double, double>(p[0], p[1], true); });
  for (auto p : vector<array<Idx<3>, 2>>{{{{3, 2, 4}, {2, 3, 1}}}, {{{4, 0, 2}, {1, 5, 3}}}}) vp::add("product 3D at a fixed parameter " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<3, Pt<2>, double>(p[0], p[1], true); });
  for (auto p : vector<array<Idx<4>, 2>>{{{{1, 2, 1, 1}, {1, 1, 2, 1}}}, {{{0, 1, 2, 1}, {2, 1, 0, 1}}}}) vp::add("product 4D at a fixed parameter " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { product<4, double, double>(p[0], p[1], true); });
  vp::add("power 3D degrees 1x1x1 to 2", 0, [] { powers<3>({1, 1, 1}, 2); });
}
