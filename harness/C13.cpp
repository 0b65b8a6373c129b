// splitting reproduces the spline on the sub-intervals
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> void split1(const Idx<D> &deg, size_t dim, bool deflt = false) {
  const auto s = symSpline<D, P>("c", deg);
  const double t = vp::real_open("t", 0, 1);
  const auto parts = deflt ? s.SplitAtPosition(t) : s.SplitAtPosition(t, dim);
  vp::check(parts.size() == 2, "splitting yields two parts");
  auto u = symU<D>();
  for (size_t i = 0; i < 2 && i < parts.size(); i++) {
    vp::check(wellFormed(parts[i]), "part " + vp::str(i) + " is structurally consistent");
    checkDegrees(parts[i], deg, "part " + vp::str(i));
    auto x = u;
    x[dim] = i ? t + (1 - t) * u[dim] : t * u[dim];
    for (size_t k = 0; k < dimOf<P>::value; k++) {
      vp::check_eq(at(parts[i], u, k), eval(deg, coord(s, k), x), "part " + vp::str(i) + " reproduces the spline, coordinate " + vp::str(k));
      vp::check_eq(comp(parts[i].Evaluate(asPoint(u)), k), eval(deg, coord(s, k), x), "part " + vp::str(i) + " evaluated reproduces the spline, coordinate " + vp::str(k));
    }
  }
}
// fixed: positions and parameter are fixed numbers, the control points stay symbolic
template <size_t D, class P> void splitN(const Idx<D> &deg, size_t dim, size_t n, bool fixed = false, bool deflt = false) {
  const auto s = symSpline<D, P>("c", deg);
  vector<double> t;
  for (size_t i = 0; i < n; i++) {
    if (fixed) t.push_back(double((i + 1) * (i + 2)) / double((n + 1) * (n + 3)));
    else { t.push_back(vp::real_open("t" + vp::str(i), 0, 1)); if (i) vp::assume_lt(t[i - 1], t[i]); }
  }
  const auto parts = deflt ? s.SplitAtPosition(t) : s.SplitAtPosition(t, dim);
  vp::check(parts.size() == n + 1, "n positions yield n+1 parts");
  auto u = fixed ? fixedU<D>() : symU<D>();
  for (size_t i = 0; i <= n && i < parts.size(); i++) {
    vp::check(wellFormed(parts[i]), "part " + vp::str(i) + " is structurally consistent");
    checkDegrees(parts[i], deg, "part " + vp::str(i));
    double lo = i ? t[i - 1] : 0, hi = i < n ? t[i] : 1;
    auto x = u;
    x[dim] = lo + (hi - lo) * u[dim];
    for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(at(parts[i], u, k), eval(deg, coord(s, k), x), "part " + vp::str(i) + " reproduces the spline on its interval, coordinate " + vp::str(k));
  }
}
void vp_register() {
  for (size_t n : {10, 11, 12, 13, 15, 16, 17, 19, 22, 26, 29}) large("split 1D degree " + vp::str(n), [n] { split1<1, Pt<2>>({n}, 0); });
  for (auto d : vector<Idx<2>>{{9, 4}, {4, 9}, {16, 2}, {2, 16}, {6, 6}}) for (size_t k = 0; k < 2; k++) large("split 2D degrees " + vp::str(d) + " along " + vp::str(k), [d, k] { split1<2, Pt<2>>(d, k); });
  for (auto d : vector<Idx<3>>{{4, 3, 5}, {2, 6, 3}}) for (size_t k = 0; k < 3; k++) large("split 3D degrees " + vp::str(d) + " along " + vp::str(k), [d, k] { split1<3, Pt<2>>(d, k); });
  for (auto d : vector<Idx<4>>{{2, 1, 3, 2}, {1, 2, 1, 3}}) for (size_t k = 0; k < 4; k++) large("split 4D degrees " + vp::str(d) + " along " + vp::str(k), [d, k] { split1<4, double>(d, k); });
  for (auto d : vector<Idx<3>>{{3, 2, 4}, {2, 3, 1}}) for (size_t k = 0; k < 3; k++) for (size_t m : {2, 5, 9}) vp::add("multi-split 3D degrees " + vp::str(d) + " along " + vp::str(k) + " at " + vp::str(m) + " fixed positions", 0, [d, k, m] { splitN<3, Pt<2>>(d, k, m, true); });
  for (size_t n : {8, 15, 24}) for (size_t m : {3, 9, 16}) if (n * m <= 150) vp::add("multi-split 1D degree " + vp::str(n) + " at " + vp::str(m) + " fixed positions", 0, [n, m] { splitN<1, Pt<2>>({n}, 0, m, true); });
  for (size_t n = 0; n <= 29; n++) vp::add("split 1D degree " + vp::str(n), n <= 9 || n == 14 ? 0 : n <= 18 ? 1 : 2, [n] { split1<1, double>({n}, 0); });
  vp::add("split 1D degree 3 default direction", 0, [] { split1<1, Pt<2>>({3}, 0, true); });
  vp::add("split 2D degrees 2x3 default direction", 0, [] { split1<2, Pt<2>>({2, 3}, 0, true); });
  for (auto d : degCombos<2>(0, 4)) for (size_t k = 0; k < 2; k++) vp::add("split 2D degrees " + vp::str(d) + " along " + vp::str(k), d[0] <= 3 && d[1] <= 3 ? 0 : 1, [d, k] { split1<2, Pt<2>>(d, k); });
  for (auto d : degCombos<3>(0, 2)) for (size_t k = 0; k < 3; k++) vp::add("split 3D degrees " + vp::str(d) + " along " + vp::str(k), 0, [d, k] { split1<3, Pt<1>>(d, k); });
  vp::add("split 3D degrees 1x3x2 along 1", 0, [] { split1<3, Pt<3>>({1, 3, 2}, 1); });
  vp::add("split 4D degrees 1x2x1x2 along 2", 0, [] { split1<4, double>({1, 2, 1, 2}, 2); });
  for (size_t n = 0; n <= 5; n++) for (size_t m = 0; m <= 6; m++) vp::add("multi-split 1D degree " + vp::str(n) + " at " + vp::str(m) + " positions", n <= 3 && (m <= 3 || n <= 2) ? 0 : n + m <= 8 ? 1 : 2, [n, m] { splitN<1, double>({n}, 0, m); });
  for (auto d : degCombos<2>(1, 2)) for (size_t k = 0; k < 2; k++) for (size_t m = 1; m <= 3; m++) vp::add("multi-split 2D degrees " + vp::str(d) + " along " + vp::str(k) + " at " + vp::str(m) + " positions", m <= 2 ? 0 : 1, [d, k, m] { splitN<2, Pt<2>>(d, k, m); });
  for (size_t n : {1, 2, 3, 5}) for (size_t m : {4, 5, 6, 8}) vp::add("multi-split 1D degree " + vp::str(n) + " at " + vp::str(m) + " fixed positions", 0, [n, m] { splitN<1, Pt<2>>({n}, 0, m, true); });
  for (auto d : degCombos<2>(1, 2)) for (size_t k = 0; k < 2; k++) for (size_t m : {3, 4, 5}) vp::add("multi-split 2D degrees " + vp::str(d) + " along " + vp::str(k) + " at " + vp::str(m) + " fixed positions", 0, [d, k, m] { splitN<2, Pt<2>>(d, k, m, true); });
  for (size_t m = 0; m <= 2; m++) {
    vp::add("multi-split 2D degrees 1x2 default direction at " + vp::str(m) + " positions", 0, [m] { splitN<2, Pt<2>>({1, 2}, 0, m, false, true); });
    vp::add("multi-split 3D degrees 2x1x1 default direction at " + vp::str(m) + " positions", 0, [m] { splitN<3, double>({2, 1, 1}, 0, m, false, true); });
  }
  vp::add("multi-split 3D degrees 1x2x1 along 1 at 2 positions", 0, [] { splitN<3, Pt<3>>({1, 2, 1}, 1, 2); });
}
