// order elevation leaves the parametrised function unchanged
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> void elevate(const Idx<D> &deg, const vector<size_t> &dirs) {
  auto s = symSpline<D, P>("c", deg);
  auto u = symU<D>();
  const auto orig = s;
  Idx<D> want = deg;
  for (size_t d : dirs) {
    auto &r = s.OrderElevateAlongParametricDimension(d);
    vp::check(&r == &s, "returns the spline itself");
    want[d]++;
    checkDegrees(s, want, "elevation raises exactly one degree by one");
    vp::check(wellFormed(s), "elevated spline is structurally consistent");
  }
  auto e = s.Evaluate(asPoint(u));
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    double o = eval(deg, coord(orig, k), u);
    vp::check_eq(at(s, u, k), o, "elevated spline at u == original at u, coordinate " + vp::str(k));
    vp::check_eq(comp(e, k), o, "Evaluate of the elevated spline == original at u, coordinate " + vp::str(k));
  }
}
void vp_register() {
  for (auto d : vector<Idx<2>>{{8, 5}, {5, 9}, {14, 3}, {2, 15}, {20, 1}}) for (auto q : vector<vector<size_t>>{{0}, {1}, {0, 1, 1, 0}, {1, 1, 1, 1, 1}}) {
    std::string n; for (auto x : q) n += vp::str(x);
    large("elevate 2D degrees " + vp::str(d) + " along " + n, [d, q] { elevate<2, Pt<2>>(d, q); });
  }
  for (auto d : vector<Idx<3>>{{4, 3, 5}, {3, 5, 2}, {1, 7, 3}}) for (auto q : vector<vector<size_t>>{{0}, {1}, {2}, {2, 0, 1}, {1, 1, 0, 0}}) {
    std::string n; for (auto x : q) n += vp::str(x);
    large("elevate 3D degrees " + vp::str(d) + " along " + n, [d, q] { elevate<3, Pt<3>>(d, q); });
  }
  for (auto d : vector<Idx<4>>{{2, 1, 3, 2}, {1, 2, 2, 1}}) for (size_t k = 0; k < 4; k++) large("elevate 4D degrees " + vp::str(d) + " along " + vp::str(k), [d, k] { elevate<4, Pt<2>>(d, {k, 3 - k}); });
  for (size_t k = 0; k < 5; k++) large("elevate 5D along " + vp::str(k), [k] { elevate<5, double>({1, 2, 1, 0, 2}, {k}); });
  for (size_t n : {10, 15, 20}) large("elevate 1D degree " + vp::str(n) + " eight times", [n] { elevate<1, Pt<2>>({n}, {0, 0, 0, 0, 0, 0, 0, 0}); });
  for (size_t n = 0; n <= 27; n++) large("elevate 1D degree " + vp::str(n) + " up to 29", [n] { elevate<1, double>({n}, vector<size_t>(29 - n, 0)); });
  for (size_t n = 0; n <= 28; n++) vp::add("elevate 1D degree " + vp::str(n), 0, [n] { elevate<1, double>({n}, {0}); });
  for (size_t n : {0, 1, 2, 3, 5, 8}) vp::add("elevate 1D degree " + vp::str(n) + " three times", 0, [n] { elevate<1, Pt<2>>({n}, {0, 0, 0}); });
  for (auto d : degCombos<2>(0, 4)) for (auto q : vector<vector<size_t>>{{0}, {1}, {0, 1}, {1, 0}, {1, 1}, {0, 0}, {0, 1, 0}, {1, 0, 1}}) {
    std::string n; for (auto x : q) n += vp::str(x);
    vp::add("elevate 2D degrees " + vp::str(d) + " along " + n, d[0] <= 2 && d[1] <= 2 ? 0 : 1, [d, q] { elevate<2, Pt<2>>(d, q); });
  }
  for (auto d : degCombos<3>(0, 2)) for (auto q : vector<vector<size_t>>{{0}, {1}, {2}, {0, 1, 2}, {2, 1, 0}}) {
    std::string n; for (auto x : q) n += vp::str(x);
    vp::add("elevate 3D degrees " + vp::str(d) + " along " + n, q.size() == 1 || d[0] + d[1] + d[2] <= 3 ? 0 : 1, [d, q] { elevate<3, Pt<1>>(d, q); });
  }
  vp::add("elevate 4D", 0, [] { elevate<4, double>({1, 2, 1, 1}, {2, 0}); });
  vp::add("elevate 3D 1x3x2 point3", 0, [] { elevate<3, Pt<3>>({1, 3, 2}, {1, 2, 2}); });
}
