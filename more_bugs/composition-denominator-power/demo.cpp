
#include <cmath>
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
using namespace bezman;
int main() {
  using P = Point<2, double>;
  BezierSpline<2, double, double> outer{std::array<std::size_t, 2>{1, 2}, std::vector<double>{1, 2, 3, -4, 5, 7}};
  RationalBezierSpline<1, P, double> inner{std::array<std::size_t, 1>{1}, std::vector<P>{P{0.25, 0.1}, P{0.5, 0.9}}, std::vector<double>{1, 2}};
  auto c = outer.Compose(inner);
  if (c.GetDegrees() != c.GetWeightFunctionSpline().GetDegrees()) return 2;
  for (double t : {0., 0.3, 0.8}) {
    const Point<1, double> p{t};
    if (std::abs(c.Evaluate(p) - outer.Evaluate(inner.Evaluate(p))) > 1e-9) return 1;
  }
  return 0;
}
