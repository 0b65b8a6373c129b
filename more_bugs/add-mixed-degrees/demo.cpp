
#include <cmath>
#include "bezman/src/bezier_spline.hpp"
using namespace bezman;
int main() {
  BezierSpline<2, double, double> a{std::array<std::size_t, 2>{2, 1}, std::vector<double>{1, 2, 3, 4, 5, 7}};
  BezierSpline<2, double, double> b{std::array<std::size_t, 2>{1, 1}, std::vector<double>{-1, 4, 0, 8}};
  auto c = a + b;
  for (double u : {0., 0.3, 1.})
    for (double v : {0., 0.4, 1.}) {
      Point<2, double> p{u, v};
      if (std::abs(c.Evaluate(p) - a.Evaluate(p) - b.Evaluate(p)) > 1e-12) return 1;
    }
  return 0;
}
