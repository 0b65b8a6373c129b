
#include <cmath>
#include "bezman/src/rational_bezier_spline.hpp"
using namespace bezman;
int main() {
  RationalBezierSpline<2, double, double> s{std::array<std::size_t, 2>{1, 1}, std::vector<double>{1, 2, -3, 4}, std::vector<double>{1, 2, 0.5, 3}};
  for (std::size_t a = 0; a < 3; a++)
    for (std::size_t b = 0; b < 3; b++) {
      const std::array<std::size_t, 2> o{a, b};
      const Point<2, double> p{0.3, 0.6};
      if (std::abs(s.DerivativeWRTParametricDimension(o).Evaluate(p) - s.EvaluateDerivative(p, o)) > 1e-7) return 1;
    }
  return 0;
}
