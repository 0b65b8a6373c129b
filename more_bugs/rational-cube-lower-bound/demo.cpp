
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
using namespace bezman;
int main() {
  BezierSpline<1, double, double> outer{std::array<std::size_t, 1>{1}, std::vector<double>{1, 2}};
  RationalBezierSpline<1, double, double> inner{std::array<std::size_t, 1>{1}, std::vector<double>{0.25, 1.5}, std::vector<double>{1, 2}};
  try {
    outer.Compose(inner);
  } catch (const std::exception &) {
    return 0;
  }
  return 1;
}
