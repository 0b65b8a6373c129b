
#include "bezman/src/bezier_spline.hpp"
using namespace bezman;
int main() {
  BezierSpline<2, double, double> a{std::array<std::size_t, 2>{1, 2}, std::vector<double>{1, 2, 3, 4, 5, 6}};
  BezierSpline<2, double, double> b{std::array<std::size_t, 2>{2, 1}, std::vector<double>{1, 2, 3, 4, 5, 6}};
  return a == b ? 1 : 0;
}
