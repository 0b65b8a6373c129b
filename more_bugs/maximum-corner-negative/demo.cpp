
#include "bezman/src/bezier_spline.hpp"
using namespace bezman;
int main() {
  BezierSpline<1, Point<2, double>, double> s{std::array<std::size_t, 1>{1}, std::vector<Point<2, double>>{Point<2, double>{-3., 1.}, Point<2, double>{-2., 4.}}};
  const auto m = s.MaximumCorner();
  return (m[0] == -2. && m[1] == 4.) ? 0 : 1;
}
