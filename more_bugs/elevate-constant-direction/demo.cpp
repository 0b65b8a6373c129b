
#include <cmath>
#include "bezman/src/bezier_spline.hpp"
using namespace bezman;
int main() {
  for (std::size_t dir = 0; dir < 2; dir++) {
    std::array<std::size_t, 2> deg{};
    deg[dir] = 0;
    deg[1 - dir] = 2;
    BezierSpline<2, double, double> s{deg, std::vector<double>{1, 5, -2}};
    auto e = s;
    e.OrderElevateAlongParametricDimension(dir);
    for (double u : {0., 0.3, 0.9})
      for (double v : {0.1, 0.5, 1.})
        if (std::abs(e.Evaluate(Point<2, double>{u, v}) - s.Evaluate(Point<2, double>{u, v})) > 1e-12) return 1;
  }
  return 0;
}
