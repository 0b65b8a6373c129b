
#include <cmath>
#include "bezman/src/bezier_spline.hpp"
using namespace bezman;
int main() {
  BezierSpline<1, double, double> s{std::array<std::size_t, 1>{2}, std::vector<double>{1, 5, -2}};
  std::vector<double> at{0.2, 0.4, 0.5, 0.9};
  auto parts = s.SplitAtPosition(at, 0);
  at.insert(at.begin(), 0.);
  at.push_back(1.);
  if (parts.size() + 1 != at.size()) return 1;
  for (std::size_t i = 0; i < parts.size(); i++)
    for (double t : {0., 0.5, 1.})
      if (std::abs(parts[i].Evaluate(Point<1, double>{t}) - s.Evaluate(Point<1, double>{at[i] + t * (at[i + 1] - at[i])})) > 1e-12) return 1;
  return 0;
}
