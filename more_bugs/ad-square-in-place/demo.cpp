
#include <cmath>
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
using AD = bezman::utils::computational_differentiation::AlgoDiffType<double, 1>;
int main() {
  AD x{3., 0};
  x *= x;
  return std::abs(x.GetValue() - 9.) < 1e-12 && std::abs(x.GetDerivatives()[0] - 6.) < 1e-12 ? 0 : 1;
}
