// tensor combination of factor lists
#include "ref.hpp"
#include "bezman/src/utils/algorithms/recursive_combine.hpp"
using namespace ref;
template <size_t D> void combine1(const Idx<D> &sizes, const std::string &call) {
  array<vector<double>, D> f;
  for (size_t d = 0; d < D; d++) for (size_t i = 0; i < sizes[d]; i++) f[d].push_back(vp::real(call + "f" + vp::str(d) + "_" + vp::str(i)));
  const auto g = f;
  const vector<double> r = bezman::utils::algorithms::RecursiveCombine(f);
  size_t n = 1;
  for (auto s : sizes) n *= s;
  vp::check(r.size() == n, "one product per combination");
  for (size_t l = 0; l < n && l < r.size(); l++) {
    size_t q = l;
    double v = 1;
    for (size_t d = 0; d < D; d++) { v = v * g[d][q % sizes[d]]; q /= sizes[d]; }
    vp::check_eq(r[l], v, "product " + vp::str(l) + ", first list fastest");
  }
  for (size_t d = 0; d < D; d++) { vp::check(f[d].size() == sizes[d], "lists keep their length"); for (size_t i = 0; i < sizes[d]; i++) vp::check_eq(f[d][i], g[d][i], "lists keep their entries"); }
}
// every call on lists of its own: the first, a second one of the same lengths, and one of other lengths in between
template <size_t D> void combine(const Idx<D> &sizes, bool often = true) {
  combine1(sizes, "");
  if (!often) return;
  Idx<D> turned;
  for (size_t d = 0; d < D; d++) turned[d] = sizes[D - 1 - d];
  combine1(turned, "turned ");
  combine1(sizes, "again ");
}
void vp_register() {
  for (size_t n = 1; n <= 12; n++) vp::add("1 list " + vp::str(n), 0, [n] { combine<1>({n}); });
  for (auto s : degCombos<2>(1, 5)) vp::add("2 lists " + vp::str(s), 0, [s] { combine<2>(s); });
  for (auto s : degCombos<3>(1, 4)) vp::add("3 lists " + vp::str(s), 0, [s] { combine<3>(s); });
  for (auto s : degCombos<4>(1, 3)) vp::add("4 lists " + vp::str(s), 0, [s] { combine<4>(s); });
  for (size_t n : {0, 17, 31, 33, 64, 100}) vp::add("1 list " + vp::str(n), 0, [n] { combine<1>({n}); });
  for (auto s : vector<Idx<2>>{{0, 0}, {0, 3}, {3, 0}, {17, 3}, {3, 17}, {30, 2}, {2, 30}, {9, 9}, {16, 16}, {20, 13}}) vp::add("2 lists " + vp::str(s), 0, [s] { combine<2>(s); });
  for (auto s : vector<Idx<3>>{{0, 1, 1}, {2, 0, 2}, {2, 2, 0}, {8, 2, 3}, {2, 9, 2}, {3, 2, 10}, {7, 6, 7}}) vp::add("3 lists " + vp::str(s), 0, [s] { combine<3>(s); });
  for (auto s : vector<Idx<6>>{{2, 2, 2, 2, 2, 2}, {1, 2, 3, 1, 2, 2}, {2, 1, 2, 1, 3, 2}}) vp::add("6 lists " + vp::str(s), 0, [s] { combine<6>(s); });
  for (auto s : vector<Idx<3>>{{17, 17, 17}, {16, 16, 17}, {40, 30, 2}}) vp::add("3 lists " + vp::str(s), 0, [s] { combine<3>(s, false); });
  vp::add("2 lists 70x70", 0, [] { combine<2>({70, 70}, false); });
  vp::add("4 lists 9x8x8x9", 0, [] { combine<4>({9, 8, 8, 9}, false); });
  for (auto s : degCombos<5>(1, 2)) vp::add("5 lists " + vp::str(s), 0, [s] { combine<5>(s); });
}
