// helpers for differentiable numbers
#ifndef VP_AD_HPP
#define VP_AD_HPP
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <iostream>
#include <type_traits>
#include <vector>
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "vp.hpp"
namespace ad {
using std::size_t;
using std::vector;
template <class S, size_t N> using ADT = bezman::utils::computational_differentiation::AlgoDiffType<S, N>;
template <size_t N> using AD = ADT<double, N>;

template <size_t N> AD<N> constant(double v, size_t n) {
  if constexpr (N == 0) return AD<N>(v, n);
  else return AD<N>(v);
}
template <size_t N> AD<N> seed(double v, size_t n, size_t k) {
  if constexpr (N == 0) return AD<N>(v, n, k);
  else return AD<N>(v, k);
}
// value v, derivatives g: g is built from seeds
template <size_t N> AD<N> general(double v, const vector<double> &g) {
  auto r = constant<N>(v, g.size());
  for (size_t k = 0; k < g.size(); k++) r = r + seed<N>(0, g.size(), k) * g[k];
  return r;
}
struct Num { double v; vector<double> d; };
inline Num num(const std::string &n, size_t k, double lo = -vp::kInf, double hi = vp::kInf) {
  Num r{lo > -vp::kInf || hi < vp::kInf ? vp::real_open(n, lo, hi) : vp::real(n), {}};
  for (size_t i = 0; i < k; i++) r.d.push_back(vp::real(n + "_d" + vp::str(i)));
  return r;
}
template <size_t N> AD<N> make(const Num &n) { return general<N>(n.v, n.d); }
template <size_t N> void expect(const AD<N> &r, double v, const vector<double> &d, const std::string &l) {
  vp::check(r.GetNumberOfDerivatives() == d.size(), l + ": number of derivatives");
  const auto g = r.GetDerivatives();
  vp::check(g.size() == d.size(), l + ": size of the derivative vector");
  vp::check_eq(r.GetValue(), v, l + ": value");
  for (size_t i = 0; i < d.size() && i < g.size(); i++) vp::check_eq(g[i], d[i], l + ": derivative " + vp::str(i));
}
template <class F> vector<double> each(const Num &a, F f) { vector<double> r; for (auto x : a.d) r.push_back(f(x)); return r; }
template <class F> vector<double> each(const Num &a, const Num &b, F f) { vector<double> r; for (size_t i = 0; i < a.d.size(); i++) r.push_back(f(a.d[i], b.d[i])); return r; }
}  // namespace ad
#endif
