// Independent reference definitions (oracles) and builders of symbolic splines.
#ifndef VP_REF_HPP
#define VP_REF_HPP
#include <array>
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <vector>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "vp.hpp"

namespace ref {
using std::array;
using std::size_t;
using std::vector;
template <size_t D> using Idx = array<size_t, D>;

inline double binom(size_t n, size_t k) {
  if (k > n) return 0;
  static uint64_t t[64][64];
  static bool init = false;
  if (!init) {
    for (int i = 0; i < 62; i++) { t[i][0] = t[i][i] = 1; for (int j = 1; j < i; j++) t[i][j] = t[i - 1][j - 1] + t[i - 1][j]; }
    init = true;
  }
  return static_cast<double>(t[n][k]);
}
inline double ipow(double x, size_t k) {
  double r = 1;
  for (size_t i = 0; i < k; i++) r = r * x;
  return r;
}
inline double falling(size_t n, size_t k) {  // n (n-1) ... (n-k+1)
  double r = 1;
  for (size_t i = 0; i < k; i++) r *= static_cast<double>(n - i);
  return r;
}
inline double bern(size_t n, size_t i, double u) { return binom(n, i) * ipow(u, i) * ipow(1 - u, n - i); }
// k-th derivative of the Bernstein polynomial through its monomial expansion
inline double bernD(size_t n, size_t i, double u, size_t k) {
  double r = 0;
  for (size_t j = i; j <= n; j++) {
    if (j < k) continue;
    double c = binom(n, j) * binom(j, i) * falling(j, k);
    r = r + (((j - i) & 1) ? -c : c) * ipow(u, j - k);
  }
  return r;
}
template <size_t D> size_t count(const Idx<D> &deg) { size_t n = 1; for (auto d : deg) n *= d + 1; return n; }
template <size_t D> Idx<D> unrank(size_t l, const Idx<D> &deg) { Idx<D> r{}; for (size_t d = 0; d < D; d++) { r[d] = l % (deg[d] + 1); l /= deg[d] + 1; } return r; }
template <size_t D> size_t rank(const Idx<D> &ix, const Idx<D> &deg) { size_t r = 0, o = 1; for (size_t d = 0; d < D; d++) { r += o * ix[d]; o *= deg[d] + 1; } return r; }

template <size_t D> vector<double> basis(const Idx<D> &deg, const array<double, D> &u) {
  array<vector<double>, D> b;
  for (size_t d = 0; d < D; d++) for (size_t i = 0; i <= deg[d]; i++) b[d].push_back(bern(deg[d], i, u[d]));
  vector<double> r;
  for (size_t l = 0; l < count(deg); l++) { auto ix = unrank(l, deg); double v = 1; for (size_t d = 0; d < D; d++) v = v * b[d][ix[d]]; r.push_back(v); }
  return r;
}
template <size_t D> vector<double> basisD(const Idx<D> &deg, const array<double, D> &u, const Idx<D> &k) {
  array<vector<double>, D> b;
  for (size_t d = 0; d < D; d++) for (size_t i = 0; i <= deg[d]; i++) b[d].push_back(bernD(deg[d], i, u[d], k[d]));
  vector<double> r;
  for (size_t l = 0; l < count(deg); l++) { auto ix = unrank(l, deg); double v = 1; for (size_t d = 0; d < D; d++) v = v * b[d][ix[d]]; r.push_back(v); }
  return r;
}
inline double dot(const vector<double> &a, const vector<double> &b) { double r = 0; for (size_t i = 0; i < a.size(); i++) r = r + a[i] * b[i]; return r; }
template <size_t D> double eval(const Idx<D> &deg, const vector<double> &c, const array<double, D> &u) { return dot(basis(deg, u), c); }
template <size_t D> double evalD(const Idx<D> &deg, const vector<double> &c, const array<double, D> &u, const Idx<D> &k) { return dot(basisD(deg, u, k), c); }

// ---------------------------------------------------------------- library types
template <size_t S> using Pt = bezman::Point<S, double>;
template <size_t D, size_t S> using Poly = bezman::BezierSpline<D, Pt<S>, double>;
template <size_t D> using PolyS = bezman::BezierSpline<D, double, double>;
template <size_t D, size_t S> using Rat = bezman::RationalBezierSpline<D, Pt<S>, double>;
template <size_t D> using RatS = bezman::RationalBezierSpline<D, double, double>;

template <size_t S> double comp(const Pt<S> &p, size_t k) { return p[k]; }
inline double comp(const double &p, size_t) { return p; }
template <class P> struct dimOf;
template <size_t S> struct dimOf<Pt<S>> { static constexpr size_t value = S; };
template <> struct dimOf<double> { static constexpr size_t value = 1; };
template <class P> double &compRef(P &p, size_t k) { if constexpr (std::is_same_v<P, double>) return p; else return p[k]; }

// coordinate k of all control points
template <class Sp> vector<double> coord(const Sp &s, size_t k) { vector<double> r; for (const auto &p : s.GetControlPoints()) r.push_back(comp(p, k)); return r; }
template <class Sp> vector<double> wcoord(const Sp &s, size_t k) { vector<double> r; for (const auto &p : s.GetWeightedControlPoints()) r.push_back(comp(p, k)); return r; }

template <class P> P symPoint(const std::string &n) {
  P p{};
  for (size_t k = 0; k < dimOf<P>::value; k++) compRef(p, k) = vp::real(n + "_" + std::to_string(k));
  return p;
}
template <class P> P symPointIn(const std::string &n, double lo, double hi) {
  P p{};
  for (size_t k = 0; k < dimOf<P>::value; k++) compRef(p, k) = vp::real(n + "_" + std::to_string(k), lo, hi);
  return p;
}
template <size_t D, class P> bezman::BezierSpline<D, P, double> symSpline(const std::string &n, const Idx<D> &deg) {
  vector<P> c;
  for (size_t i = 0; i < count(deg); i++) c.push_back(symPoint<P>(n + std::to_string(i)));
  return bezman::BezierSpline<D, P, double>(deg, c);
}
template <size_t D, class P> bezman::BezierSpline<D, P, double> symSplineIn(const std::string &n, const Idx<D> &deg, double lo, double hi) {
  vector<P> c;
  for (size_t i = 0; i < count(deg); i++) c.push_back(symPointIn<P>(n + std::to_string(i), lo, hi));
  return bezman::BezierSpline<D, P, double>(deg, c);
}
// large shapes: the parameter (and the weights) are numbers, the control points stay symbolic
inline bool &fixU() { static bool b = false; return b; }
inline bool &fixW() { static bool b = false; return b; }
template <class F> void large(const std::string &name, F fn, int tier = 0) { vp::add(name + ", fixed parameter", tier, [fn] { fixU() = true; fn(); fixU() = false; }); }
template <class F> void largeW(const std::string &name, F fn, int tier = 0) { vp::add(name + ", fixed parameter and weights", tier, [fn] { fixU() = fixW() = true; fn(); fixU() = fixW() = false; }); }
// one interior parameter with different, exactly representable coordinates
template <size_t D> array<double, D> fixedU() { const double v[4] = {0.375, 0.8125, 0.1875, 0.5625}; array<double, D> u; for (size_t d = 0; d < D; d++) u[d] = v[d % 4]; return u; }
template <size_t D, class P> bezman::RationalBezierSpline<D, P, double> symRat(const std::string &n, const Idx<D> &deg) {
  vector<P> c;
  vector<double> w;
  for (size_t i = 0; i < count(deg); i++) { c.push_back(symPoint<P>(n + std::to_string(i))); w.push_back(fixW() ? 1 + double((i * 5 + n[0]) % 7) / 4 : vp::positive(n + "w" + std::to_string(i))); }
  return bezman::RationalBezierSpline<D, P, double>(bezman::BezierSpline<D, P, double>(deg, c), bezman::BezierSpline<D, double, double>(deg, w));
}
template <size_t D> array<double, D> symU(const std::string &n = "u") { if (fixU()) return fixedU<D>(); array<double, D> u; for (size_t d = 0; d < D; d++) u[d] = vp::unit(n + std::to_string(d)); return u; }
template <size_t D> array<double, D> symUopen(const std::string &n = "u") { if (fixU()) return fixedU<D>(); array<double, D> u; for (size_t d = 0; d < D; d++) u[d] = vp::real_open(n + std::to_string(d), 0, 1); return u; }
template <size_t D> Pt<D> asPoint(const array<double, D> &u) { Pt<D> p; for (size_t d = 0; d < D; d++) p[d] = u[d]; return p; }

template <class Sp, size_t D> void checkDegrees(const Sp &s, const Idx<D> &deg, const std::string &l) {
  bool ok = true;
  for (size_t d = 0; d < D; d++) ok = ok && s.GetDegrees()[d] == deg[d];
  vp::check(ok, l + ": degrees");
  if constexpr (true) {
    vp::check(s.GetNumberOfControlPoints() == count(deg), l + ": number of control points");
  }
}
// structure of a polynomial spline is self consistent
template <class Sp> bool wellFormed(const Sp &s) {
  size_t n = 1;
  bool ok = true;
  for (size_t d = 0; d < Sp::kParametricDimensions; d++) { ok = ok && s.index_offsets[d] == n; n *= s.GetDegrees()[d] + 1; }
  return ok && s.GetNumberOfControlPoints() == n && s.control_points.size() == n;
}
template <class Sp> bool ratWellFormed(const Sp &s) { return wellFormed(s.GetNumeratorSpline()) && wellFormed(s.GetWeightFunctionSpline()) && s.GetNumeratorSpline().GetDegrees() == s.GetWeightFunctionSpline().GetDegrees(); }
// the polynomial spline s equals sum_i c_i B_i(u) at u, component-wise with the given expected values
template <class Sp, class A> double at(const Sp &s, const A &u, size_t k) { return eval<Sp::kParametricDimensions>(s.GetDegrees(), coord(s, k), u); }
template <class Sp, class A> double atW(const Sp &s, const A &u) { return eval<Sp::kParametricDimensions>(s.GetDegrees(), s.GetWeightFunctionSpline().GetControlPoints(), u); }
template <class Sp, class A> double atN(const Sp &s, const A &u, size_t k) { return eval<Sp::kParametricDimensions>(s.GetDegrees(), coord(s.GetNumeratorSpline(), k), u); }

// all degree combinations with lo <= d <= hi
template <size_t D> vector<Idx<D>> degCombos(size_t lo, size_t hi) {
  vector<Idx<D>> r;
  Idx<D> span; span.fill(hi - lo);
  for (size_t l = 0; l < count(span); l++) { auto ix = unrank(l, span); for (auto &x : ix) x += lo; r.push_back(ix); }
  return r;
}
}  // namespace ref
#endif
namespace ref {
template <class F> bool throws(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
// inner rational function with control points in the unit cube and positive weights
template <size_t D, class P> bezman::RationalBezierSpline<D, P, double> symRatIn(const std::string &n, const Idx<D> &deg, double lo, double hi) {
  vector<P> c;
  vector<double> w;
  for (size_t i = 0; i < count(deg); i++) { c.push_back(symPointIn<P>(n + std::to_string(i), lo, hi)); w.push_back(vp::positive(n + "w" + std::to_string(i))); }
  return bezman::RationalBezierSpline<D, P, double>(deg, c, w);
}
// numbers (eighths, some 0 and 1) in the unit cube, and weights 1 .. 2.5
template <size_t D, class P> vector<P> numNet(const Idx<D> &deg) {
  vector<P> c;
  for (size_t i = 0; i < count(deg); i++) { P p{}; for (size_t k = 0; k < dimOf<P>::value; k++) compRef(p, k) = double((i * 3 + k * 5 + 1) % 9) / 8; c.push_back(p); }
  return c;
}
template <size_t D> vector<double> numWeights(const Idx<D> &deg) {
  vector<double> w;
  for (size_t i = 0; i < count(deg); i++) w.push_back(1 + double((i * 5 + 2) % 7) / 4);
  return w;
}
// value of a (rational) spline, split into numerator and denominator
template <class Sp> constexpr bool isRat = false;
template <size_t D, class P> constexpr bool isRat<bezman::RationalBezierSpline<D, P, double>> = true;
struct Q { vector<double> num; double den; };
template <class Sp, class A> Q frac(const Sp &s, const A &u) {
  Q q;
  constexpr size_t n = dimOf<typename Sp::PhysicalPointType_>::value;
  if constexpr (isRat<Sp>) {
    for (size_t k = 0; k < n; k++) q.num.push_back(atN(s, u, k));
    q.den = atW(s, u);
  } else {
    for (size_t k = 0; k < n; k++) q.num.push_back(at(s, u, k));
    q.den = 1;
  }
  return q;
}
}  // namespace ref
