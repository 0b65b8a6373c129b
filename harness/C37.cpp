// C37: requests that cannot be met raise an error, all others are met
#include "vp.hpp"
#include "io.hpp"
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "io_end.hpp"
using std::size_t;
template <size_t D> using Idx = std::array<size_t, D>;
template <size_t D> static size_t count(const Idx<D> &d) { size_t n = 1; for (auto x : d) n *= x + 1; return n; }
template <size_t M> using P = bezman::Point<M, int64_t>;
static void quiet() { bezman::utils::Logger::SetOutputLevel(vp::sym<unsigned>("level") & 3); }
template <class F> static bool raises(F f) {
  try {
    f();
    return false;
  } catch (const std::exception &) {
    return true;
  }
}
template <size_t M> static std::vector<P<M>> points(size_t n) {
  std::vector<P<M>> v(n);
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < M; k++) v[i][k] = vp::sym<int64_t>("c" + std::to_string(i) + "." + std::to_string(k));
  return v;
}
static std::vector<int64_t> numbers(const std::string &n, size_t c) {
  std::vector<int64_t> v;
  for (size_t i = 0; i < c; i++) v.push_back(vp::sym<int64_t>(n + std::to_string(i)));
  return v;
}
// any coordinate: extracted if there is one, refused otherwise
template <size_t D, size_t M> static void extract(const Idx<D> &deg) {
  quiet();
  const auto v = points<M>(count(deg));
  const bezman::BezierSpline<D, P<M>, int64_t> s(deg, v);
  const size_t k = vp::sym<uint64_t>("dimension");
  bool right = true;
  const bool r = raises([&] {
    const auto e = s.ExtractDimension(k);
    right = e.GetDegrees() == deg && e.control_points.size() == v.size();
    uint64_t d = 0;
    for (size_t i = 0; right && i < v.size() && k < M; i++) d |= (uint64_t)e.control_points[i] ^ (uint64_t)v[i][k];
    right = right & (d == 0);
  });
  vp::check(r == (k >= M), "a coordinate is extracted exactly if the points have it");
  vp::check(right, "the extracted coordinate");
  uint64_t d = 0;
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < M; j++) d |= (uint64_t)s.control_points[i][j] ^ (uint64_t)v[i][j];
  vp::check(d == 0 && s.GetDegrees() == deg, "the spline is unchanged");
}
template <size_t D> static void extractScalar(const Idx<D> &deg) {
  quiet();
  const auto v = numbers("c", count(deg));
  const bezman::BezierSpline<D, int64_t, int64_t> s(deg, v);
  const size_t k = vp::sym<uint64_t>("dimension");
  bool right = true;
  const bool r = raises([&] { right = s.ExtractDimension(k) == s; });
  vp::check(r == (k != 0), "a scalar spline has one coordinate");
  vp::check(right, "the extracted coordinate");
}
// powers of vector-valued splines are undefined, whatever the exponent
template <size_t D, size_t M> static void power(const Idx<D> &deg) {
  quiet();
  const bezman::BezierSpline<D, P<M>, int64_t> s(deg, points<M>(count(deg)));
  const size_t e = vp::sym<uint64_t>("exponent");
  vp::check(raises([&] { (void)s.RaisePower(e); }), "no power of a vector-valued spline");
}
// splines without control points have no corners
template <class S> static void corners(const S &s, bool expected, const std::string &when) {
  vp::check(raises([&] { (void)s.MaximumCorner(); }) == expected, when + ": maximum corner");
  vp::check(raises([&] { (void)s.MinimumCorner(); }) == expected, when + ": minimum corner");
}
template <size_t D> static void empty() {
  quiet();
  using S = bezman::BezierSpline<D, P<2>, int64_t>;
  using N = bezman::BezierSpline<D, int64_t, int64_t>;
  using R = bezman::RationalBezierSpline<D, P<2>, int64_t>;
  corners(S{}, true, "no control points");
  corners(N{}, true, "no control points, scalar");
  corners(R{}, true, "no control points, rational");
  S s{};
  s.UpdateDegrees(Idx<D>{});
  corners(s, false, "after the degrees are set");
  s = S{};
  corners(s, true, "after an empty spline is assigned");
  corners(S(Idx<D>{}), false, "degree zero");
  N n(Idx<D>{}, numbers("n", 1));
  corners(n, false, "degree zero, scalar");
  n = N{};
  corners(n, true, "after an empty spline is assigned, scalar");
}
// an error is an exception with a text, at any output level
template <size_t D> static void levels() {
  bezman::utils::Logger::SetOutputLevel(vp::sym<unsigned>("level"));
  using S = bezman::BezierSpline<D, P<2>, int64_t>;
  const S s(Idx<D>{}, points<2>(1));
  bool text = false;
  try {
    (void)s.ExtractDimension(2);
  } catch (const std::runtime_error &e) {
    text = e.what()[0] != 0;
  }
  vp::check(text, "the error is a runtime error with a text at every output level");
}
void vp_register() {
  for (size_t n = 0; n <= 3; n++) {
    vp::add("coordinate of 1D degree " + vp::str(n) + " point1", 0, [n] { extract<1, 1>({n}); });
    vp::add("coordinate of 1D degree " + vp::str(n) + " point2", 0, [n] { extract<1, 2>({n}); });
    vp::add("coordinate of 1D degree " + vp::str(n) + " point3", 0, [n] { extract<1, 3>({n}); });
    vp::add("coordinate of 1D degree " + vp::str(n) + " point5", 0, [n] { extract<1, 5>({n}); });
    vp::add("coordinate of 1D degree " + vp::str(n) + " scalar", 0, [n] { extractScalar<1>({n}); });
    vp::add("power of 1D degree " + vp::str(n) + " point1", 0, [n] { power<1, 1>({n}); });
    vp::add("power of 1D degree " + vp::str(n) + " point3", 0, [n] { power<1, 3>({n}); });
  }
  vp::add("coordinate of 2D 2x1 point3", 0, [] { extract<2, 3>({2, 1}); });
  vp::add("coordinate of 2D 1x3 point4", 0, [] { extract<2, 4>({1, 3}); });
  vp::add("coordinate of 3D 1x2x1 point2", 0, [] { extract<3, 2>({1, 2, 1}); });
  vp::add("coordinate of 2D 2x1 scalar", 0, [] { extractScalar<2>({2, 1}); });
  vp::add("coordinate of 1D degree 29 point2", 0, [] { extract<1, 2>({29}); });
  vp::add("power of 2D 2x1 point2", 0, [] { power<2, 2>({2, 1}); });
  vp::add("corners 1D", 0, [] { empty<1>(); });
  vp::add("corners 2D", 0, [] { empty<2>(); });
  vp::add("corners 3D", 0, [] { empty<3>(); });
  vp::add("any output level 1D", 0, [] { levels<1>(); });
  vp::add("any output level 2D", 0, [] { levels<2>(); });
}
