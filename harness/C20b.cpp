// C20: index maps and indexed access for every (symbolic) multi-index, linear index and written value
#include <array>
#include <string>
#include <vector>
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "vp.hpp"
using std::size_t;
template <size_t D> using Idx = std::array<size_t, D>;
template <size_t D> using Sp = bezman::BezierSpline<D, int64_t, int64_t>;
template <size_t D> using Ra = bezman::RationalBezierSpline<D, int64_t, int64_t>;
template <size_t D> static size_t count(const Idx<D> &d) { size_t n = 1; for (auto x : d) n *= x + 1; return n; }
template <size_t D> static size_t rank(const Idx<D> &ix, const Idx<D> &d) { size_t r = 0, o = 1; for (size_t k = 0; k < D; k++) { r += o * ix[k]; o *= d[k] + 1; } return r; }
template <size_t D> static Idx<D> anyIndex(const Idx<D> &deg, const std::string &n) {
  Idx<D> ix{};
  for (size_t k = 0; k < D; k++) { ix[k] = vp::sym<uint16_t>(n + std::to_string(k)); vp::assume(ix[k] <= deg[k]); }
  return ix;
}
template <class S, size_t D> static void maps(const S &s, const Idx<D> &deg, const std::string &when) {
  const auto ix = anyIndex(deg, "i");
  const size_t l = s.GlobalToLocalIndex(ix);
  vp::check(l == rank(ix, deg), when + ": linear index, first direction fastest");
  const auto back = s.LocalToGlobalIndex(l);
  bool same = true;
  for (size_t k = 0; k < D; k++) same = same & (back[k] == ix[k]);
  vp::check(same, when + ": multi-index to linear index and back");
  const size_t m = vp::sym<uint16_t>("l");
  vp::assume(m < count(deg));
  const auto g = s.LocalToGlobalIndex(m);
  bool in = true;
  for (size_t k = 0; k < D; k++) in = in & (g[k] <= deg[k]);
  vp::check(in, when + ": multi-index within the degrees");
  vp::check(rank(g, deg) == m, when + ": linear index to multi-index, first direction fastest");
  vp::check(s.GlobalToLocalIndex(g) == m, when + ": linear index to multi-index and back");
}
template <size_t D> static std::vector<int64_t> values(const std::string &n, size_t c) {
  std::vector<int64_t> v;
  for (size_t i = 0; i < c; i++) v.push_back(vp::sym<int64_t>(n + std::to_string(i)));
  return v;
}
static bool same(const std::vector<int64_t> &a, const std::vector<int64_t> &b) {
  if (a.size() != b.size()) return false;
  uint64_t d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (uint64_t)a[i] ^ (uint64_t)b[i];
  return d == 0;
}
// the leading n entries
static bool same(const std::vector<int64_t> &a, const std::vector<int64_t> &b, size_t n) {
  if (a.size() != b.size()) return false;
  uint64_t d = 0;
  for (size_t i = 0; i < n; i++) d |= (uint64_t)a[i] ^ (uint64_t)b[i];
  return d == 0;
}
template <size_t D, class S, size_t... K> static auto &byIndices(S &s, const Idx<D> &ix, std::index_sequence<K...>) { return s.ControlPoint(ix[K]...); }
template <size_t D, class S, size_t... K> static auto &byIndicesP(S &s, const Idx<D> &ix, std::index_sequence<K...>) { return s.WeightedControlPoint(ix[K]...); }
template <size_t D, class S, size_t... K> static auto &byIndicesW(S &s, const Idx<D> &ix, std::index_sequence<K...>) { return s.Weight(ix[K]...); }
template <size_t D> static void poly(const Idx<D> &deg) {
  const auto seq = std::make_index_sequence<D>();
  const size_t n = count(deg);
  auto v = values<D>("c", n);
  Sp<D> s(deg, v);
  const Sp<D> &cs = s;
  maps(s, deg, "constructed");
  const auto ix = anyIndex(deg, "j");
  const size_t at = rank(ix, deg);
  vp::check(s.ControlPoint(ix) == v[at], "read by index array");
  vp::check(cs.ControlPoint(ix) == v[at], "read by index array from a const spline");
  vp::check(byIndices<D>(s, ix, seq) == v[at], "read by indices");
  vp::check(byIndices<D>(cs, ix, seq) == v[at], "read by indices from a const spline");
  const int64_t q = vp::sym<int64_t>("q"), r = vp::sym<int64_t>("r");
  s.ControlPoint(ix) = q;
  auto want = v;
  want[at] = q;
  vp::check(same(s.control_points, want), "write by index array reaches that control point only");
  const auto iy = anyIndex(deg, "k");
  byIndices<D>(s, iy, seq) = r;
  const size_t bt = rank(iy, deg);
  want[bt] = r;
  vp::check(same(s.GetControlPoints(), want), "write by indices reaches that control point only");
}
template <size_t D> static void rational(const Idx<D> &deg) {
  const auto seq = std::make_index_sequence<D>();
  const size_t n = count(deg);
  auto v = values<D>("c", n), w = values<D>("w", n);
  Ra<D> s(Sp<D>(deg, v), Sp<D>(deg, w));
  const Ra<D> &cs = s;
  maps(s, deg, "constructed rational");
  const auto ix = anyIndex(deg, "j"), iy = anyIndex(deg, "k");
  const size_t at = rank(ix, deg), bt = rank(iy, deg);
  vp::check(s.WeightedControlPoint(ix) == v[at] && cs.WeightedControlPoint(ix) == v[at], "weighted control point by index array");
  vp::check(byIndicesP<D>(s, ix, seq) == v[at] && byIndicesP<D>(cs, ix, seq) == v[at], "weighted control point by indices");
  vp::check(s.Weight(ix) == w[at] && cs.Weight(ix) == w[at], "weight by index array");
  vp::check(byIndicesW<D>(s, ix, seq) == w[at] && byIndicesW<D>(cs, ix, seq) == w[at], "weight by indices");
  const int64_t q = vp::sym<int64_t>("q"), r = vp::sym<int64_t>("r");
  s.WeightedControlPoint(ix) = q;
  s.Weight(iy) = r;
  auto wantP = v, wantW = w;
  wantP[at] = q;
  wantW[bt] = r;
  vp::check(same(s.GetWeightedControlPoints(), wantP) && same(s.GetWeights(), wantW), "write by index array reaches that entry only");
  byIndicesP<D>(s, iy, seq) = r;
  byIndicesW<D>(s, ix, seq) = q;
  wantP[bt] = r;
  wantW[at] = q;
  vp::check(same(s.GetNumeratorSpline().GetControlPoints(), wantP) && same(s.GetWeightFunctionSpline().GetControlPoints(), wantW), "write by indices reaches that entry only");
}
// every way to obtain a spline of degrees `deg` from one of degrees `from`
template <size_t D> static void updated(const Idx<D> &from, const Idx<D> &deg) {
  const size_t n = count(deg), m = count(from);
  auto v = values<D>("c", m);
  Sp<D> s(from, v);
  s.UpdateDegrees(deg);
  maps(s, deg, "updated degrees");
  vp::check(s.GetDegrees() == deg && s.GetNumberOfControlPoints() == n && s.GetControlPoints().size() == n, "updated degrees: structure");
  const auto ix = anyIndex(deg, "j");
  const size_t at = rank(ix, deg);
  const int64_t q = vp::sym<int64_t>("q");
  s.ControlPoint(ix) = q;
  auto want = v;
  want.resize(n);
  want[at] = q;
  vp::check(s.control_points[at] == q && same(s.control_points, want, m < n ? m : n), "updated degrees: write by index reaches that control point only");
  Ra<D> r(Sp<D>(from, v), Sp<D>(from, v));
  r.UpdateDegrees(deg);
  maps(r, deg, "updated degrees of a rational spline");
  r.WeightedControlPoint(ix) = q;
  r.Weight(ix) = q;
  vp::check(r.GetWeightedControlPoints().size() == n && r.GetWeights().size() == n && r.GetWeightedControlPoints()[at] == q && r.GetWeights()[at] == q, "updated degrees of a rational spline: write by index");
  // assigned, copied, default constructed then updated
  Sp<D> a(from, v);
  a = s;
  maps(a, deg, "assigned");
  vp::check(a.ControlPoint(ix) == q, "assigned: read by index");
  Sp<D> b(from, v), t(s);
  b = std::move(t);
  maps(b, deg, "move assigned");
  vp::check(b.ControlPoint(ix) == q, "move assigned: read by index");
  Sp<D> e;
  e.UpdateDegrees(deg);
  maps(e, deg, "default constructed, degrees updated");
  Sp<D> z(deg);
  maps(z, deg, "constructed from degrees");
  z.ControlPoint(ix) = q;
  std::vector<int64_t> zero(n);
  zero[at] = q;
  vp::check(same(z.control_points, zero), "constructed from degrees: write by index reaches that control point only");
  const Ra<D> rz(deg);
  maps(rz, deg, "rational constructed from degrees");
}
// large splines: index maps for any index, and one written control point
template <size_t D> static void big(const Idx<D> &deg) {
  vp::add(std::to_string(D) + "D " + vp::str(deg) + ": any index, large", 0, [=] {
    const size_t n = count(deg);
    std::vector<int64_t> v;
    for (size_t i = 0; i < n; i++) v.push_back((int64_t)(i * 5 + 3));
    Sp<D> s(deg, v);
    maps(s, deg, "constructed");
    const auto ix = anyIndex(deg, "j");
    const size_t at = rank(ix, deg);
    vp::check(s.ControlPoint(ix) == (int64_t)(at * 5 + 3), "read by index array");
    vp::check(byIndices<D>(s, ix, std::make_index_sequence<D>()) == (int64_t)(at * 5 + 3), "read by indices");
    Ra<D> r(deg);
    maps(r, deg, "rational constructed from degrees");
    Sp<D> u;
    u.UpdateDegrees(deg);
    maps(u, deg, "updated degrees");
    vp::check(u.GetNumberOfControlPoints() == n && u.control_points.size() == n, "updated degrees: structure");
  });
}
// more control points than fit into 16 bits: index maps only
template <size_t D> static void huge(const Idx<D> &deg) {
  vp::add(std::to_string(D) + "D " + vp::str(deg) + ": any index, huge", 0, [=] {
    Sp<D> s(deg);
    Idx<D> ix{};
    for (size_t k = 0; k < D; k++) { ix[k] = vp::sym<uint32_t>("i" + std::to_string(k)); vp::assume(ix[k] <= deg[k]); }
    vp::check(s.GetNumberOfControlPoints() == count(deg), "number of control points");
    const size_t l = s.GlobalToLocalIndex(ix);
    vp::check(l == rank(ix, deg), "linear index, first direction fastest");
    const auto back = s.LocalToGlobalIndex(l);
    bool same = true;
    for (size_t k = 0; k < D; k++) same = same & (back[k] == ix[k]);
    vp::check(same, "multi-index to linear index and back");
    vp::check(&s.ControlPoint(deg) == &s.control_points[count(deg) - 1], "last control point");
  });
}
template <size_t D> static std::vector<Idx<D>> shapes(size_t hi) {
  std::vector<Idx<D>> r;
  Idx<D> span;
  span.fill(hi);
  for (size_t l = 0; l < count(span); l++) { Idx<D> d; size_t m = l; for (size_t k = 0; k < D; k++) { d[k] = m % (hi + 1); m /= hi + 1; } r.push_back(d); }
  return r;
}
template <size_t D> static void any(size_t hi, size_t quick) {
  for (const auto &d : shapes<D>(hi)) {
    vp::add(std::to_string(D) + "D " + vp::str(d) + ": any index, polynomial", count(d) > quick, [=] { poly<D>(d); });
    vp::add(std::to_string(D) + "D " + vp::str(d) + ": any index, rational", count(d) > quick, [=] { rational<D>(d); });
  }
}
template <size_t D> static void anyUpdate(size_t hi, size_t quick) {
  for (const auto &f : shapes<D>(hi)) for (const auto &d : shapes<D>(hi))
    vp::add(std::to_string(D) + "D " + vp::str(f) + " updated to " + vp::str(d) + ": any index", (count(d) > count(f) ? count(d) : count(f)) > quick, [=] { updated<D>(f, d); });
}
void vp_register() {
  any<1>(12, 8);
  any<2>(4, 12);
  any<3>(2, 12);
  any<4>(1, 16);
  big<1>({29}); big<1>({127}); big<1>({128}); big<1>({255}); big<1>({256}); big<1>({300});
  big<2>({15, 15}); big<2>({16, 16}); big<2>({29, 3}); big<2>({3, 29}); big<2>({19, 13});
  big<3>({6, 6, 6}); big<3>({15, 3, 3}); big<3>({2, 9, 8});
  big<4>({3, 3, 3, 3}); big<4>({4, 3, 5, 2});
  huge<1>({70000}); huge<2>({299, 230}); huge<2>({2, 30000}); huge<2>({30000, 2}); huge<3>({49, 39, 40}); huge<4>({16, 16, 16, 16});
  anyUpdate<1>(4, 4);
  anyUpdate<2>(2, 6);
  anyUpdate<3>(1, 4);
}
