// structural invariants, untouched operands, operands that alias the object, equality
#include "ref.hpp"
using namespace ref;
template <class S> vector<double> flat(const S &s) {
  vector<double> r;
  constexpr size_t n = dimOf<typename S::PhysicalPointType_>::value;
  if constexpr (isRat<S>) {
    for (const auto &p : s.GetWeightedControlPoints()) for (size_t k = 0; k < n; k++) r.push_back(comp(p, k));
    for (auto w : s.GetWeights()) r.push_back(w);
  } else for (const auto &p : s.GetControlPoints()) for (size_t k = 0; k < n; k++) r.push_back(comp(p, k));
  return r;
}
template <class S> bool formed(const S &s) { if constexpr (isRat<S>) return ratWellFormed(s); else return wellFormed(s); }
template <class S> void same(const S &a, const S &b, const std::string &l) {
  vp::check(formed(a) && a.GetDegrees() == b.GetDegrees(), l + ": structure");
  auto x = flat(a), y = flat(b);
  vp::check(x.size() == y.size(), l + ": size");
  for (size_t i = 0; i < x.size() && i < y.size(); i++) vp::check_eq(x[i], y[i], l + ": entry " + vp::str(i));
}
// evaluates f twice, once on operands that are kept aside, and compares the operands afterwards
template <class A, class F> void kept(const A &a, const std::string &n, F f) {
  const A before = a;
  f(a);
  same(a, before, n + " leaves its operand unchanged");
}
template <bool R, size_t D, class P> auto mk(const std::string &n, const Idx<D> &d) { if constexpr (R) return symRat<D, P>(n, d); else return symSpline<D, P>(n, d); }
template <bool R, size_t D, class P> auto mkIn(const std::string &n, const Idx<D> &d) { if constexpr (R) return symRatIn<D, P>(n, d, 0, 1); else return symSplineIn<D, P>(n, d, 0, 1); }

template <bool R, size_t D, class P> void operands(const Idx<D> &da, const Idx<D> &db) {
  const auto a = mk<R, D, P>("a", da), b = mk<R, D, P>("b", db);
  const P p = symPoint<P>("p");
  auto u = symUopen<D>();
  kept(a, "sum (left)", [&](auto &x) { (void)(x + b); });
  kept(b, "sum (right)", [&](auto &x) { (void)(a + x); });
  kept(a, "difference (left)", [&](auto &x) { (void)(x - b); });
  kept(b, "difference (right)", [&](auto &x) { (void)(a - x); });
  kept(a, "product (left)", [&](auto &x) { (void)(x * b); });
  kept(b, "product (right)", [&](auto &x) { (void)(a * x); });
  kept(b, "compound sum (right)", [&](auto &x) { auto t = a; t += x; });
  kept(b, "compound difference (right)", [&](auto &x) { auto t = a; t -= x; });
  kept(a, "shift", [&](auto &x) { (void)(x + p); (void)(x - p); (void)(-x); });
  kept(a, "evaluation", [&](auto &x) { (void)x.Evaluate(asPoint(u)); (void)x.ForwardEvaluate(asPoint(u)); (void)x.BasisFunctions(asPoint(u)); });
  kept(a, "bounds", [&](auto &x) { if (count(da) <= 4) { (void)x.MaximumCorner(); } });
  Idx<D> o{};
  for (size_t d = 0; d < D; d++) {
    o.fill(0); o[d] = 1;
    kept(a, "derivative", [&](auto &x) { (void)x.DerivativeWRTParametricDimension(o); (void)x.EvaluateDerivative(asPoint(u), o); });
    kept(a, "split", [&](auto &x) { (void)x.SplitAtPosition(0.5, d); (void)x.SplitAtPosition(vector<double>{0.25, 0.75}, d); });
    // a copy is independent of its source
    kept(a, "elevation of a copy", [&](auto &x) { auto t = x; t.OrderElevateAlongParametricDimension(d); });
  }
  kept(a, "changing a copy", [&](auto &x) { auto t = x; t += p; });
}
template <bool RO, bool RI> void composeOperands() {
  const auto o = mk<RO, 2, Pt<2>>("o", {1, 1});
  const auto in = mkIn<RI, 1, Pt<2>>("i", {1});
  kept(o, "composition (outer)", [&](auto &x) { (void)x.Compose(in); });
  kept(in, "composition (inner)", [&](auto &x) { (void)o.Compose(x); });
  kept(o, "sensitivity (outer)", [&](auto &x) { (void)x.ComposeSensitivity(in); });
  kept(in, "sensitivity (inner)", [&](auto &x) { (void)o.ComposeSensitivity(x); });
}
// operand is the object itself
template <bool R, size_t D, class P> void selfOps(const Idx<D> &deg) {
  const auto a = mk<R, D, P>("a", deg);
  const auto c = a;
  same(a + a, a + c, "s + s");
  same(a - a, a - c, "s - s");
  same(a * a, a * c, "s * s");
  { auto x = a; x += x; auto y = a; y += c; same(x, y, "s += s"); }
  { auto x = a; x -= x; auto y = a; y -= c; same(x, y, "s -= s"); }
  { auto x = a; auto &z = x; x = z; same(x, a, "s = s"); }
  { auto x = a; x = x + x; same(x, a + c, "s = s + s"); }
  { auto x = a; x = -x; same(x, -c, "s = -s"); }
}
// operand is one of the object's own entries
template <bool R, size_t D, class P> void ownEntry(const Idx<D> &deg, size_t i) {
  const auto a = mk<R, D, P>("a", deg);
  auto pts = [](auto &s) -> vector<P> & { if constexpr (R) return s.GetWeightedControlPoints(); else return s.GetControlPoints(); };
  auto t = a;
  const P p = pts(t)[i];
  { auto x = a; x += pts(x)[i]; auto y = a; y += p; same(x, y, "shift by an own control point"); }
  { auto x = a; x -= pts(x)[i]; auto y = a; y -= p; same(x, y, "negative shift by an own control point"); }
  { auto x = a; same(x + pts(x)[i], a + p, "shifted copy by an own control point"); }
  { auto x = a; same(x - pts(x)[i], a - p, "negatively shifted copy by an own control point"); }
  if constexpr (R) {
    const double w = a.GetWeights()[i];
    if constexpr (!std::is_same_v<P, double>) {
      { auto x = a; x *= x.GetWeights()[i]; auto y = a; y *= w; same(x, y, "scaling by an own weight"); }
      { auto x = a; x *= x.GetWeightedControlPoints()[i][0]; auto y = a; y *= p[0]; same(x, y, "scaling by an own coordinate"); }
    }
  } else {
    if constexpr (!std::is_same_v<P, double>) {
      { auto x = a; x *= x.control_points[i][0]; auto y = a; y *= comp(p, 0); same(x, y, "scaling by an own coordinate"); }
      { auto x = a; same(x * x.control_points[i][0], a * comp(p, 0), "scaled copy by an own coordinate"); }
    } else {
      { auto x = a; x *= x.control_points[i]; auto y = a; y *= p; same(x, y, "scaling by an own control point"); }
    }
    for (size_t j = 0; j < count(deg); j++) {
      const P q = t.control_points[j];
      auto x = a; x.TransposeAndScale(x.control_points[i], x.control_points[j]);
      auto y = a; y.TransposeAndScale(p, q);
      same(x, y, "transposing and scaling by own control points " + vp::str(i) + "," + vp::str(j));
    }
  }
}
// equality
template <size_t D, class P> void equality(const Idx<D> &deg, size_t at, size_t k) {
  const auto a = symSpline<D, P>("a", deg);
  const auto b = a;
  vp::check(a == b, "a copy equals its source");
  auto c = a;
  compRef(c.control_points[at], k) = vp::real("x");
  vp::assume_ne(comp(c.control_points[at], k), comp(a.control_points[at], k));
  vp::check(!(a == c) && !(c == a), "a spline with one different coordinate is different");
  auto e = a;
  e.OrderElevateAlongParametricDimension(D - 1);
  vp::check(!(a == e) && !(e == a), "splines of different degrees are different");
}
// constructors and degree updates keep the storage consistent
template <size_t D, class P> void construction(const Idx<D> &deg, const Idx<D> &next) {
  const bezman::BezierSpline<D, P, double> z(deg);
  vp::check(wellFormed(z) && z.GetDegrees() == deg, "construction from degrees");
  for (double v : flat(z)) vp::check_eq(v, 0, "control points start at zero");
  auto s = symSpline<D, P>("c", deg);
  vp::check(wellFormed(s) && s.GetDegrees() == deg, "construction from control points");
  const auto old = s;
  s.UpdateDegrees(next);
  vp::check(wellFormed(s) && s.GetDegrees() == next, "degree update");
  vp::check(s.GetControlPoints().size() == count(next), "degree update resizes the storage");
  for (size_t i = 0; i < count(next) && i < count(deg); i++) for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(comp(s.control_points[i], k), comp(old.control_points[i], k), "degree update keeps the leading entries");
  auto r = symRat<D, P>("r", deg);
  r.UpdateDegrees(next);
  vp::check(ratWellFormed(r) && r.GetDegrees() == next, "degree update of a rational spline");
  const bezman::RationalBezierSpline<D, P, double> rz(deg);
  vp::check(ratWellFormed(rz) && rz.GetDegrees() == deg, "rational construction from degrees");
  s = old;
  same(s, old, "assignment");
  auto m = old;
  bezman::BezierSpline<D, P, double> t;
  t = std::move(m);
  same(t, old, "move assignment");
}
// what is assigned or copied arrives completely, and the source is left alone
template <bool R, size_t D, class P> void assignments(const Idx<D> &da, const Idx<D> &db) {
  const auto a = mk<R, D, P>("a", da), b = mk<R, D, P>("b", db);
  auto x = a;
  auto &r = (x = b);
  vp::check(&r == &x, "assignment returns its target");
  same(x, b, "assigned");
  auto y = b;
  y = std::move(x);
  same(y, b, "move assigned from equal degrees");
  auto z = a;
  auto t = b;
  z = std::move(t);
  same(z, b, "move assigned");
  const auto c(b);
  same(c, b, "copy constructed");
  auto d = b;
  const auto e(std::move(d));
  same(e, b, "move constructed");
  std::vector<std::decay_t<decltype(b)>> v{a, b};
  std::swap(v[0], v[1]);
  same(v[0], b, "swapped (first)");
  same(v[1], a, "swapped (second)");
  v.insert(v.begin(), a);
  v[2] = v[1];
  same(v[2], b, "assigned within a vector");
  same(v[0], a, "inserted into a vector");
  // the target does not share anything with its source
  v[2] += symPoint<P>("p");
  same(v[1], b, "source of an assignment after its target has changed");
}
template <size_t D, class P> void group(const Idx<D> &a, const Idx<D> &b) {
  const std::string n = std::to_string(D) + "D " + vp::str(a) + " in " + vp::str(dimOf<P>::value) + (std::is_same_v<P, double> ? " scalar" : "");
  if constexpr (!std::is_same_v<P, double>) {
    vp::add("operands polynomial " + n + " and " + vp::str(b), 0, [=] { operands<false, D, P>(a, b); });
    vp::add("operands rational " + n + " and " + vp::str(b), 0, [=] { operands<true, D, P>(a, b); });
  }
  vp::add("self operations polynomial " + n, 0, [=] { selfOps<false, D, P>(a); });
  vp::add("self operations rational " + n, 0, [=] { selfOps<true, D, P>(a); });
  for (size_t i = 0; i < count(a); i++) {
    vp::add("own entry " + vp::str(i) + " polynomial " + n, 0, [=] { ownEntry<false, D, P>(a, i); });
    vp::add("own entry " + vp::str(i) + " rational " + n, 0, [=] { ownEntry<true, D, P>(a, i); });
    for (size_t k = 0; k < dimOf<P>::value; k++) vp::add("equality " + n + " point " + vp::str(i) + " coordinate " + vp::str(k), 0, [=] { equality<D, P>(a, i, k); });
  }
  vp::add("construction " + n + " then " + vp::str(b), 0, [=] { construction<D, P>(a, b); });
  vp::add("construction " + n + " then the same", 0, [=] { construction<D, P>(a, a); });
  for (const auto &o : {a, b}) {
    vp::add("assignments polynomial " + n + " and " + vp::str(o), 0, [=] { assignments<false, D, P>(a, o); });
    vp::add("assignments rational " + n + " and " + vp::str(o), 0, [=] { assignments<true, D, P>(a, o); });
  }
}
void vp_register() {
  group<1, double>({2}, {1});
  group<1, double>({3}, {5});
  group<1, Pt<2>>({2}, {1});
  group<1, Pt<2>>({1}, {3});
  group<1, Pt<3>>({0}, {2});
  group<2, Pt<2>>({1, 1}, {2, 1});
  group<2, Pt<2>>({1, 2}, {2, 1});
  group<2, Pt<3>>({2, 0}, {0, 1});
  group<3, Pt<2>>({1, 0, 1}, {1, 1, 0});
  vp::add("composition operands poly poly", 0, [] { composeOperands<false, false>(); });
  vp::add("composition operands poly rational", 0, [] { composeOperands<false, true>(); });
  vp::add("composition operands rational poly", 0, [] { composeOperands<true, false>(); });
  vp::add("composition operands rational rational", 0, [] { composeOperands<true, true>(); });
}
