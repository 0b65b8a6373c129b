// splitting rejects positions outside the open unit interval and unordered lists
#include "ref.hpp"
using namespace ref;
template <class S> void single(const S &s, int kind) {
  double t;
  if (kind == 0) t = vp::real("t", -vp::kInf, 0);
  else if (kind == 1) t = vp::real("t", 1, vp::kInf);
  else if (kind == 2) t = std::nan("");
  else if (kind == 3) t = vp::real_open("t", 0, 1);
  else if (kind == 4) t = HUGE_VAL;
  else t = -HUGE_VAL;
  for (size_t d = 0; d < S::kParametricDimensions; d++) {
    bool th = throws([&] { (void)s.SplitAtPosition(t, d); });
    if (kind == 3) vp::check(!th, "a position inside (0,1) is accepted, direction " + vp::str(d));
    else vp::check(th, "a position outside (0,1) is rejected, direction " + vp::str(d));
    bool tv = throws([&] { (void)s.SplitAtPosition(vector<double>{t}, d); });
    if (kind == 3) vp::check(!tv, "a single-element list inside (0,1) is accepted, direction " + vp::str(d));
    else vp::check(tv, "a single-element list outside (0,1) is rejected, direction " + vp::str(d));
  }
}
// kind 0: some neighbouring pair decreases, 1: first out of range low, 2: last out of range high, 3: a duplicate
template <class S> void list(const S &s, size_t n, size_t at, int kind) {
  vector<double> t;
  for (size_t i = 0; i < n; i++) {
    t.push_back(kind == 1 && i == 0 ? vp::real("t0", -vp::kInf, 0) : kind == 2 && i == n - 1 ? vp::real("t" + vp::str(i), 1, vp::kInf) : vp::real_open("t" + vp::str(i), 0, 1));
    if (i && i - 1 != at) vp::assume_lt(t[i - 1], t[i]);
  }
  if (kind == 0) vp::assume_lt(t[at + 1], t[at]);
  if (kind == 3) { t[at + 1] = t[at]; }
  for (size_t d = 0; d < S::kParametricDimensions; d++)
    vp::check(throws([&] { (void)s.SplitAtPosition(t, d); }), kind == 0 ? "an unordered list is rejected" : kind == 3 ? "a repeated position is rejected" : "a list reaching outside (0,1) is rejected");
}
template <class S> void empty(const S &s) {
  for (size_t d = 0; d < S::kParametricDimensions; d++) {
    auto r = s.SplitAtPosition(vector<double>{}, d);
    vp::check(r.size() == 1, "an empty list returns one spline");
    checkDegrees(r.at(0), s.GetDegrees(), "an empty list returns the spline itself");
    auto a = frac(r.at(0), symUopen<S::kParametricDimensions>()), b = frac(s, symUopen<S::kParametricDimensions>());
    for (size_t k = 0; k < a.num.size(); k++) vp::check_eq(a.num[k] * b.den, b.num[k] * a.den, "an empty list returns the same function");
  }
}
// longer lists: fixed increasing positions, one of them replaced by any value that does not fit
template <class S> void longList(const S &s, size_t n, size_t at, int kind) {
  vector<double> t;
  for (size_t i = 0; i < n; i++) t.push_back(double(i + 1) / double(n + 1));
  if (kind == 0) { t[at] = vp::real("t"); vp::assume_le(t[at], t[at - 1]); }
  if (kind == 1) { t[at] = vp::real("t"); vp::assume_le(t[at + 1], t[at]); }
  if (kind == 2) t[at] = std::nan("");
  if (kind == 3) { const double lo = at ? t[at - 1] : 0, hi = at + 1 < n ? t[at + 1] : 1; t[at] = vp::real("t", lo + 1e-6, hi - 1e-6); }
  for (size_t d = 0; d < S::kParametricDimensions; d++) {
    const bool th = throws([&] { vp::check(s.SplitAtPosition(t, d).size() == n + 1 || kind != 3, "one part more than positions"); });
    vp::check(th == (kind != 3), kind == 3 ? "an increasing list inside (0,1) is accepted" : kind == 2 ? "a list with a position that is not a number is rejected" : "an unordered list is rejected");
  }
}
template <class Mk> void all(const std::string &n, Mk mk) {
  const char *kinds[] = {"below", "above", "nan", "inside", "+infinity", "-infinity"};
  for (int k = 0; k < 6; k++) vp::add(n + " position " + kinds[k], 0, [=] { single(mk(), k); });
  for (size_t m = 2; m <= 4; m++) for (size_t at = 0; at + 1 < m; at++) { vp::add(n + " list of " + vp::str(m) + " decreasing at " + vp::str(at), 0, [=] { list(mk(), m, at, 0); }); vp::add(n + " list of " + vp::str(m) + " repeated at " + vp::str(at), 0, [=] { list(mk(), m, at, 3); }); }
  for (size_t m = 2; m <= 3; m++) { vp::add(n + " list of " + vp::str(m) + " starting below", 0, [=] { list(mk(), m, 9, 1); }); vp::add(n + " list of " + vp::str(m) + " ending above", 0, [=] { list(mk(), m, 9, 2); }); }
  for (size_t m : {5, 6, 8, 9}) for (size_t at = 0; at < m; at++) for (int k = 0; k < 4; k++)
    if ((k || at) && (k != 1 || at + 1 < m)) vp::add(n + " list of " + vp::str(m) + " kind " + vp::str(k) + " at " + vp::str(at), 0, [=] { longList(mk(), m, at, k); });
  for (size_t m : {1, 2, 3, 4}) for (size_t at = 0; at < m; at++) vp::add(n + " list of " + vp::str(m) + " kind 2 at " + vp::str(at), 0, [=] { longList(mk(), m, at, 2); });
  vp::add(n + " empty list", 0, [=] { empty(mk()); });
}
void vp_register() {
  all("1D polynomial", [] { return symSpline<1, Pt<2>>("c", {2}); });
  all("1D polynomial of degree 6", [] { return symSpline<1, double>("c", {6}); });
  all("2D polynomial", [] { return symSpline<2, Pt<2>>("c", {1, 2}); });
  all("1D rational", [] { return symRat<1, Pt<2>>("c", {2}); });
  all("2D rational", [] { return symRat<2, Pt<1>>("c", {1, 2}); });
}
