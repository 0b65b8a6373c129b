// refinement of rational splines leaves the represented function unchanged
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> void elevate(const Idx<D> &deg, const vector<size_t> &dirs) {
  auto s = symRat<D, P>("c", deg);
  auto u = symUopen<D>();
  const auto q = frac(s, u);
  Idx<D> want = deg;
  for (auto d : dirs) { auto &x = s.OrderElevateAlongParametricDimension(d); vp::check(&x == &s, "elevation returns its object"); want[d]++; }
  vp::check(ratWellFormed(s), "structure");
  checkDegrees(s, want, "elevated");
  const auto r = frac(s, u);
  vp_div_policy(0);
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    vp::check_eq(r.num[k] * q.den, q.num[k] * r.den, "same function, coordinate " + vp::str(k));
    vp::check_eq(comp(s.Evaluate(asPoint(u)), k) * q.den, q.num[k], "same value, coordinate " + vp::str(k));
  }
  for (size_t i = 0; i < s.GetWeights().size(); i++) vp::check_lt(0, s.GetWeights()[i], "elevated weight " + vp::str(i) + " stays positive");
}
template <size_t D, class P> void split1(const Idx<D> &deg, size_t dim, bool deflt = false) {
  const auto s = symRat<D, P>("c", deg);
  const double t = vp::real_open("t", 0, 1);
  const auto parts = deflt ? s.SplitAtPosition(t) : s.SplitAtPosition(t, dim);
  vp::check(parts.size() == 2, "splitting yields two parts");
  auto u = symUopen<D>();
  vp_div_policy(0);
  for (size_t i = 0; i < 2 && i < parts.size(); i++) {
    vp::check(ratWellFormed(parts[i]), "part " + vp::str(i) + " is structurally consistent");
    checkDegrees(parts[i], deg, "part " + vp::str(i));
    auto x = u;
    x[dim] = i ? t + (1 - t) * u[dim] : t * u[dim];
    const auto q = frac(parts[i], u), e = frac(s, x);
    for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(q.num[k] * e.den, e.num[k] * q.den, "part " + vp::str(i) + " reproduces the spline, coordinate " + vp::str(k));
    array<double, D> z{};
    vp::check_lt(0, atW(parts[i], z), "part " + vp::str(i) + ": weight positive at the first corner");
  }
}
// fixed: positions and parameter are fixed numbers, control points and weights stay symbolic
template <size_t D, class P> void splitN(const Idx<D> &deg, size_t dim, size_t n, bool deflt = false, bool fixed = false) {
  const auto s = symRat<D, P>("c", deg);
  vector<double> t;
  for (size_t i = 0; i < n; i++) {
    if (fixed) t.push_back(double((i + 1) * (i + 2)) / double((n + 1) * (n + 3)));
    else { t.push_back(vp::real_open("t" + vp::str(i), 0, 1)); if (i) vp::assume_lt(t[i - 1], t[i]); }
  }
  const auto parts = deflt ? s.SplitAtPosition(t) : s.SplitAtPosition(t, dim);
  vp::check(parts.size() == n + 1, "n positions yield n+1 parts");
  auto u = fixed ? fixedU<D>() : symUopen<D>();
  vp_div_policy(0);
  for (size_t i = 0; i <= n && i < parts.size(); i++) {
    vp::check(ratWellFormed(parts[i]), "part " + vp::str(i) + " is structurally consistent");
    checkDegrees(parts[i], deg, "part " + vp::str(i));
    double lo = i ? t[i - 1] : 0, hi = i < n ? t[i] : 1;
    auto x = u;
    x[dim] = lo + (hi - lo) * u[dim];
    const auto q = frac(parts[i], u), e = frac(s, x);
    for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(q.num[k] * e.den, e.num[k] * q.den, "part " + vp::str(i) + " reproduces the spline on its interval, coordinate " + vp::str(k));
  }
}
template <size_t D> void badSplit(const Idx<D> &deg, size_t dim, int mode) {
  const auto s = symRat<D, Pt<2>>("c", deg);
  double t;
  if (mode == 0) t = vp::real_open("t", -vp::kInf, 0);
  else if (mode == 1) t = vp::real_open("t", 1, vp::kInf);
  else t = vp::unit("t");
  if (mode < 2) vp::check(throws([&] { (void)s.SplitAtPosition(t, dim); }), "a position outside the unit interval is rejected");
  else {
    double b = vp::real_open("b", 0, 1);
    vp::assume_lt(b, t);
    vp::assume_lt(t, 1);
    vp::check(throws([&] { (void)s.SplitAtPosition(vector<double>{t, b}, dim); }), "decreasing positions are rejected");
  }
}
void vp_register() {
  for (size_t n : {12, 17, 28}) largeW("elevate 1D " + vp::str(n), [n] { elevate<1, Pt<2>>({n}, {0}); });
  for (size_t n : {10, 14, 20}) largeW("elevate eight times 1D " + vp::str(n), [n] { elevate<1, double>({n}, {0, 0, 0, 0, 0, 0, 0, 0}); });
  for (auto d : vector<Idx<2>>{{8, 5}, {5, 9}, {14, 3}, {2, 15}}) for (auto q : vector<vector<size_t>>{{0}, {1}, {0, 1, 1, 0}}) { std::string n; for (auto x : q) n += vp::str(x); largeW("elevate 2D " + vp::str(d) + " along " + n, [d, q] { elevate<2, Pt<3>>(d, q); }); }
  for (auto d : vector<Idx<3>>{{4, 3, 5}, {3, 5, 2}}) for (size_t k = 0; k < 3; k++) largeW("elevate 3D " + vp::str(d) + " along " + vp::str(k), [d, k] { elevate<3, Pt<2>>(d, {k}); });
  for (size_t k = 0; k < 4; k++) largeW("elevate 4D along " + vp::str(k), [k] { elevate<4, double>({1, 2, 1, 3}, {k}); });
  for (size_t n : {9, 15, 22, 29}) largeW("split 1D " + vp::str(n), [n] { split1<1, Pt<2>>({n}, 0); });
  for (auto d : vector<Idx<2>>{{9, 4}, {4, 9}, {15, 2}, {2, 16}}) for (size_t k = 0; k < 2; k++) largeW("split 2D " + vp::str(d) + " along " + vp::str(k), [d, k] { split1<2, Pt<3>>(d, k); });
  for (auto d : vector<Idx<3>>{{3, 2, 4}, {2, 4, 3}}) for (size_t k = 0; k < 3; k++) largeW("split 3D " + vp::str(d) + " along " + vp::str(k), [d, k] { split1<3, Pt<2>>(d, k); });
  for (auto d : vector<Idx<4>>{{2, 1, 3, 2}, {1, 2, 1, 3}}) for (size_t k = 0; k < 4; k++) largeW("split 4D " + vp::str(d) + " along " + vp::str(k), [d, k] { split1<4, double>(d, k); });
  for (size_t n : {2, 6, 12}) for (size_t m : {3, 8, 12}) largeW("multi-split 1D " + vp::str(n) + " at " + vp::str(m) + " positions", [n, m] { splitN<1, Pt<2>>({n}, 0, m, false, true); });
  for (auto d : vector<Idx<2>>{{3, 4}, {5, 2}}) for (size_t k = 0; k < 2; k++) for (size_t m : {3, 8}) largeW("multi-split 2D " + vp::str(d) + " along " + vp::str(k) + " at " + vp::str(m) + " positions", [d, k, m] { splitN<2, Pt<2>>(d, k, m, false, true); });
  for (auto d : vector<Idx<3>>{{1, 2, 3}}) for (size_t k = 0; k < 3; k++) largeW("multi-split 3D " + vp::str(d) + " along " + vp::str(k), [d, k] { splitN<3, Pt<2>>(d, k, 5, false, true); });
  for (size_t n = 0; n <= 10; n++) { vp::add("elevate 1D " + vp::str(n), 0, [n] { elevate<1, double>({n}, {0}); }); }
  for (size_t n = 0; n <= 4; n++) { vp::add("elevate twice 1D " + vp::str(n) + " point3", 0, [n] { elevate<1, Pt<3>>({n}, {0, 0}); }); }
  for (auto d : degCombos<2>(0, 3)) for (size_t k = 0; k < 2; k++) vp::add("elevate 2D " + vp::str(d) + " along " + vp::str(k), 0, [d, k] { elevate<2, Pt<2>>(d, {k}); });
  for (auto d : degCombos<2>(0, 1)) vp::add("elevate 2D " + vp::str(d) + " along 1 0 1", 0, [d] { elevate<2, Pt<2>>(d, {1, 0, 1}); });
  for (auto d : degCombos<3>(0, 2)) for (size_t k = 0; k < 3; k++) vp::add("elevate 3D " + vp::str(d) + " along " + vp::str(k), d[0] + d[1] + d[2] <= 4 ? 0 : 1, [d, k] { elevate<3, Pt<1>>(d, {k}); });
  for (size_t n = 0; n <= 8; n++) vp::add("split 1D " + vp::str(n), n <= 6 ? 0 : 1, [n] { split1<1, double>({n}, 0); });
  vp::add("split 1D degree 2 default direction", 0, [] { split1<1, Pt<2>>({2}, 0, true); });
  vp::add("split 2D 1x2 default direction", 0, [] { split1<2, Pt<2>>({1, 2}, 0, true); });
  for (auto d : degCombos<2>(0, 2)) for (size_t k = 0; k < 2; k++) vp::add("split 2D " + vp::str(d) + " along " + vp::str(k), 0, [d, k] { split1<2, Pt<2>>(d, k); });
  for (auto d : degCombos<3>(0, 1)) for (size_t k = 0; k < 3; k++) vp::add("split 3D " + vp::str(d) + " along " + vp::str(k), 0, [d, k] { split1<3, Pt<1>>(d, k); });
  for (size_t n = 0; n <= 3; n++) for (size_t m = 0; m <= 3; m++) vp::add("multi-split 1D " + vp::str(n) + " at " + vp::str(m) + " positions", n * m <= 6 ? 0 : 1, [n, m] { splitN<1, double>({n}, 0, m); });
  for (auto d : degCombos<2>(1, 2)) for (size_t k = 0; k < 2; k++) for (size_t m = 1; m <= 2; m++) vp::add("multi-split 2D " + vp::str(d) + " along " + vp::str(k) + " at " + vp::str(m) + " positions", m == 1 || d[k] == 1 ? 0 : 1, [d, k, m] { splitN<2, Pt<2>>(d, k, m); });
  for (size_t n : {1, 2, 3, 5}) for (size_t m : {3, 4, 5, 6}) vp::add("multi-split 1D degree " + vp::str(n) + " at " + vp::str(m) + " fixed positions", 0, [n, m] { splitN<1, Pt<2>>({n}, 0, m, false, true); });
  for (auto d : degCombos<2>(1, 2)) for (size_t k = 0; k < 2; k++) for (size_t m : {2, 3, 4}) vp::add("multi-split 2D degrees " + vp::str(d) + " along " + vp::str(k) + " at " + vp::str(m) + " fixed positions", 0, [d, k, m] { splitN<2, Pt<2>>(d, k, m, false, true); });
  vp::add("multi-split 2D 1x1 default direction", 0, [] { splitN<2, Pt<2>>({1, 1}, 0, 2, true); });
  for (int m : {0, 1, 3}) { vp::add("invalid split 1D mode " + vp::str(size_t(m)), 0, [m] { badSplit<1>({2}, 0, m); }); vp::add("invalid split 2D mode " + vp::str(size_t(m)), 0, [m] { badSplit<2>({1, 2}, 1, m); }); }
}
