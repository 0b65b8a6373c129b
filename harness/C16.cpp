// pointwise derivatives of a rational spline and of its basis functions: the Leibniz rule
//   sum_{j<=k} binom(k,j) W^(j) R^(k-j) = N^(k)
// determines R^(k) uniquely from the polynomial numerator N and the positive weight function W
#include "ref.hpp"
using namespace ref;
template <size_t D> double mbinom(const Idx<D> &k, const Idx<D> &j) { double r = 1; for (size_t d = 0; d < D; d++) r *= binom(k[d], j[d]); return r; }
template <size_t D> Idx<D> minus(const Idx<D> &a, const Idx<D> &b) { Idx<D> r; for (size_t d = 0; d < D; d++) r[d] = a[d] - b[d]; return r; }
// weights given as numbers, control points stay symbolic
template <size_t D, class P> bezman::RationalBezierSpline<D, P, double> source(const Idx<D> &deg, int mode) {
  if (mode < 3) return symRat<D, P>("c", deg);
  vector<P> c;
  vector<double> w;
  for (size_t i = 0; i < count(deg); i++) { c.push_back(symPoint<P>("c" + vp::str(i))); w.push_back(1 + double((i * 5 + 2) % 7) / 4); }
  return bezman::RationalBezierSpline<D, P, double>(deg, c, w);
}
// mode 3: also the weights are fixed
// mode 0: any inner parameter, 1: any parameter, 2: one fixed parameter (all control points and weights stay symbolic)
template <size_t D> array<double, D> param(int mode) { return mode >= 2 ? fixedU<D>() : mode ? symU<D>() : symUopen<D>(); }
template <size_t D, class P> void value(const Idx<D> &deg, const Idx<D> &ord, int mode = 0) {
  const auto s = source<D, P>(deg, mode);
  auto u = param<D>(mode);
  const double W = eval(deg, s.GetWeights(), u);
  vp::assume_lt(0, W);
  vector<P> R;
  for (size_t l = 0; l < count(ord); l++) R.push_back(s.EvaluateDerivative(asPoint(u), unrank(l, ord)));
  vp_div_policy(0);
  for (size_t l = 0; l < count(ord); l++) {
    const auto k = unrank(l, ord);
    for (size_t c = 0; c < dimOf<P>::value; c++) {
      double sum = 0;
      for (size_t m = 0; m < count(k); m++) {
        const auto j = unrank(m, k);
        sum = sum + mbinom(k, j) * evalD(deg, s.GetWeights(), u, j) * comp(R[rank(minus(k, j), ord)], c);
      }
      vp::check_eq(sum, evalD(deg, wcoord(s, c), u, k), "derivative of order " + vp::str(k) + " satisfies the product rule, coordinate " + vp::str(c));
    }
  }
}
template <size_t D, class P> void basisFns(const Idx<D> &deg, const Idx<D> &ord, int mode = 0) {
  const auto s = source<D, P>(deg, mode);
  auto u = param<D>(mode);
  const double W = eval(deg, s.GetWeights(), u);
  vp::assume_lt(0, W);
  vector<vector<double>> R;
  for (size_t l = 0; l < count(ord); l++) R.push_back(s.BasisFunctionsDerivatives(asPoint(u), unrank(l, ord)));
  vp_div_policy(0);
  for (size_t l = 0; l < count(ord); l++) {
    const auto k = unrank(l, ord);
    vp::check(R[l].size() == count(deg), "one derivative per basis function");
    const auto B = basisD(deg, u, k);
    for (size_t i = 0; i < count(deg); i++) {
      double sum = 0;
      for (size_t m = 0; m < count(k); m++) {
        const auto j = unrank(m, k);
        sum = sum + mbinom(k, j) * evalD(deg, s.GetWeights(), u, j) * R[rank(minus(k, j), ord)][i];
      }
      vp::check_eq(sum, B[i] * s.GetWeights()[i], "derivative of order " + vp::str(k) + " of basis function " + vp::str(i));
    }
  }
}
template <size_t D, class P> void both(const Idx<D> &deg, const Idx<D> &ord, int tier, int mode = 0) {
  const std::string n = std::to_string(D) + "D " + vp::str(deg) + " orders up to " + vp::str(ord) + (mode == 3 ? " at a fixed parameter with fixed weights" : mode == 2 ? " at a fixed parameter" : "");
  vp::add("derivative " + n, tier, [=] { value<D, P>(deg, ord, mode); });
  vp::add("basis derivative " + n, tier, [=] { basisFns<D, P>(deg, ord, mode); });
}
// results follow changes of the spline and do not depend on what was evaluated before
template <size_t D> void sequence(const Idx<D> &da, const Idx<D> &db, const Idx<D> &k, const Idx<D> &o) {
  auto s = symRat<D, Pt<2>>("c", da), t = symRat<D, Pt<2>>("d", db);
  const auto u = param<D>(2);
  auto v = u;
  for (auto &x : v) x = 1 - x / 2;
  auto is = [&](const auto &x, const array<double, D> &at, const Idx<D> &ord, const std::string &n) {
    const auto deg = x.GetDegrees();
    vp_div_policy(1);
    vector<Pt<2>> R;
    vector<vector<double>> F;
    for (size_t l = 0; l < count(ord); l++) { R.push_back(x.EvaluateDerivative(asPoint(at), unrank(l, ord))); F.push_back(x.BasisFunctionsDerivatives(asPoint(at), unrank(l, ord))); }
    vp_div_policy(0);
    const auto B = basisD(deg, at, ord);
    double sc[2] = {0, 0};
    vector<double> sb(count(deg), 0.0);
    for (size_t m = 0; m < count(ord); m++) {
      const auto j = unrank(m, ord);
      const double f = mbinom(ord, j) * evalD(deg, x.GetWeights(), at, j);
      const size_t l = rank(minus(ord, j), ord);
      for (size_t c = 0; c < 2; c++) sc[c] = sc[c] + f * R[l][c];
      for (size_t i = 0; i < sb.size(); i++) sb[i] = sb[i] + f * F[l].at(i);
    }
    for (size_t c = 0; c < 2; c++) vp::check_eq(sc[c], evalD(deg, wcoord(x, c), at, ord), n + ", coordinate " + vp::str(c));
    for (size_t i = 0; i < sb.size(); i++) vp::check_eq(sb[i], B[i] * x.GetWeights()[i], n + ", basis function " + vp::str(i));
  };
  is(s, u, k, "first evaluation");
  is(s, u, o, "other order");
  is(s, v, k, "other parameter");
  is(t, v, k, "other spline, same parameter and order");
  is(t, u, o, "other spline, first parameter");
  is(s, u, k, "first evaluation again");
  s.GetWeights()[0] = vp::positive("nw");
  is(s, u, k, "after a change of a weight");
  s.GetWeightedControlPoints()[0] = symPoint<Pt<2>>("np");
  is(s, u, k, "after a change of a control point");
}
// consequences a user relies on, at the ends of a curve
void ends(size_t n) {
  const auto s = symRat<1, Pt<2>>("c", {n});
  const auto &w = s.GetWeights();
  for (int e = 0; e < 2; e++) {
    const auto d = s.EvaluateDerivative(Pt<1>{double(e)}, {1});
    const size_t a = e ? n : 0, b = e ? n - 1 : 1;
    for (size_t k = 0; k < 2; k++) {
      // n w_b/w_a (P_b - P_a), with weighted points
      double pa = s.GetWeightedControlPoints()[a][k], pb = s.GetWeightedControlPoints()[b][k];
      vp::check_eq(d[k] * w[a] * w[a], (e ? -1.0 : 1.0) * double(n) * (pb * w[a] - pa * w[b]), "end tangent " + vp::str(size_t(e)));
    }
  }
}
void vp_register() {
  for (size_t n = 0; n <= 3; n++) for (size_t m = 0; m <= 3; m++) vp::add("sequence 1D " + vp::str(n) + ", " + vp::str(m), 0, [=] { sequence<1>({n}, {m}, {1}, {2}); });
  for (auto d : degCombos<2>(0, 1)) vp::add("sequence 2D " + vp::str(d), 0, [=] { sequence<2>(d, {d[1], 1}, {1, 0}, {0, 1}); });
  for (size_t n = 0; n <= 5; n++) for (size_t o = 0; o <= 4; o++) { if (n * o > 12) both<1, double>({n}, {o}, 1); else both<1, double>({n}, {o}, 0); }
  for (size_t n = 0; n <= 3; n++) both<1, Pt<3>>({n}, {2}, 0);
  for (auto d : degCombos<2>(0, 2)) for (auto o : vector<Idx<2>>{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 0}, {0, 2}}) both<2, Pt<2>>(d, o, d[0] + d[1] <= 3 ? 0 : 1);
  for (auto d : vector<Idx<2>>{{1, 1}, {2, 1}, {1, 2}}) for (auto o : vector<Idx<2>>{{2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}}) both<2, double>(d, o, d[0] + d[1] == 2 && o[0] + o[1] <= 3 ? 0 : 1);
  for (auto o : vector<Idx<3>>{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 1}}) both<3, Pt<1>>({1, 1, 1}, o, o[0] + o[1] + o[2] <= 2 ? 0 : 1);
  for (auto d : vector<Idx<2>>{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {0, 2}, {3, 1}}) for (auto o : vector<Idx<2>>{{2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}}) both<2, double>(d, o, 0, 2);
  for (auto d : vector<Idx<3>>{{1, 1, 1}, {2, 1, 1}}) for (auto o : vector<Idx<3>>{{1, 1, 1}, {2, 1, 0}, {0, 2, 1}, {1, 0, 2}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 2, 1}}) both<3, double>(d, o, d[0] == 1 ? 0 : 1, 2);
  for (size_t n = 1; n <= 6; n++) both<1, Pt<2>>({n}, {6}, 0, 2);
  for (auto p : vector<Idx<2>>{{3, 12}, {7, 12}, {12, 13}, {15, 15}, {20, 12}, {24, 5}, {29, 3}}) both<1, double>({p[0]}, {p[1]}, 0, 3);
  for (size_t n = 0; n <= 29; n++) both<1, double>({n}, {n <= 12 ? n + 2 : n <= 20 ? 8 : 4}, n <= 20 ? 0 : 1, 3);
  for (auto d : degCombos<2>(0, 4)) both<2, double>(d, {3, 3}, 0, 3);
  for (auto o : vector<Idx<2>>{{5, 5}, {1, 8}, {8, 1}, {4, 6}}) { both<2, double>({2, 3}, o, 0, 3); both<2, double>({5, 4}, o, 0, 3); }
  for (auto o : vector<Idx<3>>{{3, 3, 3}, {1, 4, 2}, {4, 1, 2}}) both<3, double>({2, 1, 3}, o, 0, 3);
  for (auto o : vector<Idx<4>>{{1, 1, 1, 1}, {2, 0, 1, 2}, {0, 2, 2, 1}}) both<4, double>({1, 2, 1, 1}, o, 0, 3);
  both<3, double>({1, 0, 1}, {2, 1, 1}, 0);
  both<3, double>({2, 1, 0}, {1, 1, 1}, 0);
  for (size_t n = 1; n <= 10; n++) vp::add("end tangents degree " + vp::str(n), 0, [n] { ends(n); });
}
