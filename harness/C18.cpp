// arithmetic of rational splines
#include "ref.hpp"
using namespace ref;
// W: 0 independent weights, 1 the same weight function on both sides, 2 one weight differs
template <size_t D, class P> void sumDiff(const Idx<D> &da, const Idx<D> &db, int wmode, int op) {
  auto a = symRat<D, P>("a", da);
  auto b = symRat<D, P>("b", db);
  if (wmode) b.GetWeights() = a.GetWeights();
  if (wmode == 2) b.GetWeights().back() = vp::positive("wx");
  const auto &ca = a; const auto &cb = b;
  auto u = symUopen<D>();
  const auto qa = frac(a, u), qb = frac(b, u);
  auto r = [&] {
    switch (op) {
      case 0: return decltype(a)(ca + cb);
      case 1: return decltype(a)(ca - cb);
      case 2: { auto x = a; auto &y = (x += cb); vp::check(&y == &x, "compound addition returns its object"); return x; }
      default: { auto x = a; auto &y = (x -= cb); vp::check(&y == &x, "compound subtraction returns its object"); return x; }
    }
  }();
  const double sg = op % 2 ? -1 : 1;
  vp::check(ratWellFormed(r), "result is structurally consistent");
  vp_div_policy(0);
  const auto q = frac(r, u);
  const char *nm[] = {"sum", "difference", "compound sum", "compound difference"};
  for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(q.num[k] * (qa.den * qb.den), (qa.num[k] * qb.den + sg * qb.num[k] * qa.den) * q.den, std::string(nm[op]) + " of the two functions, coordinate " + vp::str(k));
  array<double, D> z{};
  vp::check_lt(0, atW(r, z), "weight stays positive at the first corner");
  // operands are unchanged
  for (size_t k = 0; k < dimOf<P>::value; k++) { vp::check_eq(atN(a, u, k), qa.num[k], "left operand kept"); vp::check_eq(atN(b, u, k), qb.num[k], "right operand kept"); }
}
template <size_t D, class PA, class PB> void product(const Idx<D> &da, const Idx<D> &db, bool same = false) {
  const auto a = symRat<D, PA>("a", da);
  auto b = symRat<D, PB>("b", db);
  if (same) b.GetWeights() = a.GetWeights();
  auto u = symUopen<D>();
  const auto qa = frac(a, u), qb = frac(b, u);
  const auto r = a * b;
  vp::check(ratWellFormed(r), "result is structurally consistent");
  Idx<D> want;
  for (size_t d = 0; d < D; d++) want[d] = da[d] + db[d];
  checkDegrees(r, want, "product");
  vp_div_policy(0);
  const auto q = frac(r, u);
  constexpr size_t na = dimOf<PA>::value, nb = dimOf<PB>::value;
  constexpr bool sa = std::is_same_v<PA, double>, sb = std::is_same_v<PB, double>;
  if constexpr (!sa && !sb) {
    static_assert(na == nb);
    double dotp = 0;
    for (size_t k = 0; k < na; k++) dotp = dotp + qa.num[k] * qb.num[k];
    vp::check_eq(q.num[0] * (qa.den * qb.den), dotp * q.den, "product is the scalar product of the two functions");
  } else {
    for (size_t k = 0; k < std::max(na, nb); k++) vp::check_eq(q.num[k] * (qa.den * qb.den), qa.num[sa ? 0 : k] * qb.num[sb ? 0 : k] * q.den, "product of the two functions, coordinate " + vp::str(k));
  }
}
template <size_t D, class P> void unaryOps(const Idx<D> &deg) {
  const auto a = symRat<D, P>("a", deg);
  const double s = vp::real("s");
  const P p = symPoint<P>("p");
  auto u = symUopen<D>();
  const auto q = frac(a, u);
  auto same = [&](const bezman::RationalBezierSpline<D, P, double> &r, const std::string &n, auto f) {
    vp::check(ratWellFormed(r), n + ": structure");
    const auto g = frac(r, u);
    for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(g.num[k] * q.den, f(k) * g.den, n + ", coordinate " + vp::str(k));
    array<double, D> z{};
    vp::check_lt(0, atW(r, z), n + ": positive weight");
  };
  same(-a, "negation", [&](size_t k) { return -q.num[k]; });
  if constexpr (!std::is_same_v<P, double>) {
    same(a * s, "scaling from the right", [&](size_t k) { return q.num[k] * s; });
    same(s * a, "scaling from the left", [&](size_t k) { return q.num[k] * s; });
    { auto x = a; auto &y = (x *= s); vp::check(&x == &y, "returns its object"); same(x, "compound scaling", [&](size_t k) { return q.num[k] * s; }); }
    same(p + a, "shift from the left", [&](size_t k) { return q.num[k] + comp(p, k) * q.den; });
  }
  same(a + p, "shift", [&](size_t k) { return q.num[k] + comp(p, k) * q.den; });
  same(a - p, "negative shift", [&](size_t k) { return q.num[k] - comp(p, k) * q.den; });
  { auto x = a; auto &y = (x += p); vp::check(&x == &y, "returns its object"); same(x, "compound shift", [&](size_t k) { return q.num[k] + comp(p, k) * q.den; }); }
  { auto x = a; auto &y = (x -= p); vp::check(&x == &y, "returns its object"); same(x, "compound negative shift", [&](size_t k) { return q.num[k] - comp(p, k) * q.den; }); }
  if constexpr (!std::is_same_v<P, double>)
    for (size_t k = 0; k < dimOf<P>::value; k++) {
      const auto e = a.ExtractDimension(k);
      vp::check(wellFormed(e), "extracted coordinate: structure");
      vp::check_eq(at(e, u, 0), q.num[k], "extracted coordinate is the coordinate of the numerator " + vp::str(k));
    }
}
template <size_t D, class P> void regSum(const Idx<D> &a, const Idx<D> &b, int tier) {
  const char *nm[] = {"sum", "difference", "compound sum", "compound difference"};
  for (int op = 0; op < 4; op++) {
    vp::add(std::string(nm[op]) + " " + std::to_string(D) + "D " + vp::str(a) + " and " + vp::str(b) + " independent weights", tier, [=] { sumDiff<D, P>(a, b, 0, op); });
    if (a == b) vp::add(std::string(nm[op]) + " " + std::to_string(D) + "D " + vp::str(a) + " equal weights", tier, [=] { sumDiff<D, P>(a, b, 1, op); });
    if (a == b) vp::add(std::string(nm[op]) + " " + std::to_string(D) + "D " + vp::str(a) + " weights equal except one", tier, [=] { sumDiff<D, P>(a, b, 2, op); });
  }
}
template <size_t D, class A, class B> void regProd(const std::string &k, const Idx<D> &a, const Idx<D> &b, int tier, bool same = false) {
  vp::add("product " + k + " " + std::to_string(D) + "D " + vp::str(a) + " and " + vp::str(b) + (same ? " equal weights" : ""), tier, [=] { product<D, A, B>(a, b, same); });
}
void vp_register() {
  auto sumsOf = [](auto pt, const auto &a, const auto &b) {
    using P = decltype(pt);
    constexpr size_t D = std::tuple_size<std::decay_t<decltype(a)>>::value;
    for (int op = 0; op < 4; op++) for (int w = 0; w < (a == b ? 3 : 1); w++)
      largeW("sum " + vp::str(op) + " " + std::to_string(D) + "D " + vp::str(a) + " and " + vp::str(b) + " weights " + vp::str(w), [=] { sumDiff<D, P>(a, b, w, op); });
  };
  for (auto p : vector<Idx<2>>{{14, 15}, {15, 14}, {9, 9}, {5, 11}, {0, 20}, {20, 0}, {12, 12}}) sumsOf(Pt<2>{}, Idx<1>{p[0]}, Idx<1>{p[1]});
  for (auto p : vector<array<Idx<2>, 2>>{{{{2, 2}, {2, 2}}}, {{{4, 3}, {4, 3}}}, {{{3, 4}, {4, 2}}}, {{{7, 2}, {7, 1}}}, {{{0, 5}, {6, 0}}}}) sumsOf(Pt<3>{}, p[0], p[1]);
  for (auto p : vector<array<Idx<3>, 2>>{{{{2, 1, 2}, {2, 1, 2}}}, {{{2, 1, 3}, {1, 2, 2}}}, {{{1, 2, 2}, {1, 2, 1}}}}) sumsOf(Pt<2>{}, p[0], p[1]);
  for (auto p : vector<array<Idx<4>, 2>>{{{{1, 1, 1, 1}, {1, 1, 1, 1}}}, {{{1, 0, 2, 1}, {1, 1, 0, 1}}}}) sumsOf(double{}, p[0], p[1]);
  for (auto p : vector<array<Idx<2>, 2>>{{{{4, 3}, {4, 3}}}, {{{3, 4}, {4, 2}}}, {{{7, 2}, {7, 1}}}, {{{1, 12}, {2, 14}}}}) for (int same = 0; same < (p[0] == p[1] ? 2 : 1); same++) {
    const bool sm = same;
    largeW("product point*point " + vp::str(p[0]) + " and " + vp::str(p[1]) + (sm ? " equal weights" : ""), [=] { product<2, Pt<2>, Pt<2>>(p[0], p[1], sm); });
    largeW("product scalar*point " + vp::str(p[0]) + " and " + vp::str(p[1]) + (sm ? " equal weights" : ""), [=] { product<2, double, Pt<2>>(p[0], p[1], sm); });
    largeW("product point*scalar " + vp::str(p[0]) + " and " + vp::str(p[1]) + (sm ? " equal weights" : ""), [=] { product<2, Pt<2>, double>(p[0], p[1], sm); });
  }
  for (auto p : vector<array<Idx<4>, 2>>{{{{1, 1, 1, 1}, {1, 1, 1, 1}}}, {{{1, 0, 2, 1}, {1, 1, 0, 1}}}}) largeW("product 4D " + vp::str(p[0]) + " and " + vp::str(p[1]), [=] { product<4, double, Pt<2>>(p[0], p[1]); });
  for (auto p : vector<array<Idx<3>, 2>>{{{{2, 1, 3}, {1, 2, 2}}}, {{{3, 3, 1}, {0, 2, 4}}}}) largeW("product 3D " + vp::str(p[0]) + " and " + vp::str(p[1]), [=] { product<3, Pt<3>, Pt<3>>(p[0], p[1]); });
  largeW("unary 2D 9x6", [] { unaryOps<2, Pt<4>>({9, 6}); });
  largeW("unary 3D 3x4x2", [] { unaryOps<3, Pt<3>>({3, 4, 2}); });
  largeW("unary 4D 1x2x1x2", [] { unaryOps<4, Pt<2>>({1, 2, 1, 2}); });
  for (size_t n = 0; n <= 4; n++) for (size_t m = 0; m <= 4; m++) regSum<1, double>({n}, {m}, n <= 3 && m <= 3 ? 0 : 1);
  for (size_t n = 0; n <= 2; n++) for (size_t m = 0; m <= 2; m++) regSum<1, Pt<2>>({n}, {m}, 0);
  for (auto p : vector<array<Idx<2>, 2>>{{{{1, 1}, {1, 1}}}, {{{1, 2}, {2, 1}}}, {{{2, 1}, {1, 1}}}, {{{0, 2}, {1, 0}}}, {{{2, 2}, {2, 2}}}, {{{1, 1}, {0, 2}}}}) regSum<2, Pt<2>>(p[0], p[1], p[0][0] + p[0][1] >= 4 ? 2 : 0);
  regSum<3, Pt<1>>({1, 1, 1}, {1, 1, 1}, 0);
  regSum<3, Pt<1>>({1, 0, 1}, {0, 1, 1}, 0);
  for (size_t n = 0; n <= 3; n++) for (size_t m = 0; m <= 3; m++) {
    regProd<1, double, double>("scalar*scalar", {n}, {m}, 0);
    regProd<1, Pt<2>, Pt<2>>("point*point", {n}, {m}, 0);
    regProd<1, double, Pt<2>>("scalar*point", {n}, {m}, 0);
    regProd<1, Pt<2>, double>("point*scalar", {n}, {m}, 0);
  }
  regProd<1, double, double>("scalar*scalar", {2}, {2}, 0, true);
  regProd<1, Pt<3>, Pt<3>>("point*point", {2}, {1}, 0);
  for (auto p : vector<array<Idx<2>, 2>>{{{{1, 1}, {1, 1}}}, {{{1, 2}, {2, 1}}}, {{{0, 2}, {1, 0}}}}) {
    regProd<2, Pt<2>, Pt<2>>("point*point", p[0], p[1], 0);
    regProd<2, double, Pt<3>>("scalar*point", p[0], p[1], 0);
    regProd<2, Pt<3>, double>("point*scalar", p[0], p[1], 0);
  }
  regProd<3, Pt<1>, Pt<1>>("point*point", {1, 1, 1}, {1, 0, 1}, 0);
  auto un = [](auto tag, const auto &deg) { using P = decltype(tag); vp::add("unary " + std::to_string(deg.size()) + "D " + vp::str(deg) + " " + std::to_string(dimOf<P>::value), 0, [deg] { unaryOps<std::tuple_size<std::decay_t<decltype(deg)>>::value, P>(deg); }); };
  for (size_t n = 0; n <= 5; n++) { un(Pt<2>{}, Idx<1>{n}); }
  for (size_t n = 0; n <= 2; n++) un(Pt<3>{}, Idx<1>{n});
  for (auto d : degCombos<2>(0, 2)) un(Pt<2>{}, d);
  un(Pt<1>{}, Idx<3>{1, 2, 1});
}
