// composition sensitivities: one spline per outer control point = d(composition)/d(control point)
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> using Pin = bezman::BezierSpline<D, P, double>;
template <size_t D, class P> using Rin = bezman::RationalBezierSpline<D, P, double>;
template <bool RO, bool RI, size_t DO, size_t DI, class P, class IP = Pt<DO>> void sens(const Idx<DO> &od, const Idx<DI> &id, bool numbers = false) {
  const auto o = [&] { if constexpr (RO) return symRat<DO, P>("o", od); else return symSpline<DO, P>("o", od); }();
  const auto in = [&] {
    if constexpr (RI) return numbers ? Rin<DI, IP>(id, numNet<DI, IP>(id), numWeights(id)) : symRatIn<DI, IP>("i", id, 0, 1);
    else return numbers ? Pin<DI, IP>(id, numNet<DI, IP>(id)) : symSplineIn<DI, IP>("i", id, 0, 1);
  }();
  const auto r = o.ComposeSensitivity(in);
  vp::check(r.size() == count(od), "one sensitivity per control point of the outer function");
  size_t sum = 0;
  for (auto d : od) sum += d;
  Idx<DI> want = id;
  for (auto &w : want) w *= sum;
  auto u = numbers ? fixedU<DI>() : symUopen<DI>();
  auto q = frac(in, u);
  vp_div_policy(0);
  array<double, DO> x;
  for (size_t d = 0; d < DO; d++) x[d] = q.num[d] / q.den;
  auto b = basis(od, x);
  double den = 1;
  if constexpr (RO) { den = 0; for (size_t i = 0; i < b.size(); i++) { b[i] = b[i] * o.GetWeights()[i]; den = den + b[i]; } }
  for (size_t i = 0; i < b.size() && i < r.size(); i++) {
    checkDegrees(r[i], want, "sensitivity " + vp::str(i));
    auto g = frac(r[i], u);
    vp::check_eq(g.num[0] * den, b[i] * g.den, "sensitivity " + vp::str(i) + " at u == basis function of control point " + vp::str(i) + " at inner(u)");
    if constexpr (RO || RI) { array<double, DI> z{}; vp::check_lt(0, atW(r[i], z), "denominator of sensitivity " + vp::str(i) + " is positive at the first corner"); }
  }
}
template <bool RO, bool RI, size_t DO, size_t DI, class P, class IP = Pt<DO>> void reg(const std::string &kind, const Idx<DO> &od, const Idx<DI> &id, int tier, bool numbers = false) {
  vp::add("sensitivity " + kind + " " + std::to_string(DO) + "D " + vp::str(od) + " of " + std::to_string(DI) + "D " + vp::str(id) + (numbers ? " with numbers" : ""), tier, [=] { sens<RO, RI, DO, DI, P, IP>(od, id, numbers); });
}
template <bool RO, bool RI> void all(const std::string &k) {
  for (size_t n = 0; n <= 3; n++) for (size_t m = 0; m <= 2; m++) reg<RO, RI, 1, 1, double, double>(k + " scalar", {n}, {m}, n * m <= 4 ? 0 : 1);
  for (size_t n = 0; n <= 2; n++) reg<RO, RI, 1, 1, Pt<2>>(k, {n}, {1}, 0);
  for (auto o : vector<Idx<2>>{{1, 1}, {0, 2}, {2, 1}, {1, 2}}) reg<RO, RI, 2, 1, Pt<2>>(k, o, {1}, 0);
  reg<RO, RI, 2, 1, double>(k, {1, 1}, {2}, 1);
  reg<RO, RI, 2, 2, Pt<1>>(k, {1, 1}, {1, 1}, 0);
  reg<RO, RI, 1, 2, Pt<2>>(k, {2}, {1, 1}, 0);
  reg<RO, RI, 3, 1, Pt<1>>(k, {1, 1, 1}, {1}, 0);
  for (auto p : vector<Idx<2>>{{5, 5}, {9, 3}, {3, 9}, {14, 2}, {1, 29}}) reg<RO, RI, 1, 1, Pt<2>>(k, {p[0]}, {p[1]}, 0, true);
  for (auto p : vector<Idx<4>>{{3, 2, 2, 2}, {2, 2, 1, 3}, {1, 4, 2, 1}, {4, 1, 1, 1}}) reg<RO, RI, 2, 2, Pt<3>>(k, {p[0], p[1]}, {p[2], p[3]}, 0, true);
  reg<RO, RI, 2, 3, Pt<2>>(k, {1, 2}, {1, 2, 1}, 0, true);
  reg<RO, RI, 3, 2, double>(k, {2, 1, 2}, {1, 1}, 0, true);
  reg<RO, RI, 4, 1, double>(k, {1, 2, 1, 1}, {2}, 0, true);
}
void vp_register() {
  for (size_t n = 4; n <= 8; n++) { reg<false, true, 1, 1, double, double>("polynomial of rational", {n}, {1}, 0); reg<true, false, 1, 1, double, double>("rational of polynomial", {n}, {1}, 0); reg<true, true, 1, 1, double, double>("rational of rational", {n}, {1}, 0); }
  for (auto o : vector<Idx<2>>{{3, 2}, {1, 4}, {4, 1}}) { reg<false, true, 2, 1, double>("polynomial of rational", o, {1}, 0); reg<true, true, 2, 1, double>("rational of rational", o, {1}, 0); reg<true, false, 2, 1, double>("rational of polynomial", o, {1}, 0); }
  all<false, false>("polynomial of polynomial");
  for (auto p : vector<Idx<2>>{{5, 1}, {3, 3}, {9, 1}}) reg<false, false, 1, 1, Pt<2>>("polynomial of polynomial", {p[0]}, {p[1]}, 0);
  reg<false, false, 3, 2, double>("polynomial of polynomial", {1, 1, 1}, {1, 1}, 0);
  reg<false, false, 2, 1, Pt<2>>("polynomial of polynomial", {2, 2}, {2}, 0);
  all<false, true>("polynomial of rational");
  all<true, false>("rational of polynomial");
  all<true, true>("rational of rational");
}
