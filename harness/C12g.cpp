// composition with a group of inner functions
#include "ref.hpp"
using namespace ref;
template <bool RI, size_t DO, size_t DI, class IP> void group(const Idx<DO> &od, const Idx<DI> &id, size_t n, size_t bad, int side) {
  const auto o = symSpline<DO, Pt<2>>("o", od);
  using In = std::conditional_t<RI, bezman::RationalBezierSpline<DI, IP, double>, bezman::BezierSpline<DI, IP, double>>;
  vector<In> g;
  for (size_t j = 0; j < n; j++) {
    vector<IP> c; vector<double> w;
    for (size_t i = 0; i < count(id); i++) { c.push_back(symPointIn<IP>("i" + vp::str(j) + "_" + vp::str(i), 0, 1)); w.push_back(RI ? vp::positive("w" + vp::str(j) + "_" + vp::str(i)) : 1); }
    if (side && j == bad) compRef(c.back(), dimOf<IP>::value - 1) = side > 0 ? vp::real_open("bad", 1, vp::kInf) : vp::real_open("bad", -vp::kInf, 0);
    if constexpr (RI) g.push_back(In(id, c, w)); else g.push_back(In(id, c));
  }
  if (side) { vp::check(throws([&] { (void)o.Compose(g); }), "a group with a member outside the unit cube is rejected"); return; }
  const auto r = o.Compose(g);
  vp::check(r.size() == n, "one composition per member of the group");
  auto u = symUopen<DI>();
  vp_div_policy(0);
  for (size_t j = 0; j < n && j < r.size(); j++) {
    auto q = frac(g[j], u);
    array<double, DO> x;
    for (size_t d = 0; d < DO; d++) x[d] = q.num[d] / q.den;
    auto v = frac(r[j], u);
    for (size_t k = 0; k < 2; k++) vp::check_eq(v.num[k], eval(od, coord(o, k), x) * v.den, "composition " + vp::str(j) + " at u == outer(inner(u)), coordinate " + vp::str(k));
  }
}
template <bool RI, size_t DO, size_t DI, class IP> void reg(const Idx<DO> &od, const Idx<DI> &id) {
  std::string n = std::string("group of ") + (RI ? "rational " : "polynomial ") + std::to_string(DO) + "D " + vp::str(od) + " of " + std::to_string(DI) + "D " + vp::str(id);
  for (size_t c = 0; c <= 3; c++) vp::add(n + ", " + vp::str(c) + " members", 0, [=] { group<RI, DO, DI, IP>(od, id, c, 0, 0); });
  for (size_t c : {5, 8}) {
    vp::add(n + ", " + vp::str(c) + " members", 0, [=] { group<RI, DO, DI, IP>(od, id, c, 0, 0); });
    for (size_t b = 0; b < c; b++) for (int s : {-1, 1}) vp::add(n + ", member " + vp::str(b) + " of " + vp::str(c) + " leaves the cube " + (s > 0 ? "above" : "below"), 0, [=] { group<RI, DO, DI, IP>(od, id, c, b, s); });
  }
  for (size_t b = 0; b < 2; b++) for (int s : {-1, 1}) vp::add(n + ", member " + vp::str(b) + " leaves the cube " + (s > 0 ? "above" : "below"), 0, [=] { group<RI, DO, DI, IP>(od, id, 2, b, s); });
}
void vp_register() {
  reg<false, 2, 1, Pt<2>>({1, 1}, {1});
  reg<true, 2, 1, Pt<2>>({1, 1}, {1});
  reg<false, 1, 1, Pt<1>>({2}, {1});
  reg<false, 2, 2, Pt<2>>({1, 1}, {1, 1});
}
