// every composition rejects inner functions that leave the unit cube and accepts all others
#include "ref.hpp"
using namespace ref;
enum Fn { COMPOSE, SENS };
// the offending coordinate is symbolic in (1,inf) or (-inf,0); all others are in [0,1]
template <bool RO, bool RI, size_t DO, size_t DI, class IP> void guard(const Idx<DO> &od, const Idx<DI> &id, Fn fn, size_t bad, size_t badk, int side) {
  const auto o = [&] { if constexpr (RO) return symRat<DO, Pt<2>>("o", od); else return symSpline<DO, Pt<2>>("o", od); }();
  vector<IP> c;
  vector<double> w;
  for (size_t i = 0; i < count(id); i++) {
    c.push_back(symPointIn<IP>("i" + vp::str(i), 0, 1));
    w.push_back(RI ? vp::positive("w" + vp::str(i)) : 1);
  }
  if (side) compRef(c[bad], badk) = side > 0 ? vp::real_open("bad", 1, vp::kInf) : vp::real_open("bad", -vp::kInf, 0);
  auto go = [&](const auto &in) {
    const bool t = throws([&] { if (fn == COMPOSE) (void)o.Compose(in); else (void)o.ComposeSensitivity(in); });
    if (side) vp::check(t, "an inner function outside the unit cube is rejected");
    else vp::check(!t, "an inner function inside the unit cube is accepted");
  };
  if constexpr (RI) go(bezman::RationalBezierSpline<DI, IP, double>(id, c, w));
  else go(bezman::BezierSpline<DI, IP, double>(id, c));
}
template <bool RO, bool RI, size_t DO, size_t DI, class IP> void reg(const Idx<DO> &od, const Idx<DI> &id) {
  for (int fn = 0; fn < 2; fn++) {
    std::string n = std::string(fn ? "sensitivity " : "compose ") + (RO ? "rational" : "polynomial") + " of " + (RI ? "rational " : "polynomial ") + std::to_string(DO) + "D " + vp::str(od) + " of " + std::to_string(DI) + "D " + vp::str(id) + (std::is_same_v<IP, double> ? " scalar" : "");
    vp::add(n + " inside", 0, [=] { guard<RO, RI, DO, DI, IP>(od, id, (Fn)fn, 0, 0, 0); });
    for (size_t i = 0; i < count(id); i++) for (size_t k = 0; k < dimOf<IP>::value; k++) for (int side : {-1, 1})
      vp::add(n + (side > 0 ? " above in " : " below in ") + vp::str(i) + "." + vp::str(k), 0, [=] { guard<RO, RI, DO, DI, IP>(od, id, (Fn)fn, i, k, side); });
  }
}
// larger inner nets: one arbitrary coordinate, all others are numbers within the cube (some on its boundary)
template <bool RO, bool RI, size_t DO, size_t DI, class IP> void guardBig(const Idx<DO> &od, const Idx<DI> &id, Fn fn, size_t bad, size_t badk) {
  const auto oc = [&] { vector<Pt<2>> c; vector<double> w; for (size_t i = 0; i < count(od); i++) { c.push_back(Pt<2>{double(i % 3), double((i * 5) % 7)}); w.push_back(1 + double(i % 2)); } return std::make_pair(c, w); }();
  const auto o = [&] { if constexpr (RO) return Rat<DO, 2>(od, oc.first, oc.second); else return Poly<DO, 2>(od, oc.first); }();
  vector<IP> c;
  vector<double> w;
  for (size_t i = 0; i < count(id); i++) {
    IP p{};
    for (size_t k = 0; k < dimOf<IP>::value; k++) compRef(p, k) = double((i * 3 + k * 5) % 9) / 8;
    c.push_back(p);
    w.push_back(RI ? 1 + double((i * 3) % 4) / 2 : 1);
  }
  const double x = vp::real("x");
  compRef(c[bad], badk) = x;
  bool in = false;
  auto go = [&](const auto &inner) {
    const bool t = throws([&] { if (fn == COMPOSE) (void)o.Compose(inner); else (void)o.ComposeSensitivity(inner); });
    in = x >= 0 && x <= 1;
    if (in) vp::check(!t, "an inner function inside the unit cube is accepted");
    else vp::check(t, "an inner function outside the unit cube is rejected");
  };
  if constexpr (RI) { vector<IP> h = c; go(bezman::RationalBezierSpline<DI, IP, double>(id, h, w)); }
  else go(bezman::BezierSpline<DI, IP, double>(id, c));
}
template <bool RO, bool RI, size_t DO, size_t DI, class IP> void regBig(const Idx<DO> &od, const Idx<DI> &id) {
  for (int fn = 0; fn < 2; fn++) for (size_t i = 0; i < count(id); i++) for (size_t k = 0; k < dimOf<IP>::value; k++)
    vp::add(std::string(fn ? "sensitivity " : "compose ") + (RO ? "rational" : "polynomial") + " of " + (RI ? "rational " : "polynomial ") + std::to_string(DO) + "D " + vp::str(od) + " of " + std::to_string(DI) + "D " + vp::str(id) + ", any number in " + vp::str(i) + "." + vp::str(k), 0,
            [=] { guardBig<RO, RI, DO, DI, IP>(od, id, (Fn)fn, i, k); });
}
template <bool RO, bool RI> void bigs() {
  regBig<RO, RI, 1, 1, double>({1}, {7});
  regBig<RO, RI, 2, 2, Pt<2>>({1, 1}, {2, 2});
  regBig<RO, RI, 2, 2, Pt<2>>({1, 0}, {3, 1});
  regBig<RO, RI, 3, 1, Pt<3>>({1, 0, 1}, {4});
  regBig<RO, RI, 2, 3, Pt<2>>({0, 1}, {1, 1, 2});
  regBig<RO, RI, 3, 3, Pt<3>>({1, 0, 1}, {1, 1, 1});
}
template <bool RO, bool RI> void all() {
  reg<RO, RI, 1, 1, double>({1}, {2});
  reg<RO, RI, 1, 1, Pt<1>>({2}, {1});
  reg<RO, RI, 2, 1, Pt<2>>({1, 1}, {2});
  reg<RO, RI, 2, 2, Pt<2>>({1, 0}, {1, 1});
  reg<RO, RI, 3, 1, Pt<3>>({1, 0, 1}, {1});
  reg<RO, RI, 1, 1, double>({1}, {0});
  reg<RO, RI, 1, 1, Pt<1>>({0}, {1});
  reg<RO, RI, 2, 2, Pt<2>>({1, 1}, {0, 0});
  reg<RO, RI, 3, 1, Pt<3>>({0, 0, 0}, {0});
  reg<RO, RI, 2, 3, Pt<2>>({0, 1}, {0, 0, 0});
}
void vp_register() { all<false, false>(); all<false, true>(); all<true, false>(); all<true, true>(); bigs<false, false>(); bigs<false, true>(); bigs<true, false>(); bigs<true, true>(); }
