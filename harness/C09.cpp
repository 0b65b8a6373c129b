// composition of polynomial splines
#include "ref.hpp"
using namespace ref;
template <size_t DO, size_t DI, class P, class IP = Pt<DO>> void compose(const Idx<DO> &od, const Idx<DI> &id, bool numbers = false) {
  const auto o = symSpline<DO, P>("o", od);
  const auto in = numbers ? bezman::BezierSpline<DI, IP, double>(id, numNet<DI, IP>(id)) : symSplineIn<DI, IP>("i", id, 0, 1);
  const auto r = o.Compose(in);
  size_t sum = 0;
  for (auto d : od) sum += d;
  Idx<DI> want = id;
  for (auto &w : want) w *= sum;
  vp::check(wellFormed(r), "composition is structurally consistent");
  checkDegrees(r, want, "composition degree");
  auto u = numbers ? fixedU<DI>() : symU<DI>();
  array<double, DO> x;
  for (size_t d = 0; d < DO; d++) x[d] = at(in, u, d);
  for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(at(r, u, k), eval(od, coord(o, k), x), "composition at u == outer(inner(u)), coordinate " + vp::str(k));
}
// larger: the outer function is symbolic, the inner one and the parameter are numbers
template <size_t DO, size_t DI, class P, class IP = Pt<DO>> void large(const Idx<DO> &od, const Idx<DI> &id) {
  vp::add("compose " + std::to_string(DO) + "D " + vp::str(od) + " of " + std::to_string(DI) + "D " + vp::str(id) + " with numbers", 0, [=] { compose<DO, DI, P, IP>(od, id, true); });
}
void vp_register() {
  for (auto p : vector<Idx<2>>{{5, 5}, {9, 3}, {3, 9}, {14, 2}, {2, 14}, {29, 1}, {1, 29}, {4, 7}}) large<1, 1, Pt<2>>({p[0]}, {p[1]});
  for (auto p : vector<Idx<4>>{{3, 2, 2, 2}, {2, 2, 1, 3}, {1, 4, 2, 1}, {4, 1, 1, 1}, {5, 3, 1, 2}}) large<2, 2, Pt<3>>({p[0], p[1]}, {p[2], p[3]});
  large<2, 3, Pt<2>>({1, 2}, {1, 2, 1});
  large<3, 3, Pt<3>>({1, 2, 1}, {1, 1, 2});
  large<3, 3, Pt<3>>({1, 1, 2}, {2, 1, 1});
  large<3, 2, double>({2, 1, 2}, {1, 1});
  large<4, 1, double>({1, 2, 1, 1}, {2});
  large<4, 2, double>({1, 0, 1, 2}, {1, 1});
  large<1, 3, double, double>({3}, {1, 2, 1});
  large<2, 1, double>({9, 4}, {2});
  for (size_t n = 0; n <= 4; n++) for (size_t m = 0; m <= 4; m++) vp::add("compose 1D(" + vp::str(n) + ") of 1D(" + vp::str(m) + ") scalar", n * m <= 6 || n * m <= 9 && n >= 2 ? 0 : 1, [n, m] { compose<1, 1, double, double>({n}, {m}); });
  for (auto p : vector<Idx<2>>{{5, 1}, {9, 1}, {1, 9}, {6, 2}, {14, 1}, {1, 20}}) vp::add("compose 1D(" + vp::str(p[0]) + ") of 1D(" + vp::str(p[1]) + ") point2", 0, [p] { compose<1, 1, Pt<2>>({p[0]}, {p[1]}); });
  for (auto o : degCombos<2>(0, 2)) for (size_t m = 0; m <= 2; m++) vp::add("compose 2D " + vp::str(o) + " of 1D " + vp::str(m), (o[0] + o[1]) * m <= 6 ? 0 : 1, [o, m] { compose<2, 1, Pt<2>>(o, {m}); });
  for (auto o : degCombos<2>(0, 2)) for (auto i : degCombos<2>(0, 1)) vp::add("compose 2D " + vp::str(o) + " of 2D " + vp::str(i), o[0] + o[1] <= 3 ? 0 : 1, [o, i] { compose<2, 2, Pt<2>>(o, i); });
  for (size_t n = 0; n <= 3; n++) for (auto i : degCombos<2>(0, 2)) vp::add("compose 1D " + vp::str(n) + " of 2D " + vp::str(i), n <= 2 && i[0] + i[1] <= 3 ? 0 : 1, [n, i] { compose<1, 2, Pt<3>>({n}, i); });
  vp::add("compose 3D 1x1x1 of 1D 1", 0, [] { compose<3, 1, Pt<3>>({1, 1, 1}, {1}); });
  vp::add("compose 3D 1x0x2 of 1D 2", 0, [] { compose<3, 1, Pt<3>>({1, 0, 2}, {2}); });
  vp::add("compose 3D 1x2x1 of 1D 1", 0, [] { compose<3, 1, Pt<2>>({1, 2, 1}, {1}); });
  vp::add("compose 3D 1x1x1 of 2D 1x1", 0, [] { compose<3, 2, double>({1, 1, 1}, {1, 1}); });
  vp::add("compose 3D 1x1x1 of 3D 1x1x1", 1, [] { compose<3, 3, double>({1, 1, 1}, {1, 1, 1}); });
  vp::add("compose 2D 1x1 of 3D 1x1x1", 0, [] { compose<2, 3, Pt<2>>({1, 1}, {1, 1, 1}); });
  vp::add("compose 2D 3x1 of 1D 2", 0, [] { compose<2, 1, Pt<2>>({3, 1}, {2}); });
  vp::add("compose 2D 1x3 of 1D 1", 0, [] { compose<2, 1, Pt<2>>({1, 3}, {1}); });
}
