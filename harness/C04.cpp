// closed-form derivative spline
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> void derivSpline(const Idx<D> &deg, const Idx<D> &k) {
  auto s = symSpline<D, P>("c", deg);
  const auto &cs = s;
  auto ds = cs.DerivativeWRTParametricDimension(k);
  vp::check(wellFormed(ds), "derivative spline is structurally consistent");
  bool zero = false;
  Idx<D> want;
  for (size_t d = 0; d < D; d++) { zero = zero || k[d] > deg[d]; want[d] = k[d] > deg[d] ? 0 : deg[d] - k[d]; }
  if (!zero) checkDegrees(ds, want, "derivative lowers the degree by the order");
  auto u = symU<D>();
  for (size_t c = 0; c < dimOf<P>::value; c++) vp::check_eq(at(ds, u, c), evalD(deg, coord(s, c), u, k), "derivative spline at u == D^k of the spline at u, coordinate " + vp::str(c));
  auto v = ds.Evaluate(asPoint(u));
  auto w = cs.EvaluateDerivative(asPoint(u), k);
  for (size_t c = 0; c < dimOf<P>::value; c++) vp::check_eq(comp(v, c), comp(w, c), "derivative spline evaluated == EvaluateDerivative, coordinate " + vp::str(c));
}
void vp_register() {
  for (size_t n = 0; n <= 29; n++) large("derivative spline 1D degree " + vp::str(n) + " every order", [n] { for (size_t k = 0; k <= n + 2; k++) derivSpline<1, double>({n}, {k}); });
  for (size_t n = 11; n <= 28; n++) for (size_t k : {3, 7, 10, 12, 15, 18, 21}) large("derivative spline 1D degree " + vp::str(n) + " order " + vp::str(k), [n, k] { derivSpline<1, double>({n}, {k}); });
  for (auto p : vector<Idx<4>>{{9, 5, 8, 2}, {12, 4, 11, 1}, {5, 5, 5, 5}, {7, 6, 2, 5}, {15, 2, 14, 2}, {2, 15, 1, 13}, {8, 8, 4, 3}}) large("derivative spline 2D " + vp::str(p), [p] { derivSpline<2, Pt<3>>({p[0], p[1]}, {p[2], p[3]}); });
  for (auto k : degCombos<3>(0, 3)) large("derivative spline 3D 4x3x2 orders " + vp::str(k), [k] { derivSpline<3, Pt<1>>({4, 3, 2}, k); });
  for (auto k : degCombos<4>(0, 1)) large("derivative spline 4D 2x1x3x2 orders " + vp::str(k), [k] { derivSpline<4, double>({2, 1, 3, 2}, k); });
  for (auto k : vector<Idx<4>>{{2, 1, 3, 2}, {0, 2, 1, 0}, {3, 0, 0, 2}, {1, 0, 2, 2}}) large("derivative spline 4D 2x1x3x2 orders " + vp::str(k), [k] { derivSpline<4, double>({2, 1, 3, 2}, k); });
  for (size_t n = 0; n <= 10; n++) for (size_t k = 0; k <= n + 2; k++) vp::add("derivative spline 1D degree " + vp::str(n) + " order " + vp::str(k), n <= 7 ? 0 : 1, [n, k] { derivSpline<1, double>({n}, {k}); });
  for (auto p : vector<Idx<2>>{{14, 1}, {14, 12}, {14, 13}, {18, 17}, {22, 21}, {29, 1}, {29, 2}, {29, 28}, {29, 29}, {29, 8}, {29, 14}, {29, 15}, {29, 20}, {25, 14}, {20, 10}, {16, 8}, {13, 11}, {12, 12}})
    vp::add("derivative spline 1D degree " + vp::str(p[0]) + " order " + vp::str(p[1]), 0, [p] { derivSpline<1, double>({p[0]}, {p[1]}); });
  for (auto d : degCombos<2>(0, 4)) for (auto k : degCombos<2>(0, 4))
    if (k[0] <= d[0] + 1 && k[1] <= d[1] + 1) vp::add("derivative spline 2D degrees " + vp::str(d) + " orders " + vp::str(k), d[0] <= 3 && d[1] <= 3 && k[0] + k[1] <= 3 ? 0 : 1, [d, k] { derivSpline<2, Pt<2>>(d, k); });
  for (auto d : vector<Idx<3>>{{2, 1, 3}, {1, 3, 2}, {2, 2, 2}}) for (auto k : degCombos<3>(0, 2))
    vp::add("derivative spline 3D degrees " + vp::str(d) + " orders " + vp::str(k), k[0] + k[1] + k[2] <= 3 ? 0 : 1, [d, k] { derivSpline<3, Pt<3>>(d, k); });
}
