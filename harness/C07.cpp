// shift, scaling, negation and coordinate extraction act pointwise
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> void affine(const Idx<D> &deg) {
  const auto s = symSpline<D, P>("c", deg);
  auto u = symU<D>();
  const double f = vp::real("f");
  const P q = symPoint<P>("q");
  auto expect = [&](const auto &r, auto fn, const std::string &l) {
    vp::check(wellFormed(r), l + ": structurally consistent");
    checkDegrees(r, deg, l);
    for (size_t k = 0; k < dimOf<P>::value; k++) {
      vp::check_eq(at(r, u, k), fn(eval(deg, coord(s, k), u), comp(q, k)), l + " at u, coordinate " + vp::str(k));
      vp::check_eq(comp(r.Evaluate(asPoint(u)), k), fn(eval(deg, coord(s, k), u), comp(q, k)), l + " evaluated at u, coordinate " + vp::str(k));
    }
  };
  if constexpr (!std::is_same_v<P, double>) {
    expect(s * f, [&](double x, double) { return x * f; }, "s*scalar");
    expect(f * s, [&](double x, double) { return x * f; }, "scalar*s");
  } else {
    expect(s * f, [&](double x, double) { return x * f; }, "s*scalar");
    expect(f * s, [&](double x, double) { return x * f; }, "scalar*s");
  }
  { auto c = s; auto &r = (c *= f); vp::check(&r == &c, "s*=scalar returns s"); expect(c, [&](double x, double) { return x * f; }, "s*=scalar"); }
  expect(s + q, [&](double x, double p) { return x + p; }, "s+point");
  expect(q + s, [&](double x, double p) { return x + p; }, "point+s");
  { auto c = s; auto &r = (c += q); vp::check(&r == &c, "s+=point returns s"); expect(c, [&](double x, double p) { return x + p; }, "s+=point"); }
  expect(s - q, [&](double x, double p) { return x - p; }, "s-point");
  { auto c = s; auto &r = (c -= q); vp::check(&r == &c, "s-=point returns s"); expect(c, [&](double x, double p) { return x - p; }, "s-=point"); }
  expect(-s, [&](double x, double) { return -x; }, "-s");
  expect(q - s, [&](double x, double p) { return p - x; }, "point-s");
  for (size_t k = 0; k < dimOf<P>::value; k++) {
    const auto e = s.ExtractDimension(k);
    vp::check(wellFormed(e), "extracted spline: structurally consistent");
    checkDegrees(e, deg, "extracted spline");
    vp::check_eq(at(e, u, 0), eval(deg, coord(s, k), u), "extracted spline is coordinate " + vp::str(k));
  }
}
void vp_register() {
  for (auto d : vector<Idx<2>>{{9, 6}, {16, 16}, {5, 12}}) large("affine 2D degrees " + vp::str(d) + " point2", [d] { affine<2, Pt<2>>(d); });
  for (auto d : vector<Idx<3>>{{4, 3, 5}, {6, 2, 3}}) large("affine 3D degrees " + vp::str(d) + " point4", [d] { affine<3, Pt<4>>(d); });
  for (auto d : vector<Idx<4>>{{2, 1, 3, 2}, {1, 1, 1, 1}}) large("affine 4D degrees " + vp::str(d) + " point3", [d] { affine<4, Pt<3>>(d); });
  large("affine 1D degree 29 point5", [] { affine<1, Pt<5>>({29}); });
  for (size_t n : {0, 1, 2, 3, 7, 15, 29}) { vp::add("affine 1D degree " + vp::str(n) + " scalar", 0, [n] { affine<1, double>({n}); }); vp::add("affine 1D degree " + vp::str(n) + " point3", 0, [n] { affine<1, Pt<3>>({n}); }); }
  for (auto d : degCombos<2>(0, 3)) vp::add("affine 2D degrees " + vp::str(d) + " point2", 0, [d] { affine<2, Pt<2>>(d); });
  for (auto d : degCombos<3>(0, 2)) vp::add("affine 3D degrees " + vp::str(d) + " point1", d[0] + d[1] + d[2] < 5 ? 0 : 1, [d] { affine<3, Pt<1>>(d); });
}
