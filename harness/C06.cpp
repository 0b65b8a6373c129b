// pointwise sum and difference of splines of arbitrary, possibly mixed, degrees
#include "ref.hpp"
using namespace ref;
template <size_t D, class P> void sums(const Idx<D> &da, const Idx<D> &db) {
  auto a = symSpline<D, P>("a", da);
  auto b = symSpline<D, P>("b", db);
  auto u = symU<D>();
  Idx<D> want;
  for (size_t d = 0; d < D; d++) want[d] = std::max(da[d], db[d]);
  const auto a0 = a, b0 = b;
  auto expect = [&](const auto &r, int sg, const std::string &l) {
    vp::check(wellFormed(r), l + ": structurally consistent");
    checkDegrees(r, want, l);
    for (size_t k = 0; k < dimOf<P>::value; k++) vp::check_eq(at(r, u, k), eval(da, coord(a0, k), u) + sg * eval(db, coord(b0, k), u), l + " is pointwise, coordinate " + vp::str(k));
  };
  expect(a0 + b0, 1, "a+b");
  { auto c = a; auto &r = (c += b0); vp::check(&r == &c, "a+=b returns a"); expect(c, 1, "a+=b"); }
  expect(a0 - b0, -1, "a-b");
  { auto c = a; auto &r = (c -= b0); vp::check(&r == &c, "a-=b returns a"); expect(c, -1, "a-=b"); }
}
void vp_register() {
  for (auto p : vector<array<Idx<2>, 2>>{{{{7, 5}, {6, 8}}}, {{{15, 2}, {14, 2}}}, {{{2, 16}, {3, 15}}}, {{{9, 9}, {9, 9}}}, {{{5, 4}, {5, 6}}}, {{{4, 6}, {5, 6}}}, {{{0, 0}, {4, 5}}}}) large("sum 2D degrees " + vp::str(p[0]) + " and " + vp::str(p[1]), [p] { sums<2, Pt<3>>(p[0], p[1]); });
  for (auto p : vector<array<Idx<3>, 2>>{{{{3, 4, 2}, {4, 2, 5}}}, {{{3, 3, 3}, {3, 3, 3}}}, {{{2, 3, 4}, {2, 3, 5}}}, {{{2, 4, 3}, {2, 3, 3}}}, {{{4, 1, 2}, {3, 1, 2}}}}) large("sum 3D degrees " + vp::str(p[0]) + " and " + vp::str(p[1]), [p] { sums<3, Pt<2>>(p[0], p[1]); });
  for (auto p : vector<array<Idx<4>, 2>>{{{{1, 2, 1, 1}, {2, 1, 1, 2}}}, {{{1, 1, 2, 1}, {1, 1, 2, 1}}}, {{{1, 0, 1, 2}, {1, 0, 1, 1}}}}) large("sum 4D degrees " + vp::str(p[0]) + " and " + vp::str(p[1]), [p] { sums<4, double>(p[0], p[1]); });
  for (size_t n = 0; n <= 29; n += 1) for (size_t m : {0, 5, 9, 16, 29}) if (n != m) large("sum 1D degrees " + vp::str(n) + " and " + vp::str(m), [n, m] { sums<1, double>({n}, {m}); });
  for (size_t n = 0; n <= 6; n++) for (size_t m = 0; m <= 6; m++) vp::add("sum 1D degrees " + vp::str(n) + " and " + vp::str(m), n <= 4 && m <= 4 ? 0 : 1, [n, m] { sums<1, double>({n}, {m}); });
  for (auto p : vector<Idx<2>>{{15, 15}, {14, 17}, {19, 16}, {0, 10}, {29, 28}}) vp::add("sum 1D degrees " + vp::str(p[0]) + " and " + vp::str(p[1]), 0, [p] { sums<1, Pt<2>>({p[0]}, {p[1]}); });
  for (auto a : degCombos<2>(0, 3)) for (auto b : degCombos<2>(0, 3)) vp::add("sum 2D degrees " + vp::str(a) + " and " + vp::str(b), a[0] <= 2 && a[1] <= 2 && b[0] <= 2 && b[1] <= 2 ? 0 : 1, [a, b] { sums<2, Pt<2>>(a, b); });
  for (auto a : degCombos<3>(0, 1)) for (auto b : degCombos<3>(0, 1)) vp::add("sum 3D degrees " + vp::str(a) + " and " + vp::str(b), 0, [a, b] { sums<3, Pt<3>>(a, b); });
  vp::add("sum 3D degrees 2x1x0 and 1x2x2", 0, [] { sums<3, Pt<3>>({2, 1, 0}, {1, 2, 2}); });
  vp::add("sum 3D degrees 1x2x2 and 2x1x3", 0, [] { sums<3, double>({1, 2, 2}, {2, 1, 3}); });
}
