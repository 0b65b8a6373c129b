// the derivative spline of a rational spline is the derivative of the function it represents
#include "ref.hpp"
using namespace ref;
template <size_t D> double mbinom(const Idx<D> &k, const Idx<D> &j) { double r = 1; for (size_t d = 0; d < D; d++) r *= binom(k[d], j[d]); return r; }
template <size_t D, class P> void deriv(const Idx<D> &deg, const Idx<D> &ord) {
  const auto s = symRat<D, P>("c", deg);
  const auto r = s.DerivativeWRTParametricDimension(ord);
  vp::check(ratWellFormed(r), "derivative spline is structurally consistent");
  auto u = symUopen<D>();
  const double W = eval(deg, s.GetWeights(), u);
  vp::assume_lt(0, W);
  vp_div_policy(0);
  for (size_t c = 0; c < dimOf<P>::value; c++) {
    // quotient rule in Leibniz form, lower orders first
    vector<double> R;
    for (size_t l = 0; l < count(ord); l++) {
      const auto k = unrank(l, ord);
      double v = evalD(deg, wcoord(s, c), u, k);
      for (size_t m = 1; m < count(k); m++) {
        const auto j = unrank(m, k);
        Idx<D> i;
        for (size_t d = 0; d < D; d++) i[d] = k[d] - j[d];
        v = v - mbinom(k, j) * evalD(deg, s.GetWeights(), u, j) * R[rank(i, ord)];
      }
      R.push_back(v / W);
    }
    vp::check_eq(atN(r, u, c), R.back() * atW(r, u), "value of the derivative spline, coordinate " + vp::str(c));
  }
  array<double, D> z{};
  vp::check_lt(0, atW(r, z), "weight function of the derivative stays positive at the first corner");
  vp::check(s.GetDegrees() == deg, "operand keeps its degrees");
}
template <size_t D, class P> void reg(const Idx<D> &deg, const Idx<D> &ord, int tier) {
  vp::add("derivative spline " + std::to_string(D) + "D " + vp::str(deg) + " order " + vp::str(ord), tier, [=] { deriv<D, P>(deg, ord); });
}
void vp_register() {
  for (size_t n : {7, 10, 14}) for (size_t o = 1; o <= 2; o++) if (n * (1 << o) <= 29) largeW("derivative spline 1D " + vp::str(n) + " order " + vp::str(o), [=] { deriv<1, Pt<2>>({n}, {o}); });
  for (size_t n = 2; n <= 5; n++) for (size_t o = 3; o <= 4; o++) if (n * (1 << o) <= 29) largeW("derivative spline 1D " + vp::str(n) + " order " + vp::str(o), [=] { deriv<1, Pt<2>>({n}, {o}); });
  for (auto d : vector<Idx<2>>{{2, 2}, {3, 2}, {2, 3}, {5, 3}, {3, 6}}) for (auto o : vector<Idx<2>>{{1, 0}, {0, 1}, {1, 1}, {2, 0}, {0, 2}, {2, 1}, {1, 2}})
    if (d[0] << (o[0] + o[1]) <= 29 && d[1] << (o[0] + o[1]) <= 29 && (d[0] + 1) * (d[1] + 1) << 2 * (o[0] + o[1]) <= 200) largeW("derivative spline 2D " + vp::str(d) + " order " + vp::str(o), [=] { deriv<2, Pt<2>>(d, o); });
  for (auto d : vector<Idx<3>>{{2, 1, 2}, {1, 2, 3}, {1, 1, 1}, {1, 2, 1}}) for (auto o : vector<Idx<3>>{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {0, 2, 0}, {1, 1, 0}, {0, 1, 1}}) if (o[0] + o[1] + o[2] == 1 || count(d) <= 12) largeW("derivative spline 3D " + vp::str(d) + " order " + vp::str(o), [=] { deriv<3, Pt<2>>(d, o); });
  for (auto o : vector<Idx<4>>{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {0, 1, 0, 1}}) largeW("derivative spline 4D order " + vp::str(o), [=] { deriv<4, double>({1, 2, 1, 1}, o); });
  for (size_t n = 0; n <= 6; n++) for (size_t o = 0; o <= 3; o++) if (n << o <= 29) reg<1, double>({n}, {o}, (o <= 1 || n * (1 << o) <= 12) ? 0 : 2);
  for (size_t n = 0; n <= 3; n++) reg<1, Pt<2>>({n}, {1}, 0);
  for (auto d : degCombos<2>(0, 3)) for (auto o : vector<Idx<2>>{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 0}, {0, 2}}) {
    size_t sz = d[0] + d[1];
    reg<2, Pt<1>>(d, o, o[0] + o[1] <= 1 ? 0 : sz <= 2 ? 0 : 2);
  }
  for (auto o : vector<Idx<3>>{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}) for (auto d : vector<Idx<3>>{{1, 1, 1}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}, {2, 1, 1}}) reg<3, double>(d, o, 0);
  reg<3, double>({1, 0, 1}, {1, 0, 1}, 2);
}
