// points form a vector space with the Euclidean scalar product
#include "ref.hpp"
using namespace ref;
template <size_t S> void is(const Pt<S> &r, const vector<double> &e, const std::string &l) { for (size_t k = 0; k < S; k++) vp::check_eq(r[k], e[k], l + ", coordinate " + vp::str(k)); }
template <size_t S, class F> vector<double> each(F f) { vector<double> r; for (size_t k = 0; k < S; k++) r.push_back(f(k)); return r; }
template <size_t S, size_t... I> void construct(const Pt<S> &a, std::index_sequence<I...>) {
  const Pt<S> q{a[I]...};
  is<S>(q, {a[I]...}, "built from its coordinates");
  Pt<S> z{};
  is<S>(z, vector<double>(S, 0.0), "value-initialised");
}
template <size_t S> void ops() {
  const auto a = symPoint<Pt<S>>("a"), b = symPoint<Pt<S>>("b");
  const auto A = a, B = b;
  const double s = vp::real("s");
  construct<S>(a, std::make_index_sequence<S>());
  vp::check(a.size() == S && Pt<S>::kSpatialDimension == S, "dimension");
  is<S>(a + b, each<S>([&](size_t k) { return A[k] + B[k]; }), "a+b");
  is<S>(a - b, each<S>([&](size_t k) { return A[k] - B[k]; }), "a-b");
  is<S>(-a, each<S>([&](size_t k) { return -A[k]; }), "-a");
  is<S>(a * s, each<S>([&](size_t k) { return A[k] * s; }), "a*s");
  is<S>(s * a, each<S>([&](size_t k) { return A[k] * s; }), "s*a");
  { auto c = a; auto &r = (c += b); vp::check(&r == &c, "a+=b returns a"); is<S>(c, each<S>([&](size_t k) { return A[k] + B[k]; }), "a+=b"); }
  { auto c = a; auto &r = (c -= b); vp::check(&r == &c, "a-=b returns a"); is<S>(c, each<S>([&](size_t k) { return A[k] - B[k]; }), "a-=b"); }
  { auto c = a; auto &r = (c *= s); vp::check(&r == &c, "a*=s returns a"); is<S>(c, each<S>([&](size_t k) { return A[k] * s; }), "a*=s"); }
  double d = 0, n = 0;
  for (size_t k = 0; k < S; k++) { d = d + A[k] * B[k]; n = n + A[k] * A[k]; }
  vp::check_eq(a * b, d, "scalar product");
  vp::check_eq(a.SquaredEuclidianNorm(), n, "squared norm");
  vp::check_eq(a.EuclidianNorm() * a.EuclidianNorm(), n, "norm squared");
  vp::check_le(0, a.EuclidianNorm(), "norm is not negative");
  is<S>(a, each<S>([&](size_t k) { return A[k]; }), "left operand keeps its value");
  is<S>(b, each<S>([&](size_t k) { return B[k]; }), "right operand keeps its value");
}
template <size_t S> void division() {
  const auto a = symPoint<Pt<S>>("a");
  const double s = vp::real("s");
  vp::assume_ne(s, 0);
  for (size_t k = 0; k < S; k++) vp::assume_ne(a[k], 0);
  is<S>(a / s, each<S>([&](size_t k) { return a[k] / s; }), "a/s");
  is<S>(s / a, each<S>([&](size_t k) { return s / a[k]; }), "s/a");
  auto c = a;
  auto &r = (c /= s);
  vp::check(&r == &c, "a/=s returns a");
  is<S>(c, each<S>([&](size_t k) { return a[k] / s; }), "a/=s");
}
// operands that are the object itself or one of its coordinates
template <size_t S> void aliased(size_t i) {
  const auto a = symPoint<Pt<S>>("a");
  { auto c = a; c += c; is<S>(c, each<S>([&](size_t k) { return 2 * a[k]; }), "a+=a"); }
  { auto c = a; c -= c; is<S>(c, vector<double>(S, 0.0), "a-=a"); }
  { auto c = a; c *= c[i]; is<S>(c, each<S>([&](size_t k) { return a[k] * a[i]; }), "a*=a[i]"); }
  { auto c = a; is<S>(c * c[i], each<S>([&](size_t k) { return a[k] * a[i]; }), "a*a[i]"); }
  vp::assume_ne(a[i], 0);
  { auto c = a; c /= c[i]; is<S>(c, each<S>([&](size_t k) { return a[k] / a[i]; }), "a/=a[i]"); }
}
template <size_t S> void equality(size_t i) {
  const auto a = symPoint<Pt<S>>("a");
  auto b = a;
  vp::check(a == b && !(a != b), "equal coordinates compare equal");
  const double e = vp::real("e");
  vp::assume_ne(e, 0);
  b[i] = b[i] + e;
  vp::check(!(a == b) && a != b, "a different coordinate compares unequal");
}
// laws that need no reference
template <size_t S> void laws() {
  const auto a = symPoint<Pt<S>>("a"), b = symPoint<Pt<S>>("b"), c = symPoint<Pt<S>>("c");
  const double s = vp::real("s"), t = vp::real("t");
  auto eq = [&](const Pt<S> &x, const Pt<S> &y, const char *l) { for (size_t k = 0; k < S; k++) vp::check_eq(x[k], y[k], std::string(l) + ", coordinate " + vp::str(k)); };
  eq((a + b) + c, a + (b + c), "addition is associative");
  eq(a + b, b + a, "addition commutes");
  eq(a - b, a + (-b), "difference is the sum with the negative");
  eq((a + b) * s, a * s + s * b, "scaling distributes over points");
  eq(a * (s + t), a * s + a * t, "scaling distributes over factors");
  vp::check_eq(a * b, b * a, "scalar product commutes");
  vp::check_eq((a + b) * c, a * c + b * c, "scalar product is linear");
  if (S <= 3) vp::check_le((a * b) * (a * b), a.SquaredEuclidianNorm() * b.SquaredEuclidianNorm(), "Cauchy-Schwarz");
  vp::check_eq((a - b).SquaredEuclidianNorm(), a * a - 2 * (a * b) + b * b, "squared distance");
}
// scalar product of points with different coordinate types: nothing is lost on either side
template <size_t S, class T> void mixedDot() {
  const auto a = symPoint<Pt<S>>("a");
  bezman::Point<S, T> c{};
  double d = 0;
  for (size_t k = 0; k < S; k++) { c[k] = static_cast<T>(double((k * 5 + 3) % 7) - 2.5); d = d + a[k] * double(c[k]); }
  vp::check_eq(a * c, d, "symbolic times concrete");
  vp::check_eq(c * a, d, "concrete times symbolic");
  const auto r = c * a;
  const auto q = a * c;
  vp::check(std::is_same_v<decltype(c * a), double> && std::is_same_v<decltype(a * c), double>, "the mixed scalar product has the wider type");
  vp::check_eq(r, q, "mixed scalar product commutes");
}
template <size_t S> void mixedDots() {
  vp::add(vp::str(S) + "D scalar product with integers", 0, [] { mixedDot<S, int>(); });
  vp::add(vp::str(S) + "D scalar product with long integers", 0, [] { mixedDot<S, long>(); });
  vp::add(vp::str(S) + "D scalar product with short floats", 0, [] { mixedDot<S, float>(); });
}
template <size_t S> void all() {
  const std::string t = vp::str(S) + "D ";
  vp::add(t + "operations", 0, [] { ops<S>(); });
  vp::add(t + "division", 0, [] { division<S>(); });
  for (size_t i = 0; i < S; i++) { vp::add(t + "aliased coordinate " + vp::str(i), 0, [i] { aliased<S>(i); }); vp::add(t + "equality in coordinate " + vp::str(i), 0, [i] { equality<S>(i); }); }
  vp::add(t + "laws", S <= 3 ? 0 : 1, [] { laws<S>(); });
}
template <size_t S> void wide() {
  const std::string t = vp::str(S) + "D ";
  vp::add(t + "operations", 0, [] { ops<S>(); });
  vp::add(t + "division", 0, [] { division<S>(); });
  for (size_t i : {size_t(0), S / 2, S - 1}) { vp::add(t + "aliased coordinate " + vp::str(i), 0, [i] { aliased<S>(i); }); vp::add(t + "equality in coordinate " + vp::str(i), 0, [i] { equality<S>(i); }); }
}
void vp_register() { mixedDots<1>(); mixedDots<2>(); mixedDots<3>(); mixedDots<5>(); all<1>(); all<2>(); all<3>(); all<4>(); all<5>(); all<7>(); wide<6>(); wide<8>(); wide<9>(); wide<13>(); wide<16>(); wide<17>(); }
