// arithmetic of differentiable numbers follows the differentiation rules
#include "ad.hpp"
using namespace ad;
template <size_t N> void seeds(size_t n) {
  double v = vp::real("v");
  const auto c = constant<N>(v, n);
  expect<N>(c, v, vector<double>(n, 0.0), "a constant");
  const AD<N> nothing;
  expect<N>(nothing, 0, vector<double>(N, 0.0), "a default-constructed number");
  const AD<N> braces{};
  expect<N>(braces, 0, vector<double>(N, 0.0), "a value-initialised number");
  for (size_t k = 0; k < n; k++) {
    vector<double> e(n, 0.0);
    e[k] = 1;
    auto s = seed<N>(v, n, k);
    expect<N>(s, v, e, "a variable");
    s.SetActiveComponent(n - 1 - k);
    vector<double> f(n, 0.0);
    f[n - 1 - k] = 1;
    expect<N>(s, v, f, "a reseeded variable");
  }
  auto a = num("a", n);
  auto x = make<N>(a);
  expect<N>(x, a.v, a.d, "a linear combination of variables");
  const auto y = x;
  expect<N>(y, a.v, a.d, "a copy");
  auto z = constant<N>(0, n);
  z = x;
  expect<N>(z, a.v, a.d, "an assigned number");
  x += 1.0;
  expect<N>(y, a.v, a.d, "a copy after its source has changed");
  expect<N>(z, a.v, a.d, "an assigned number after its source has changed");
  if constexpr (N != 0) {
    z = v;
    expect<N>(z, v, vector<double>(n, 0.0), "a number assigned from a scalar");
  }
}
template <size_t N> void binary(size_t n, int op) {
  const Num a = num("a", n), b = num("b", n);
  const auto x = make<N>(a), y = make<N>(b);
  auto X = x;
  double v;
  vector<double> d;
  if (op == 3) { vp::assume_ne(b.v, 0); }
  switch (op) {
    case 0: v = a.v + b.v; d = each(a, b, [&](double p, double q) { return p + q; }); break;
    case 1: v = a.v - b.v; d = each(a, b, [&](double p, double q) { return p - q; }); break;
    case 2: v = a.v * b.v; d = each(a, b, [&](double p, double q) { return p * b.v + a.v * q; }); break;
    default: v = a.v / b.v; d = each(a, b, [&](double p, double q) { return (p * b.v - a.v * q) / (b.v * b.v); });
  }
  auto r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
  expect<N>(r, v, d, "a op b");
  auto &ref = op == 0 ? (X += y) : op == 1 ? (X -= y) : op == 2 ? (X *= y) : (X /= y);
  vp::check(&ref == &X, "in-place operation returns its left operand");
  expect<N>(X, v, d, "a op= b");
  expect<N>(x, a.v, a.d, "left operand keeps its value");
  expect<N>(y, b.v, b.d, "right operand keeps its value");
}
template <size_t N> void mixed(size_t n, int op) {
  const Num a = num("a", n);
  const double s = vp::real("s");
  const auto x = make<N>(a);
  auto X = x;
  if (op == 3) { vp::assume_ne(s, 0); vp::assume_ne(a.v, 0); }
  switch (op) {
    case 0:
      expect<N>(x + s, a.v + s, a.d, "a+s");
      expect<N>(s + x, a.v + s, a.d, "s+a");
      { auto &r = (X += s); vp::check(&r == &X, "a+=s returns a"); }
      expect<N>(X, a.v + s, a.d, "a+=s");
      break;
    case 1:
      expect<N>(x - s, a.v - s, a.d, "a-s");
      expect<N>(s - x, s - a.v, each(a, [&](double p) { return -p; }), "s-a");
      { auto &r = (X -= s); vp::check(&r == &X, "a-=s returns a"); }
      expect<N>(X, a.v - s, a.d, "a-=s");
      expect<N>(-x, -a.v, each(a, [&](double p) { return -p; }), "-a");
      break;
    case 2:
      expect<N>(x * s, a.v * s, each(a, [&](double p) { return p * s; }), "a*s");
      expect<N>(s * x, a.v * s, each(a, [&](double p) { return p * s; }), "s*a");
      { auto &r = (X *= s); vp::check(&r == &X, "a*=s returns a"); }
      expect<N>(X, a.v * s, each(a, [&](double p) { return p * s; }), "a*=s");
      break;
    default:
      expect<N>(x / s, a.v / s, each(a, [&](double p) { return p / s; }), "a/s");
      expect<N>(s / x, s / a.v, each(a, [&](double p) { return -s * p / (a.v * a.v); }), "s/a");
      { auto &r = (X /= s); vp::check(&r == &X, "a/=s returns a"); }
      expect<N>(X, a.v / s, each(a, [&](double p) { return p / s; }), "a/=s");
  }
  expect<N>(x, a.v, a.d, "operand keeps its value");
}
template <size_t N> void aliased(size_t n, int op) {
  const Num a = num("a", n);
  auto x = make<N>(a);
  const auto c = x;
  if (op == 3) { vp::assume_ne(a.v, 0); }
  switch (op) {
    case 0: x += x; expect<N>(x, 2 * a.v, each(a, [&](double p) { return 2 * p; }), "a+=a"); expect<N>(c + c, 2 * a.v, each(a, [&](double p) { return 2 * p; }), "a+a"); break;
    case 1: x -= x; expect<N>(x, 0, each(a, [&](double p) { return 0.0; }), "a-=a"); expect<N>(c - c, 0, each(a, [&](double p) { return 0.0; }), "a-a"); break;
    case 2: x *= x; expect<N>(x, a.v * a.v, each(a, [&](double p) { return 2 * a.v * p; }), "a*=a"); expect<N>(c * c, a.v * a.v, each(a, [&](double p) { return 2 * a.v * p; }), "a*a"); break;
    default: x /= x; expect<N>(x, 1, each(a, [&](double p) { return 0.0; }), "a/=a"); expect<N>(c / c, 1, each(a, [&](double p) { return 0.0; }), "a/a");
  }
}
// longer histories: accumulators that are read and updated in turn
template <size_t N> void history(size_t n, int which) {
  const Num a = num("a", n), b = num("b", n);
  const double s = vp::real("s");
  const auto x = make<N>(a), y = make<N>(b);
  if (which == 0) {  // horner: ((a s + b) a - b) a
    auto r = x * s;
    r += y; r *= x; r -= y; r *= x;
    double p = a.v * s + b.v, q = p * a.v - b.v;
    expect<N>(r, q * a.v, each(a, b, [&](double da, double db) { return ((da * s + db) * a.v + p * da - db) * a.v + q * da; }), "Horner scheme");
  } else if (which == 1) {  // (a+b)(a-b) / (1 + b b)
    auto den = 1.0 + y * y;
    auto r = (x + y) * (x - y) / den;
    double D = 1 + b.v * b.v, M = a.v * a.v - b.v * b.v;
    expect<N>(r, M / D, each(a, b, [&](double da, double db) { return ((2 * a.v * da - 2 * b.v * db) * D - M * 2 * b.v * db) / (D * D); }), "rational expression");
  } else {  // s/(a a + 1) - (-b)/2
    auto r = s / (x * x + 1.0) - (-y) / 2.0;
    double D = a.v * a.v + 1;
    expect<N>(r, s / D + b.v / 2, each(a, b, [&](double da, double db) { return -s * 2 * a.v * da / (D * D) + db / 2; }), "reciprocal expression");
  }
}
// numbers whose count of derivatives is a run-time quantity take over the count of what is assigned to them
void counts(size_t n, size_t m) {
  const Num a = num("a", n), b = num("b", m);
  const auto x = make<0>(a), y = make<0>(b);
  auto z = x;
  auto &r = (z = y);
  vp::check(&r == &z, "assignment returns its target");
  expect<0>(z, b.v, b.d, "assigned from a number with another count");
  auto e = constant<0>(1, n);
  e = y;
  expect<0>(e, b.v, b.d, "constant assigned from a number with another count");
  z = x;
  expect<0>(z, a.v, a.d, "assigned back");
  AD<0> d{};
  d = x;
  expect<0>(d, a.v, a.d, "default constructed, then assigned");
  d = std::move(z);
  expect<0>(d, a.v, a.d, "move assigned");
  const AD<0> c(y), mv(std::move(d));
  expect<0>(c, b.v, b.d, "copy constructed");
  expect<0>(mv, a.v, a.d, "move constructed");
  vector<AD<0>> v{x, y, x};
  v.insert(v.begin(), y);
  v.erase(v.begin() + 1);
  std::swap(v[0], v[2]);
  expect<0>(v[0], a.v, a.d, "shuffled in a vector (0)");
  expect<0>(v[1], b.v, b.d, "shuffled in a vector (1)");
  expect<0>(v[2], b.v, b.d, "shuffled in a vector (2)");
}
template <size_t N> void all(size_t n) {
  const std::string t = vp::str(n) + (N ? " derivatives" : " derivatives (run-time count)");
  vp::add("seeds " + t, 0, [n] { seeds<N>(n); });
  const char *ops[] = {"+", "-", "*", "/"};
  for (int o = 0; o < 4; o++) {
    vp::add("binary " + std::string(ops[o]) + " " + t, 0, [=] { binary<N>(n, o); });
    vp::add("mixed " + std::string(ops[o]) + " " + t, 0, [=] { mixed<N>(n, o); });
    vp::add("aliased " + std::string(ops[o]) + " " + t, 0, [=] { aliased<N>(n, o); });
  }
  if (n <= 3) for (int h = 0; h < 3; h++) vp::add("history " + vp::str(size_t(h)) + " " + t, 0, [=] { history<N>(n, h); });
}
void vp_register() {
  all<1>(1); all<2>(2); all<3>(3); all<4>(4); all<7>(7);
  for (size_t n = 1; n <= 4; n++) all<0>(n);
  for (size_t n = 1; n <= 4; n++) for (size_t m = 1; m <= 4; m++) vp::add("assignment between counts " + vp::str(n) + ", " + vp::str(m), 0, [=] { counts(n, m); });
  for (size_t n : {9, 17, 33}) { vp::add("assignment between counts 2, " + vp::str(n), 0, [=] { counts(2, n); }); vp::add("assignment between counts " + vp::str(n) + ", 3", 0, [=] { counts(n, 3); }); }
  all<0>(9);
  for (size_t n : {16, 17, 33, 64, 130, 260}) for (int o = 0; o < 4; o++) {
    vp::add("binary, many derivatives, operation " + vp::str(size_t(o)) + ", " + vp::str(n), 0, [=] { binary<0>(n, o); });
    if (n <= 33) vp::add("mixed, many derivatives, operation " + vp::str(size_t(o)) + ", " + vp::str(n), 0, [=] { mixed<0>(n, o); });
  }
  for (int o = 0; o < 4; o++) { vp::add("binary, 20 derivatives, operation " + vp::str(size_t(o)), 0, [=] { binary<20>(20, o); }); vp::add("mixed, 20 derivatives, operation " + vp::str(size_t(o)), 0, [=] { mixed<20>(20, o); }); }
}
