// elementary functions of differentiable numbers follow the chain rule
#include "ad.hpp"
using namespace ad;
struct Fn { const char *name; double lo, hi; };  // open domain of differentiability
const Fn fns[] = {{"exp", -vp::kInf, vp::kInf}, {"log", 0, vp::kInf}, {"log10", 0, vp::kInf}, {"sqrt", 0, vp::kInf}, {"sin", -vp::kInf, vp::kInf}, {"cos", -vp::kInf, vp::kInf},
                  {"tan", -1.5, 1.5}, {"acos", -1, 1}, {"asin", -1, 1}, {"atan", -vp::kInf, vp::kInf}, {"abs", 0, vp::kInf}, {"abs", -vp::kInf, 0}};
template <class T> T apply(int f, const T &x) {
  using namespace std;
  switch (f) {
    case 0: return exp(x);
    case 1: return log(x);
    case 2: return log10(x);
    case 3: return sqrt(x);
    case 4: return sin(x);
    case 5: return cos(x);
    case 6: return tan(x);
    case 7: return acos(x);
    case 8: return asin(x);
    case 9: return atan(x);
    default: return abs(x);
  }
}
// derivative of function f at x, times t
double slope(int f, double x, double t) {
  switch (f) {
    case 0: return std::exp(x) * t;
    case 1: return t / x;
    case 2: return t / (x * std::log(10.0));
    case 3: return t / (2 * std::sqrt(x));
    case 4: return std::cos(x) * t;
    case 5: return -std::sin(x) * t;
    case 6: return t / (std::cos(x) * std::cos(x));
    case 7: return -t / std::sqrt(1 - x * x);
    case 8: return t / std::sqrt(1 - x * x);
    case 9: return t / (1 + x * x);
    case 10: return t;
    default: return -t;
  }
}
double value(int f, double x) { return f == 10 ? x : f == 11 ? -x : apply<double>(f, x); }
template <size_t N> void elementary(size_t n, int f) {
  vp_div_policy(0);
  const Num a = num("a", n, fns[f].lo, fns[f].hi);
  const auto x = make<N>(a);
  if (f == 6) vp::assume_ne(std::cos(a.v), 0);
  const auto r = apply(f, x);
  expect<N>(r, value(f, a.v), each(a, [&](double t) { return slope(f, a.v, t); }), fns[f].name);
  expect<N>(x, a.v, a.d, "argument keeps its value");
}
// outer(inner(a) * b): the chain rule through two functions and a product
template <size_t N> void chain(size_t n, int f, int g) {
  vp_div_policy(0);
  const Num a = num("a", n, fns[g].lo, fns[g].hi), b = num("b", n);
  if (g == 6) vp::assume_ne(std::cos(a.v), 0);
  const double z = value(g, a.v) * b.v;
  if (fns[f].lo > -vp::kInf) vp::assume_lt(fns[f].lo, z);
  if (fns[f].hi < vp::kInf) vp::assume_lt(z, fns[f].hi);
  if (f == 6) vp::assume_ne(std::cos(z), 0);
  const auto r = apply(f, apply(g, make<N>(a)) * make<N>(b));
  expect<N>(r, value(f, z), each(a, b, [&](double da, double db) { return slope(f, z, slope(g, a.v, da) * b.v + value(g, a.v) * db); }), std::string(fns[f].name) + " of " + fns[g].name);
}
template <size_t N> void powScalar(size_t n, double p, bool positive) {
  vp_div_policy(0);
  const Num a = positive ? num("a", n, 0, vp::kInf) : num("a", n);
  if (!positive) vp::assume_ne(a.v, 0);
  const auto r = pow(make<N>(a), p);
  const double v = std::pow(a.v, p), s = p == 0 ? 0.0 : p * std::pow(a.v, p - 1);
  expect<N>(r, v, each(a, [&](double t) { return s * t; }), "pow(a, constant)");
}
template <size_t N> void powAny(size_t n) {
  vp_div_policy(0);
  const Num a = num("a", n, 0, vp::kInf);
  const double p = vp::real("p");
  const auto r = pow(make<N>(a), p);
  expect<N>(r, std::pow(a.v, p), each(a, [&](double t) { return p * std::pow(a.v, p - 1) * t; }), "pow(a, s)");
}
template <size_t N> void powAtZero(size_t n, double p) {
  Num a = num("a", n);
  a.v = 0;
  const auto r = pow(make<N>(a), p);
  vp::check_eq(r.GetValue(), p == 0 ? 1.0 : 0.0, "pow(0, constant): value");
  if (p == 0 || p >= 1) for (size_t i = 0; i < n; i++) vp::check_eq(r.GetDerivatives()[i], p == 1 ? a.d[i] : 0.0, "pow(0, constant): derivative " + vp::str(i));
}
template <size_t N> void powBoth(size_t n) {
  vp_div_policy(0);
  const Num a = num("a", n, 0, vp::kInf), b = num("b", n);
  const auto r = pow(make<N>(a), make<N>(b));
  const double v = std::pow(a.v, b.v);
  expect<N>(r, v, each(a, b, [&](double da, double db) { return v * (db * std::log(a.v) + b.v * da / a.v); }), "pow(a, b)");
}
template <size_t N> void absAtZero(size_t n) {
  Num a = num("a", n);
  a.v = 0;
  vp::check_eq(abs(make<N>(a)).GetValue(), 0, "abs(0)");
}
template <size_t N> void all(size_t n) {
  const std::string t = vp::str(n) + (N ? " derivatives" : " derivatives (run-time count)");
  for (int f = 0; f < 12; f++) vp::add(std::string(fns[f].name) + (f == 11 ? " negative " : " ") + t, 0, [=] { elementary<N>(n, f); });
  for (double p : {-3., -2., -1., 0., 1., 2., 3., 5., 12.}) vp::add("pow to " + std::to_string(int(p)) + " " + t, 0, [=] { powScalar<N>(n, p, false); });
  for (double p : {-1.5, -0.5, 0.25, 0.5, 1.5, 2.5, 0.3, 4.7}) vp::add("pow to " + std::to_string(p) + " " + t, 0, [=] { powScalar<N>(n, p, true); });
  for (double p : {0., 1., 2., 3., 0.5, 1.5}) vp::add("pow of 0 to " + std::to_string(p) + " " + t, 0, [=] { powAtZero<N>(n, p); });
  vp::add("pow to a symbolic exponent " + t, 0, [=] { powAny<N>(n); });
  vp::add("pow to a differentiable exponent " + t, 0, [=] { powBoth<N>(n); });
  vp::add("abs at 0 " + t, 0, [=] { absAtZero<N>(n); });
}
void vp_register() {
  all<1>(1); all<2>(2); all<3>(3); all<5>(5);
  all<0>(1); all<0>(2); all<0>(4);
  for (int f = 0; f < 12; f++) for (int g = 0; g < 12; g++) vp::add(std::string("chain ") + fns[f].name + (f == 11 ? "- of " : " of ") + fns[g].name + (g == 11 ? "-" : ""), f == g || f == 6 || f == 7 || f == 8 ? 1 : 0, [=] { chain<2>(2, f, g); });
}
