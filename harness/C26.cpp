// nested differentiable numbers deliver second derivatives
#include "ad.hpp"
using namespace ad;
// inner number: value and n derivatives; nested number: an inner value and m inner derivatives
struct Nest { Num v; vector<Num> g; };
template <size_t N, size_t M> using NT = ADT<AD<N>, M>;
inline Nest nest(const std::string &s, size_t n, size_t m, double lo = -vp::kInf, double hi = vp::kInf) {
  Nest r{num(s, n, lo, hi), {}};
  for (size_t j = 0; j < m; j++) r.g.push_back(num(s + "_g" + vp::str(j), n));
  return r;
}
template <size_t N, size_t M> NT<N, M> build(const Nest &a) {
  const auto zero = constant<N>(0, a.v.d.size());
  if constexpr (M == 0) {
    NT<N, M> r(make<N>(a.v), a.g.size());
    for (size_t j = 0; j < a.g.size(); j++) r = r + NT<N, M>(zero, a.g.size(), j) * make<N>(a.g[j]);
    return r;
  } else {
    NT<N, M> r(make<N>(a.v));
    for (size_t j = 0; j < a.g.size(); j++) r = r + NT<N, M>(zero, j) * make<N>(a.g[j]);
    return r;
  }
}
template <size_t N, size_t M> void same(const NT<N, M> &r, const Nest &e, const std::string &l) {
  expect<N>(r.GetValue(), e.v.v, e.v.d, l + ": inner value");
  const auto d = r.GetDerivatives();
  vp::check(d.size() == e.g.size() && r.GetNumberOfDerivatives() == e.g.size(), l + ": number of derivatives");
  for (size_t j = 0; j < e.g.size() && j < d.size(); j++) expect<N>(d[j], e.g[j].v, e.g[j].d, l + ": inner derivative " + vp::str(j));
}
// f with first and second derivative at x
Nest through(const Nest &a, double f, double f1, double f2) {
  Nest r{{f, each(a.v, [&](double t) { return f1 * t; })}, {}};
  for (auto &g : a.g) r.g.push_back({f1 * g.v, each(a.v, g, [&](double dx, double dg) { return f2 * dx * g.v + f1 * dg; })});
  return r;
}
// algebra of inner numbers, written out
Num plus(const Num &a, const Num &b, double s = 1) { return {a.v + s * b.v, each(a, b, [&](double x, double y) { return x + s * y; })}; }
Num times(const Num &a, const Num &b) { return {a.v * b.v, each(a, b, [&](double x, double y) { return x * b.v + a.v * y; })}; }
Num over(const Num &a, const Num &b) { return {a.v / b.v, each(a, b, [&](double x, double y) { return (x * b.v - a.v * y) / (b.v * b.v); })}; }
Num scale(const Num &a, double s) { return {a.v * s, each(a, [&](double x) { return x * s; })}; }
struct Fn { const char *name; double lo, hi; };
const Fn fns[] = {{"exp", -vp::kInf, vp::kInf}, {"log", 0, vp::kInf}, {"log10", 0, vp::kInf}, {"sqrt", 0, vp::kInf}, {"sin", -vp::kInf, vp::kInf}, {"cos", -vp::kInf, vp::kInf},
                  {"tan", -1.5, 1.5}, {"acos", -1, 1}, {"asin", -1, 1}, {"atan", -vp::kInf, vp::kInf}, {"abs", 0, vp::kInf}, {"abs negative", -vp::kInf, 0}};
template <class T> T apply(int f, const T &x) {
  using namespace std;
  switch (f) {
    case 0: return exp(x); case 1: return log(x); case 2: return log10(x); case 3: return sqrt(x); case 4: return sin(x); case 5: return cos(x);
    case 6: return tan(x); case 7: return acos(x); case 8: return asin(x); case 9: return atan(x); default: return abs(x);
  }
}
Nest expected(int f, const Nest &a) {
  const double x = a.v.v, L = std::log(10.0);
  switch (f) {
    case 0: return through(a, std::exp(x), std::exp(x), std::exp(x));
    case 1: return through(a, std::log(x), 1 / x, -1 / (x * x));
    case 2: return through(a, std::log10(x), 1 / (x * L), -1 / (x * x * L));
    case 3: { double s = std::sqrt(x); return through(a, s, 1 / (2 * s), -1 / (4 * x * s)); }
    case 4: return through(a, std::sin(x), std::cos(x), -std::sin(x));
    case 5: return through(a, std::cos(x), -std::sin(x), -std::cos(x));
    case 6: { double c = std::cos(x); return through(a, std::tan(x), 1 / (c * c), 2 * std::sin(x) / (c * c * c)); }
    case 7: { double q = 1 - x * x, s = std::sqrt(q); return through(a, std::acos(x), -1 / s, -x / (q * s)); }
    case 8: { double q = 1 - x * x, s = std::sqrt(q); return through(a, std::asin(x), 1 / s, x / (q * s)); }
    case 9: { double q = 1 + x * x; return through(a, std::atan(x), 1 / q, -2 * x / (q * q)); }
    case 10: return through(a, x, 1, 0);
    default: return through(a, -x, -1, 0);
  }
}
template <size_t N, size_t M> void elementary(size_t n, size_t m, int f) {
  vp_div_policy(0);
  const Nest a = nest("a", n, m, fns[f].lo, fns[f].hi);
  if (f == 6) vp::assume_ne(std::cos(a.v.v), 0);
  same<N, M>(apply(f, build<N, M>(a)), expected(f, a), fns[f].name);
}
template <size_t N, size_t M> void arith(size_t n, size_t m, int op) {
  vp_div_policy(0);
  const Nest a = nest("a", n, m), b = nest("b", n, m);
  const Num s = num("s", n);
  const auto x = build<N, M>(a), y = build<N, M>(b);
  const auto t = make<N>(s);
  Nest r, q, p;
  auto per = [&](const Num &v, auto f) { Nest e{v, {}}; for (size_t j = 0; j < m; j++) e.g.push_back(f(a.g[j], b.g[j])); return e; };
  if (op == 3) { vp::assume_ne(b.v.v, 0); vp::assume_ne(s.v, 0); vp::assume_ne(a.v.v, 0); }
  switch (op) {
    case 0:
      same<N, M>(x + y, per(plus(a.v, b.v), [&](auto &g, auto &h) { return plus(g, h); }), "a+b");
      same<N, M>(x + t, per(plus(a.v, s), [&](auto &g, auto &) { return g; }), "a+s");
      same<N, M>(t + x, per(plus(a.v, s), [&](auto &g, auto &) { return g; }), "s+a");
      break;
    case 1:
      same<N, M>(x - y, per(plus(a.v, b.v, -1), [&](auto &g, auto &h) { return plus(g, h, -1); }), "a-b");
      same<N, M>(x - t, per(plus(a.v, s, -1), [&](auto &g, auto &) { return g; }), "a-s");
      same<N, M>(t - x, per(plus(s, a.v, -1), [&](auto &g, auto &) { return scale(g, -1); }), "s-a");
      same<N, M>(-x, per(scale(a.v, -1), [&](auto &g, auto &) { return scale(g, -1); }), "-a");
      break;
    case 2:
      same<N, M>(x * y, per(times(a.v, b.v), [&](auto &g, auto &h) { return plus(times(g, b.v), times(a.v, h)); }), "a*b");
      same<N, M>(x * t, per(times(a.v, s), [&](auto &g, auto &) { return times(g, s); }), "a*s");
      same<N, M>(t * x, per(times(a.v, s), [&](auto &g, auto &) { return times(g, s); }), "s*a");
      break;
    default:
      same<N, M>(x / y, per(over(a.v, b.v), [&](auto &g, auto &h) { return over(plus(times(g, b.v), times(a.v, h), -1), times(b.v, b.v)); }), "a/b");
      same<N, M>(x / t, per(over(a.v, s), [&](auto &g, auto &) { return over(g, s); }), "a/s");
      same<N, M>(t / x, per(over(s, a.v), [&](auto &g, auto &) { return scale(over(times(s, g), times(a.v, a.v)), -1); }), "s/a");
  }
  same<N, M>(x, a, "operand keeps its value");
}
template <size_t N, size_t M> void powers(size_t n, size_t m, int kind) {
  vp_div_policy(0);
  const Nest a = nest("a", n, m, 0, vp::kInf);
  const double x = a.v.v;
  if (kind == 0) {  // symbolic exponent that carries derivatives itself
    const Num p = num("p", n);
    const double f = std::pow(x, p.v), f1 = std::pow(x, p.v - 1), l = std::log(x);
    Nest e{{f, each(a.v, p, [&](double dx, double dp) { return f * (dp * l + p.v * dx / x); })}, {}};
    for (auto &g : a.g) {
      Num pf{p.v * f1, each(a.v, p, [&](double dx, double dp) { return dp * f1 + p.v * f1 * (dp * l + (p.v - 1) * dx / x); })};
      e.g.push_back(times(pf, g));
    }
    same<N, M>(pow(build<N, M>(a), make<N>(p)), e, "pow(a, inner)");
  } else {  // both nested
    const Nest b = nest("b", n, m);
    const double f = std::pow(x, b.v.v), l = std::log(x);
    Num F{f, each(a.v, b.v, [&](double dx, double dp) { return f * (dp * l + b.v.v * dx / x); })};
    Num Lg{l, each(a.v, [&](double dx) { return dx / x; })};
    Nest e{F, {}};
    for (size_t j = 0; j < m; j++) e.g.push_back(times(F, plus(times(b.g[j], Lg), times(b.v, over(a.g[j], a.v)))));
    same<N, M>(pow(build<N, M>(a), build<N, M>(b)), e, "pow(a, b)");
  }
}
// the Hessian of a function of two variables, seeded the way a user does it
template <size_t dummy = 0> void hessian(int which) {
  vp_div_policy(0);
  using I = AD<2>;
  using O = ADT<I, 2>;
  const double x = vp::positive("x"), y = vp::positive("y");
  const O X(I(x, 0), 0), Y(I(y, 1), 1);
  O r = which == 0 ? X * X * Y + Y / X : which == 1 ? sin(X * Y) : which == 2 ? exp(X) * log(Y) : sqrt(X * X + Y * Y);
  double v, g[2], h[2][2];
  if (which == 0) { v = x * x * y + y / x; g[0] = 2 * x * y - y / (x * x); g[1] = x * x + 1 / x; h[0][0] = 2 * y + 2 * y / (x * x * x); h[0][1] = h[1][0] = 2 * x - 1 / (x * x); h[1][1] = 0; }
  else if (which == 1) { double s = std::sin(x * y), c = std::cos(x * y); v = s; g[0] = y * c; g[1] = x * c; h[0][0] = -y * y * s; h[0][1] = h[1][0] = c - x * y * s; h[1][1] = -x * x * s; }
  else if (which == 2) { double E = std::exp(x), l = std::log(y); v = E * l; g[0] = E * l; g[1] = E / y; h[0][0] = E * l; h[0][1] = h[1][0] = E / y; h[1][1] = -E / (y * y); }
  else { double q = x * x + y * y, s = std::sqrt(q); v = s; g[0] = x / s; g[1] = y / s; h[0][0] = y * y / (q * s); h[0][1] = h[1][0] = -x * y / (q * s); h[1][1] = x * x / (q * s); }
  expect<2>(r.GetValue(), v, {g[0], g[1]}, "value and gradient");
  for (size_t i = 0; i < 2; i++) expect<2>(r.GetDerivatives()[i], g[i], {h[i][0], h[i][1]}, "row " + vp::str(i) + " of the Hessian");
}
template <size_t N, size_t M> void all(size_t n, size_t m) {
  const std::string t = vp::str(n) + (N ? "" : "*") + " in " + vp::str(m) + (M ? "" : "*");
  for (int f = 0; f < 12; f++) {
    if constexpr (N == 0) if (f == 0) continue;
    vp::add(std::string(fns[f].name) + " " + t, 0, [=] { elementary<N, M>(n, m, f); });
  }
  for (int o = 0; o < 4; o++) vp::add("arithmetic " + vp::str(size_t(o)) + " " + t, 0, [=] { arith<N, M>(n, m, o); });
  if constexpr (N != 0) for (int k = 0; k < 2; k++) vp::add("pow " + vp::str(size_t(k)) + " " + t, 0, [=] { powers<N, M>(n, m, k); });
}
void vp_register() {
  all<1, 1>(1, 1); all<2, 2>(2, 2); all<1, 2>(1, 2); all<3, 1>(3, 1); all<2, 0>(2, 2);
  for (int w = 0; w < 4; w++) vp::add("Hessian " + vp::str(size_t(w)), 0, [=] { hessian<>(w); });
}
