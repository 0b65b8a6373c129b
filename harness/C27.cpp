// comparisons of differentiable numbers compare their values
#include "ad.hpp"
using namespace ad;
template <class A, class B> bool cmp(int op, const A &a, const B &b) {
  switch (op) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; }
}
// rel: -1 a<b, 0 a==b, 1 a>b
void relate(double a, double b, int rel) { if (rel < 0) vp::assume_lt(a, b); else if (rel > 0) vp::assume_lt(b, a); else vp::assume_eq(a, b); }
bool want(int op, int rel) { switch (op) { case 0: return rel < 0; case 1: return rel <= 0; case 2: return rel > 0; case 3: return rel >= 0; case 4: return rel == 0; default: return rel != 0; } }
const char *ops[] = {"<", "<=", ">", ">=", "==", "!="};
template <size_t N> void compare(size_t n, int op, int rel, int kind) {
  const Num a = num("a", n), b = num("b", n);
  relate(a.v, b.v, rel);
  const auto x = make<N>(a), y = make<N>(b);
  const std::string l = std::string(" ") + ops[op] + " ";
  if (kind == 0) vp::check(cmp(op, x, y) == want(op, rel), "number" + l + "number");
  if (kind == 1) vp::check(cmp(op, x, b.v) == want(op, rel), "number" + l + "scalar");
  if (kind == 2) vp::check(cmp(op, a.v, y) == want(op, rel), "scalar" + l + "number");
  if (kind == 3 && rel == 0) vp::check(cmp(op, x, x) == want(op, 0), "number" + l + "itself");
}
// nothing assumed: every feasible branch must agree with the order of the values
template <size_t N> void open(size_t n, int op) {
  const Num a = num("a", n), b = num("b", n);
  const auto x = make<N>(a), y = make<N>(b);
  const bool r = cmp(op, x, y);
  const std::string l = std::string("a ") + ops[op] + " b decided ";
  switch (op) {
    case 0: if (r) vp::check_lt(a.v, b.v, l + "true"); else vp::check_le(b.v, a.v, l + "false", 0); break;
    case 1: if (r) vp::check_le(a.v, b.v, l + "true", 0); else vp::check_lt(b.v, a.v, l + "false"); break;
    case 2: if (r) vp::check_lt(b.v, a.v, l + "true"); else vp::check_le(a.v, b.v, l + "false", 0); break;
    case 3: if (r) vp::check_le(b.v, a.v, l + "true", 0); else vp::check_lt(a.v, b.v, l + "false"); break;
    case 4: if (r) vp::check_eq(a.v, b.v, l + "true", 0); else vp::check_ne(a.v, b.v, l + "false"); break;
    default: if (r) vp::check_ne(a.v, b.v, l + "true"); else vp::check_eq(a.v, b.v, l + "false", 0);
  }
}
// results of operations compare like plain numbers
template <size_t N> void derived(size_t n) {
  const Num a = num("a", n), b = num("b", n);
  vp::assume_lt(a.v, b.v);
  const auto x = make<N>(a), y = make<N>(b);
  vp::check(x - y < 0.0, "a-b < 0");
  vp::check(y - x > 0.0, "b-a > 0");
  vp::check((x < y ? x : y) == a.v, "minimum");
  vp::check((x > y ? x : y) == b.v, "maximum");
  vp::check(std::min(x, y) == x && std::max(x, y) == y, "std::min and std::max");
  vp::check(x * x >= 0.0, "square");
  vp::check(2.0 * x < y + y, "scaled");
  expect<N>(std::min(x, y), a.v, a.d, "minimum keeps its derivatives");
}
template <size_t N> void all(size_t n) {
  const std::string t = vp::str(n) + (N ? " derivatives" : " derivatives (run-time count)");
  const char *rels[] = {"less", "equal", "greater"}, *kinds[] = {"number, number", "number, scalar", "scalar, number", "itself"};
  for (int op = 0; op < 6; op++) {
    for (int rel = -1; rel <= 1; rel++) for (int k = 0; k < 4; k++) if (k < 3 || rel == 0) vp::add(std::string(kinds[k]) + " " + ops[op] + " when " + rels[rel + 1] + " " + t, 0, [=] { compare<N>(n, op, rel, k); });
    vp::add(std::string("any ") + ops[op] + " " + t, 0, [=] { open<N>(n, op); });
  }
  vp::add("derived " + t, 0, [=] { derived<N>(n); });
}
void vp_register() { all<1>(1); all<2>(2); all<3>(3); all<0>(1); all<0>(3); }
