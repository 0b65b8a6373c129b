#include <array>
// Symbolic runtime.  Doubles that depend on inputs are NaN-boxed handles to nodes of a
// hash-consed expression DAG over the reals; every fp operation of the instrumented code
// calls into this file.  Branches on symbolic values fork the process after the solver
// has found both sides feasible; assertions become SMT queries.
//
//   harness --list
//   harness --run I --out FILE [--max-paths N] [--seed S] [--rlimit R]
#include <fcntl.h>
#include <gmpxx.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cxxabi.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>
#include <z3++.h>

#include "vp.hpp"

namespace {
typedef uint32_t Ref;  // node index << 1 | negated
enum Op : uint8_t { CONST, VAR, ADD, MUL, DIV, ITE, FUN };
struct Node {
  Op op;
  Ref a = 0, b = 0;
  uint32_t cond = 0;  // ITE
  mpq_class k;        // CONST
  std::string name;   // VAR, FUN
};
struct Cond { int pred; Ref a, b; };  // pred: LLVM fcmp: 1 eq 2 gt 3 ge 4 lt 5 le 6 ne(one)
std::vector<Node> N;
std::vector<Cond> CS;
struct Key { int op; Ref a, b; uint32_t c; std::string s; bool operator==(const Key &o) const { return op == o.op && a == o.a && b == o.b && c == o.c && s == o.s; } };
struct KeyH { size_t operator()(const Key &k) const { size_t h = k.op; h = h * 1000003 ^ k.a; h = h * 1000003 ^ k.b; h = h * 1000003 ^ k.c; return h * 1000003 ^ std::hash<std::string>()(k.s); } };
std::unordered_map<Key, uint32_t, KeyH> H;

struct Shared {
  long paths, forks, queries, unsat, sat, unknown, syntactic, checks, cands, truncated, divchecks, divassumed, inconclusive, vacuous, ops, toolerr, dead;
  double solver_s;
  int stop;
} *S;
int out_fd = -1;
std::string case_name;
long max_paths = 200, opt_rlimit = 60000000, op_budget = 10000000;
unsigned seed = 1;
int div_check = 1;
bool in_solver = false, in_rt = false;
long path_checks = 0, path_ops = 0;
sigjmp_buf abort_jmp;
bool jmp_ok = false;
volatile int virt_ticks = 0;
std::string crash_label;

uint32_t node_limit = 1500000;
void emit(const std::string &line) { std::string l = line + "\n"; if (write(out_fd, l.data(), l.size()) < 0) {} }
std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

[[noreturn]] void path_abort(int code) { siglongjmp(abort_jmp, code); }
void candidates(const std::string &kind, const std::string &label, bool haveGoal, int pred, uint32_t a, uint32_t b, const z3::expr *goalE, const std::vector<uint32_t> &goalRoots);
[[noreturn]] void tool_error(const std::string &m) {
  emit("{\"t\":\"toolerr\",\"msg\":\"" + jesc(m) + "\"}");
  S->toolerr++;
  // inputs that reach this point are handed to the replay, which decides on the real code whether one of them breaks the property
  static bool again = false;
  if (!again) {
    again = true;
    candidates("unencodable", "code that cannot be encoded is reached", false, 0, 0, 0, nullptr, {});
  }
  path_abort(2);
}

// ---------------------------------------------------------------- nodes
Ref mk(const Key &k, Node n) {
  auto it = H.find(k);
  if (it != H.end()) return it->second << 1;
  uint32_t id = N.size();
  if (id > node_limit) { crash_label = "does not terminate within the operation budget"; path_abort(3); }
  N.push_back(std::move(n));
  H.emplace(k, id);
  return id << 1;
}
Ref konst(const mpq_class &q) {
  bool neg = q < 0;
  mpq_class p = neg ? mpq_class(-q) : q;
  Key k{CONST, 0, 0, 0, p.get_str()};
  Node n; n.op = CONST; n.k = p;
  return mk(k, n) | (neg ? 1 : 0);
}
inline bool isK(Ref r) { return N[r >> 1].op == CONST; }
mpq_class kval(Ref r) { return (r & 1) ? mpq_class(-N[r >> 1].k) : N[r >> 1].k; }
inline Ref neg(Ref r) { if (isK(r) && N[r >> 1].k == 0) return r & ~1u; return r ^ 1; }
Ref add(Ref a, Ref b) {
  if (isK(a) && isK(b)) return konst(kval(a) + kval(b));
  if (isK(a) && N[a >> 1].k == 0) return b;
  if (isK(b) && N[b >> 1].k == 0) return a;
  if (a == (b ^ 1)) return konst(0);
  if (a > b) std::swap(a, b);
  bool n = false;
  if ((a & 1)) { n = true; a ^= 1; b ^= 1; }
  Node nn; nn.op = ADD; nn.a = a; nn.b = b;
  Ref r = mk(Key{ADD, a, b, 0, ""}, nn);
  return n ? neg(r) : r;
}
Ref mul(Ref a, Ref b) {
  if (isK(a) && isK(b)) return konst(kval(a) * kval(b));
  if (isK(b)) std::swap(a, b);
  if (isK(a)) {
    if (N[a >> 1].k == 0) return konst(0);
    if (N[a >> 1].k == 1) return (a & 1) ? neg(b) : b;
    // fold nested constants
    const Op bop = N[b >> 1].op; const Ref ba = N[b >> 1].a, bb = N[b >> 1].b;
    if (bop == MUL && isK(ba)) { Ref k = konst(kval(a) * kval(ba)); Ref r = mul(k, bb); return (b & 1) ? neg(r) : r; }
  }
  bool n = ((a ^ b) & 1);
  a &= ~1u; b &= ~1u;
  if (!isK(a) && a > b) std::swap(a, b);
  Node nn; nn.op = MUL; nn.a = a; nn.b = b;
  Ref r = mk(Key{MUL, a, b, 0, ""}, nn);
  return n ? neg(r) : r;
}
Ref divide(Ref a, Ref b) {  // b known non-zero
  if (isK(b)) return mul(konst(mpq_class(1) / kval(b)), a);
  if (isK(a) && N[a >> 1].k == 0) return a;
  bool n = ((a ^ b) & 1);
  a &= ~1u; b &= ~1u;
  if (a == b) return konst(n ? -1 : 1);
  if (N[a >> 1].op == MUL) {  // (x*b)/b == x
    Ref x = N[a >> 1].a, y = N[a >> 1].b, o = 0;
    bool hit = false;
    if ((x & ~1u) == b) { o = (x & 1) ? neg(y) : y; hit = true; }
    else if ((y & ~1u) == b) { o = (y & 1) ? neg(x) : x; hit = true; }
    if (hit) return n ? neg(o) : o;
  }
  Node nn; nn.op = DIV; nn.a = a; nn.b = b;
  Ref r = mk(Key{DIV, a, b, 0, ""}, nn);
  return n ? neg(r) : r;
}
uint32_t cond(int pred, Ref a, Ref b) {
  static std::map<std::tuple<int, Ref, Ref>, uint32_t> M;
  auto k = std::make_tuple(pred, a, b);
  auto it = M.find(k);
  if (it != M.end()) return it->second;
  CS.push_back({pred, a, b});
  return M[k] = CS.size() - 1;
}
Ref ite(uint32_t c, Ref x, Ref y) {
  if (x == y) return x;
  Node nn; nn.op = ITE; nn.a = x; nn.b = y; nn.cond = c;
  return mk(Key{ITE, x, y, c, ""}, nn);
}
Ref fun1(const std::string &f, Ref a) { Node nn; nn.op = FUN; nn.name = f; nn.a = a; return mk(Key{FUN, a, 0, 0, f}, nn); }
Ref fun2(const std::string &f, Ref a, Ref b) { Node nn; nn.op = FUN; nn.name = f; nn.a = a; nn.b = b; return mk(Key{FUN, a, b, 1, f}, nn); }

// ---------------------------------------------------------------- boxing
const uint64_t TAG = 0x7FFDull << 48;
inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline bool isSym(double d) { return ((bits(d) >> 48) & 0x7FFF) == 0x7FFD; }
inline Ref getSym(double d) { uint64_t u = bits(d); Ref r = (Ref)(u & 0xFFFFFFFFu); return (u >> 63) ? neg(r) : r; }
double box(Ref r) {
  if (isK(r)) {
    mpq_class q = kval(r);
    double d = q.get_d();
    if (std::isfinite(d) && mpq_class(d) == q) return d;
  }
  uint64_t u = TAG | r;
  double d; memcpy(&d, &u, 8);
  return d;
}
Ref toRef(double d) {
  if (isSym(d)) return getSym(d);
  return konst(mpq_class(d));
}
inline bool special(double d) { return !isSym(d) && !std::isfinite(d); }
inline void tick() {
  S->ops++;
  if (++path_ops > op_budget) { crash_label = "does not terminate within the operation budget"; path_abort(3); }
}
struct RT { bool o; RT() : o(in_rt) { in_rt = true; } ~RT() { in_rt = o; } };

// ---------------------------------------------------------------- intervals (lemma engine for definedness)
struct Iv { bool L = false, U = false, ls = false, us = false; mpq_class lo, hi; };
std::unordered_map<uint32_t, Iv> IVM;
std::unordered_map<uint32_t, Iv> varIv;
Iv ivneg(const Iv &x) { Iv r; r.L = x.U; r.ls = x.us; if (r.L) r.lo = -x.hi; r.U = x.L; r.us = x.ls; if (r.U) r.hi = -x.lo; return r; }
bool nonneg(const Iv &x) { return x.L && x.lo >= 0; }
bool pos(const Iv &x) { return x.L && (x.lo > 0 || (x.lo == 0 && x.ls)); }
Iv interval(Ref r);
Iv ivmulnn(const Iv &x, const Iv &y) {  // both nonneg
  Iv r; r.L = true; r.lo = x.lo * y.lo; r.ls = pos(x) && pos(y) && (r.lo == 0 || x.ls || y.ls);
  if (x.U && y.U) { r.U = true; r.hi = x.hi * y.hi; r.us = (x.us || y.us) && r.hi > 0; }
  return r;
}
Iv ivcalc(uint32_t id) {
  const Node n = N[id];
  Iv r;
  switch (n.op) {
    case CONST: r.L = r.U = true; r.lo = r.hi = n.k; break;
    case VAR: { auto it = varIv.find(id); if (it != varIv.end()) r = it->second; break; }
    case ADD: {
      Iv x = interval(n.a), y = interval(n.b);
      if (x.L && y.L) { r.L = true; r.lo = x.lo + y.lo; r.ls = x.ls || y.ls; }
      if (x.U && y.U) { r.U = true; r.hi = x.hi + y.hi; r.us = x.us || y.us; }
      break;
    }
    case MUL: {
      Iv x = interval(n.a), y = interval(n.b);
      if (n.a == n.b) {
        if (!nonneg(x) && x.U && x.hi <= 0) x = ivneg(x);
        if (nonneg(x)) { r = ivmulnn(x, x); } else { r.L = true; r.lo = 0; }
        break;
      }
      if (nonneg(x) && nonneg(y)) { r = ivmulnn(x, y); break; }
      if (nonneg(x) && y.U && y.hi <= 0) { r = ivneg(ivmulnn(x, ivneg(y))); break; }
      if (x.U && x.hi <= 0 && nonneg(y)) { r = ivneg(ivmulnn(ivneg(x), y)); break; }
      if (x.U && x.hi <= 0 && y.U && y.hi <= 0) { r = ivmulnn(ivneg(x), ivneg(y)); break; }
      if (x.L && x.U && y.L && y.U) {
        mpq_class p[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
        r.L = r.U = true; r.lo = r.hi = p[0];
        for (auto &q : p) { if (q < r.lo) r.lo = q; if (q > r.hi) r.hi = q; }
      }
      break;
    }
    case DIV: {
      Iv x = interval(n.a), y = interval(n.b);
      bool flip = false;
      if (y.U && (y.hi < 0 || (y.hi == 0 && y.us))) { y = ivneg(y); x = ivneg(x); }
      if (!pos(y)) break;
      if (x.U && x.hi <= 0) { x = ivneg(x); flip = true; }
      if (!nonneg(x)) break;
      r.L = true; r.lo = y.U && y.hi > 0 ? mpq_class(x.lo / y.hi) : mpq_class(0);
      r.ls = (r.lo == 0) ? pos(x) : (x.ls || y.us);
      if (y.lo > 0 && x.U) { r.U = true; r.hi = x.hi / y.lo; r.us = x.us || y.ls; }
      if (flip) r = ivneg(r);
      break;
    }
    case ITE: {
      Iv x = interval(n.a), y = interval(n.b);
      if (x.L && y.L) { r.L = true; r.lo = x.lo < y.lo ? x.lo : y.lo; r.ls = (x.lo == y.lo) ? (x.ls && y.ls) : (x.lo < y.lo ? x.ls : y.ls); }
      if (x.U && y.U) { r.U = true; r.hi = x.hi > y.hi ? x.hi : y.hi; r.us = (x.hi == y.hi) ? (x.us && y.us) : (x.hi > y.hi ? x.us : y.us); }
      break;
    }
    case FUN:
      if (n.name == "sqrt") { r.L = true; Iv x = interval(n.a); r.ls = pos(x); }
      if (n.name == "exp" || n.name == "pow") { r.L = true; r.ls = true; }
      if (n.name == "sin" || n.name == "cos") { r.L = r.U = true; r.lo = -1; r.hi = 1; }
      break;
  }
  return r;
}
Iv interval(Ref r) {
  uint32_t id = r >> 1;
  auto it = IVM.find(id);
  Iv v;
  if (it == IVM.end()) { v = ivcalc(id); IVM[id] = v; } else v = it->second;
  return (r & 1) ? ivneg(v) : v;
}

// ---------------------------------------------------------------- z3
z3::context *C;
z3::context &ctx() { if (!C) { C = new z3::context(); } return *C; }
z3::expr kexpr(const mpq_class &q) { return ctx().real_val(q.get_str().c_str()); }
struct Frac { z3::expr num; std::map<unsigned, int> den; };  // den: atoms (z3 ast ids) -> exponent
std::unordered_map<uint32_t, Frac> FR;
std::map<unsigned, z3::expr> ATOM;
std::map<unsigned, int> atomSign;  // +1 if known positive
z3::expr nodeVar(uint32_t id) {
  const Node &n = N[id];
  std::string nm = n.op == VAR ? n.name : n.name + "#" + std::to_string(id);
  return ctx().real_const(nm.c_str());
}
z3::expr power(const z3::expr &e, int k) { z3::expr r = e; for (int i = 1; i < k; i++) r = r * e; return r; }
z3::expr denExpr(const std::map<unsigned, int> &d) {
  z3::expr r(ctx()); bool f = true;
  for (auto &p : d) { z3::expr t = power(ATOM.at(p.first), p.second); r = f ? t : r * t; f = false; }
  return f ? ctx().real_val(1) : r;
}
Frac frac(Ref r);
z3::expr condExpr(uint32_t c);
z3::expr scaleTo(const Frac &f, const std::map<unsigned, int> &den) {
  std::map<unsigned, int> miss;
  for (auto &p : den) { int have = 0; auto it = f.den.find(p.first); if (it != f.den.end()) have = it->second; if (p.second > have) miss[p.first] = p.second - have; }
  if (miss.empty()) return f.num;
  return f.num * denExpr(miss);
}
bool isNum(const z3::expr &e, int v) { std::string s; return e.is_numeral(s) && e.get_decimal_string(1) == std::to_string(v); }
Frac fcalc(uint32_t id) {
  const Node n = N[id];
  switch (n.op) {
    case CONST: return {kexpr(n.k), {}};
    case VAR: case FUN: return {nodeVar(id), {}};
    case ADD: case ITE: {
      Frac x = frac(n.a), y = frac(n.b);
      std::map<unsigned, int> d = x.den;
      for (auto &p : y.den) d[p.first] = std::max(d[p.first], p.second);
      z3::expr nx = scaleTo(x, d), ny = scaleTo(y, d);
      if (n.op == ADD) return {nx + ny, d};
      return {z3::ite(condExpr(n.cond), nx, ny), d};
    }
    case MUL: {
      Frac x = frac(n.a), y = frac(n.b);
      std::map<unsigned, int> d = x.den;
      for (auto &p : y.den) d[p.first] += p.second;
      // cancel an atom that is exactly one of the numerators
      z3::expr nx = x.num, ny = y.num;
      auto cancel = [&](z3::expr &e) { auto it = d.find(e.id()); if (it != d.end()) { if (--it->second == 0) d.erase(it); e = ctx().real_val(1); return true; } return false; };
      bool cx = cancel(nx), cy = cancel(ny);
      if (cx && cy) return {ctx().real_val(1), d};
      if (cx) return {ny, d};
      if (cy) return {nx, d};
      return {nx * ny, d};
    }
    case DIV: {
      Frac x = frac(n.a), y = frac(n.b);
      // x.num/x.den * y.den/y.num
      std::map<unsigned, int> d = x.den, up;
      for (auto &p : y.den) { int have = d.count(p.first) ? d[p.first] : 0; int c = std::min(have, p.second); if (c) { d[p.first] -= c; if (!d[p.first]) d.erase(p.first); } if (p.second > c) up[p.first] = p.second - c; }
      z3::expr num = up.empty() ? x.num : (isNum(x.num, 1) ? denExpr(up) : x.num * denExpr(up));
      z3::expr a = y.num;
      if (!ATOM.count(a.id())) {
        ATOM.emplace(a.id(), a);
        Iv iv = interval(n.b);
        atomSign[a.id()] = (pos(iv) && y.den.empty()) ? 1 : 0;
      }
      d[a.id()]++;
      return {num, d};
    }
  }
  abort();
}
Frac frac(Ref r) {
  uint32_t id = r >> 1;
  auto it = FR.find(id);
  if (it == FR.end()) {
    // iterative to avoid deep recursion
    std::vector<uint32_t> st{id};
    while (!st.empty()) {
      uint32_t t = st.back();
      if (FR.count(t)) { st.pop_back(); continue; }
      const Node &n = N[t];
      bool ok = true;
      auto need = [&](Ref q) { if (!FR.count(q >> 1)) { st.push_back(q >> 1); ok = false; } };
      if (n.op == ADD || n.op == MUL || n.op == DIV || n.op == ITE) { need(n.a); need(n.b); }
      if (n.op == ITE) { need(CS[n.cond].a); need(CS[n.cond].b); }
      if (ok) { FR.emplace(t, fcalc(t)); st.pop_back(); }
    }
    it = FR.find(id);
  }
  Frac f = it->second;
  if (r & 1) f.num = -f.num;
  return f;
}
// expression over the fraction's sign: num * (odd, not known positive denominators)
z3::expr signExpr(Ref d) {
  Frac f = frac(d);
  z3::expr e = f.num;
  for (auto &p : f.den) if ((p.second & 1) && atomSign[p.first] <= 0) e = e * ATOM.at(p.first);
  return e;
}
z3::expr cmpExpr(int pred, Ref a, Ref b) {
  Ref d = add(a, neg(b));
  z3::expr z = ctx().real_val(0);
  switch (pred & 7) {
    case 1: return frac(d).num == z;
    case 6: return frac(d).num != z;
    case 2: return signExpr(d) > z;
    case 3: return signExpr(d) >= z;
    case 4: return signExpr(d) < z;
    case 5: return signExpr(d) <= z;
    case 7: return ctx().bool_val(true);
    default: return ctx().bool_val(false);
  }
}
z3::expr condExpr(uint32_t c) {
  static std::unordered_map<uint32_t, z3::expr> M;
  auto it = M.find(c);
  if (it != M.end()) return it->second;
  z3::expr e = cmpExpr(CS[c].pred, CS[c].a, CS[c].b);
  M.emplace(c, e);
  return e;
}
struct PCE { z3::expr e; int pred; Ref a, b; bool want; };
std::vector<PCE> PC;
std::vector<uint32_t> VARS;

void collectFuns(Ref r, std::set<uint32_t> &seen, std::vector<uint32_t> &funs) {
  std::vector<uint32_t> st{r >> 1};
  while (!st.empty()) {
    uint32_t t = st.back(); st.pop_back();
    if (!seen.insert(t).second) continue;
    const Node &n = N[t];
    if (n.op == FUN) funs.push_back(t);
    if (n.op == ADD || n.op == MUL || n.op == DIV || n.op == ITE || n.op == FUN) { st.push_back(n.a >> 1); if (n.op != FUN || n.b) st.push_back(n.b >> 1); }
    if (n.op == ITE) { st.push_back(CS[n.cond].a >> 1); st.push_back(CS[n.cond].b >> 1); }
  }
}
void funAxioms(const std::vector<Ref> &roots, z3::expr_vector &ax) {
  std::set<uint32_t> seen; std::vector<uint32_t> funs;
  for (Ref r : roots) collectFuns(r, seen, funs);
  z3::expr z = ctx().real_val(0);
  std::set<std::pair<std::string, Ref>> have;
  for (size_t i = 0; i < funs.size(); i++) {
    Node n = N[funs[i]];
    z3::expr v = nodeVar(funs[i]);
    auto eqv = [&](Ref x) { Frac f = frac(x); return f.num == v * denExpr(f.den); };
    (void)eqv;
    if (n.name == "sqrt") {
      Frac f = frac(n.a);
      ax.push_back(v >= z);
      ax.push_back(f.num == v * v * denExpr(f.den));
    } else if (n.name == "exp") {
      ax.push_back(v > z);
    } else if (n.name == "pow") {
      ax.push_back(v > z);
    } else if (n.name == "sin" || n.name == "cos" || n.name == "tan") {
      if (have.insert({"trig", n.a}).second) {
        Ref s = fun1("sin", n.a), c = fun1("cos", n.a);
        z3::expr sv = nodeVar(s >> 1), cv = nodeVar(c >> 1);
        ax.push_back(sv * sv + cv * cv == ctx().real_val(1));
      }
      if (n.name == "tan") {
        z3::expr sv = nodeVar(fun1("sin", n.a) >> 1), cv = nodeVar(fun1("cos", n.a) >> 1);
        ax.push_back(v * cv == sv);
        ax.push_back(cv != z);
      }
    }
    // congruence with other occurrences
    for (size_t j = 0; j < i && funs.size() < 40; j++) {
      Node m = N[funs[j]];
      if (m.name != n.name || (n.name == "pow" && m.b != n.b)) continue;
      z3::expr same = frac(add(n.a, neg(m.a))).num == z;
      ax.push_back(z3::implies(same, v == nodeVar(funs[j])));
    }
  }
}

double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
z3::model *last_model = nullptr;
std::string dump_dir;
// 1 sat, 0 unsat, -1 unknown
int solve(const z3::expr_vector &as, long rlimit) {
  RT rt; in_solver = true;
  S->queries++;
  double t0 = now();
  int res = -1;
  delete last_model; last_model = nullptr;
  for (int attempt = 0; attempt < 2 && res < 0; attempt++) {
    try {
      z3::solver s = attempt == 0 ? z3::tactic(ctx(), "qfnra-nlsat").mk_solver() : z3::solver(ctx());
      z3::params p(ctx());
      p.set("rlimit", (unsigned)std::min<long>(attempt ? rlimit / 3 : rlimit, 4000000000l));
      p.set("random_seed", seed);
      s.set(p);
      for (unsigned i = 0; i < as.size(); i++) s.add(as[i]);
      if (!dump_dir.empty() && attempt == 0) { std::ofstream f(dump_dir + "/q" + std::to_string(S->queries) + "_" + std::to_string(getpid()) + ".smt2"); f << s.to_smt2(); }
      auto r = s.check();
      if (r == z3::sat) { res = 1; last_model = new z3::model(s.get_model()); }
      else if (r == z3::unsat) res = 0;
    } catch (z3::exception &e) { res = -1; }
  }
  double dt = now() - t0;
  S->solver_s += dt;
  if (getenv("VP_TRACE")) fprintf(stderr, "[solve] %s %.3fs\n", res == 1 ? "sat" : res == 0 ? "unsat" : "unknown", dt);
  if (res == 1) S->sat++; else if (res == 0) S->unsat++; else S->unknown++;
  in_solver = false;
  return res;
}
void pcRoots(std::vector<Ref> &roots) { for (auto &p : PC) { roots.push_back(p.a); roots.push_back(p.b); } }
void pcAssert(z3::expr_vector &as, std::vector<Ref> &roots, const std::vector<Ref> &extra) {
  // domains of the inputs
  for (uint32_t v : VARS) {
    auto it = varIv.find(v);
    if (it == varIv.end()) continue;
    z3::expr e = nodeVar(v);
    if (it->second.L) as.push_back(it->second.ls ? e > kexpr(it->second.lo) : e >= kexpr(it->second.lo));
    if (it->second.U) as.push_back(it->second.us ? e < kexpr(it->second.hi) : e <= kexpr(it->second.hi));
  }
  for (auto &p : PC) as.push_back(p.e);
  // denominators are non-zero (either checked or assumed when they were formed)
  for (auto &a : ATOM) as.push_back(atomSign[a.first] > 0 ? a.second > ctx().real_val(0) : a.second != ctx().real_val(0));
  roots.insert(roots.end(), extra.begin(), extra.end());
}
int query(const z3::expr &goal, const std::vector<Ref> &goalRoots, long rl = 0) {
  z3::expr_vector as(ctx());
  std::vector<Ref> roots;
  pcRoots(roots);
  pcAssert(as, roots, goalRoots);
  as.push_back(goal);
  funAxioms(roots, as);
  return solve(as, rl ? rl : opt_rlimit);
}

double inDomain(uint32_t v, double x);
// a violation query restricted to a slice of the inputs (most of them fixed): finds
// counterexamples of large obligations quickly; only "sat" is used, never "unsat"
bool probe(const z3::expr &goal, const std::vector<Ref> &goalRoots) {
  std::mt19937 rng(seed * 31 + 5 + S->checks);
  for (int t = 0; t < 2; t++) {
    z3::expr_vector as(ctx());
    std::vector<Ref> roots;
    pcRoots(roots);
    pcAssert(as, roots, goalRoots);
    as.push_back(goal);
    size_t n = VARS.size(), free1 = n ? rng() % n : 0, free2 = n ? rng() % n : 0, i = 0;
    for (uint32_t v : VARS) {
      size_t k = i++;
      int q = (int)(rng() % 65) - 32;
      if (k == free1 || k == free2) continue;
      as.push_back(nodeVar(v) == kexpr(mpq_class(inDomain(v, q / 16.0))));
    }
    funAxioms(roots, as);
    if (solve(as, opt_rlimit / 30) == 1) return true;
  }
  return false;
}

// ---------------------------------------------------------------- concrete evaluation (counterexample search)
typedef long double LD;
struct Eval {
  const std::map<uint32_t, double> &env;
  std::unordered_map<uint32_t, LD> memo;
  LD ev(Ref r) {
    uint32_t id = r >> 1;
    std::vector<uint32_t> st{id};
    while (!st.empty()) {
      uint32_t t = st.back();
      if (memo.count(t)) { st.pop_back(); continue; }
      const Node &n = N[t];
      bool ok = true;
      auto need = [&](Ref q) { if (!memo.count(q >> 1)) { st.push_back(q >> 1); ok = false; } };
      if (n.op >= ADD) { need(n.a); if (n.op != FUN || n.b) need(n.b); }
      if (n.op == ITE) { need(CS[n.cond].a); need(CS[n.cond].b); }
      if (!ok) continue;
      auto g = [&](Ref q) { LD v = memo[q >> 1]; return (q & 1) ? -v : v; };
      LD v = 0;
      switch (n.op) {
        case CONST: v = n.k.get_num().get_d() / (LD)n.k.get_den().get_d(); break;
        case VAR: v = env.at(t); break;
        case ADD: v = g(n.a) + g(n.b); break;
        case MUL: v = g(n.a) * g(n.b); break;
        case DIV: v = g(n.a) / g(n.b); break;
        case ITE: v = cmp(CS[n.cond].pred, g(CS[n.cond].a), g(CS[n.cond].b)) ? g(n.a) : g(n.b); break;
        case FUN: v = f(n.name, g(n.a), n.b ? g(n.b) : 0); break;
      }
      memo[t] = v;
      st.pop_back();
    }
    return (r & 1) ? -memo[id] : memo[id];
  }
  static bool cmp(int p, LD a, LD b) { switch (p & 7) { case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b; case 6: return a != b; case 7: return true; } return false; }
  static LD f(const std::string &n, LD a, LD b) {
#define F1(x) if (n == #x) return std::x(a);
    F1(sqrt) F1(exp) F1(log) F1(log10) F1(log2) F1(log1p) F1(expm1) F1(exp2) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(floor) F1(ceil) F1(round) F1(trunc) F1(cbrt) F1(rint) F1(nearbyint)
#undef F1
    if (n == "pow") return std::pow(a, b);
    if (n == "atan2") return std::atan2(a, b);
    if (n == "fmod") return std::fmod(a, b);
    if (n == "hypot") return std::hypot(a, b);
    return NAN;
  }
  bool pcHolds() { for (auto &p : PC) if (cmp(p.pred, ev(p.a), ev(p.b)) != p.want) return false; return true; }
};
double inDomain(uint32_t v, double x) {
  auto it = varIv.find(v);
  if (it == varIv.end()) return x;
  const Iv &iv = it->second;
  if (iv.L && iv.U) { double lo = iv.lo.get_d(), hi = iv.hi.get_d(); if (x < lo || x > hi || (x == lo && iv.ls) || (x == hi && iv.us)) x = lo + (hi - lo) * (std::fmod(std::fabs(x) * 0.37, 0.9375) + 0.03125); return x; }
  if (iv.L) { double lo = iv.lo.get_d(); if (x < lo || (x == lo && iv.ls)) x = lo + std::fabs(x - lo) + 0.25; }
  if (iv.U) { double hi = iv.hi.get_d(); if (x > hi || (x == hi && iv.us)) x = hi - std::fabs(x - hi) - 0.25; }
  return x;
}
double modelVal(const z3::model &m, uint32_t v) {
  z3::expr e = m.eval(nodeVar(v), true);
  std::string s = e.is_algebraic() || e.is_numeral() ? e.get_decimal_string(25) : "0";
  if (!s.empty() && s.back() == '?') s.pop_back();
  return strtod(s.c_str(), 0);
}
void emitCand(const std::string &kind, const std::string &label, const std::map<uint32_t, double> &env, double gap) {
  std::ostringstream o;
  o << "{\"t\":\"cand\",\"kind\":\"" << kind << "\",\"label\":\"" << jesc(label) << "\",\"gap\":" << (std::isfinite(gap) ? gap : -1) << ",\"vars\":{";
  bool f = true;
  char buf[64];
  for (uint32_t v : VARS) { auto it = env.find(v); double x = it == env.end() ? 0 : it->second; snprintf(buf, sizeof buf, "%a", x); o << (f ? "" : ",") << "\"" << jesc(N[v].name) << "\":\"" << buf << "\""; f = false; }
  o << "}}";
  emit(o.str());
  S->cands++;
}
// Look for concrete inputs that satisfy the path condition and, if goal is given, violate
// the check (a pred b must be violated). Starts from the solver's model.
void candidates(const std::string &kind, const std::string &label, bool haveGoal, int pred, Ref a, Ref b, const z3::expr *goalE, const std::vector<Ref> &goalRoots) {
  RT rt;
  if (S->cands > 40) return;
  std::mt19937 rng(seed * 7919 + 13 + N.size());
  auto gapOf = [&](Eval &E) -> double {
    LD x = E.ev(a), y = E.ev(b);
    if (!(std::isfinite((double)x) && std::isfinite((double)y))) return 1e18;
    LD sc = 1 + std::max(std::fabs(x), std::fabs(y));
    switch (pred) { case 0: return std::fabs(x - y) / sc; case 1: return x == y ? 1 : 0; case 2: return x >= y ? (double)((x - y) / sc) + 1e-30 : 0; default: return x > y ? (double)((x - y) / sc) : 0; }
  };
  std::vector<std::pair<double, std::map<uint32_t, double>>> found;
  auto tryEnv = [&](const std::map<uint32_t, double> &env) {
    Eval E{env, {}};
    if (!E.pcHolds()) return false;
    double g = haveGoal ? gapOf(E) : 1;
    if (g > 1e-12) { found.push_back({g, env}); return true; }
    return false;
  };
  int good = 0;
  for (int t = 0; t < 400 && good < 12; t++) {
    std::map<uint32_t, double> env;
    int span = t < 100 ? 2 : (t < 300 ? 4 : 1);
    const bool generic = (kind == "narrow" || kind == "unencodable");  // dyadic numbers survive narrowing
    for (uint32_t v : VARS) { int q = (int)(rng() % (unsigned)(span * 32 + 1)) - span * 16; env[v] = inDomain(v, generic ? q / 16.0 + double(rng() % 9973) / 99991.0 : q / 16.0); }
    if (tryEnv(env)) good++;
  }
  // a counterexample that rounding cannot hide
  if (haveGoal && pred == 0 && std::none_of(found.begin(), found.end(), [](auto &x) { return x.first > 1e-5; })) {
    z3::expr_vector as(ctx()); std::vector<Ref> roots; pcRoots(roots); pcAssert(as, roots, goalRoots);
    const Ref g = konst(mpq_class(1, 64));
    as.push_back(cmpExpr(2, a, add(b, g)) || cmpExpr(2, b, add(a, g)));
    for (Ref x : {a, b}) { as.push_back(cmpExpr(5, x, konst(2))); as.push_back(cmpExpr(3, x, konst(-2))); }
    funAxioms(roots, as);
    if (solve(as, opt_rlimit / 4) == 1 && last_model) {
      std::map<uint32_t, double> env;
      for (uint32_t v : VARS) env[v] = modelVal(*last_model, v);
      Eval E{env, {}};
      found.push_back({std::max(gapOf(E), 1e-13), env});
      good++;
    }
  }
  // solver model(s)
  for (int t = 0; t < 4 && good < 4; t++) {
    z3::expr_vector as(ctx()); std::vector<Ref> roots; pcRoots(roots); pcAssert(as, roots, goalRoots);
    if (goalE) as.push_back(*goalE);
    if (t > 0) for (uint32_t v : VARS) if (rng() % 3) { double x = inDomain(v, ((int)(rng() % 65) - 32) / 16.0); as.push_back(nodeVar(v) == kexpr(mpq_class(x))); }
    funAxioms(roots, as);
    if (solve(as, opt_rlimit / 4) == 1 && last_model) {
      std::map<uint32_t, double> env;
      for (uint32_t v : VARS) env[v] = modelVal(*last_model, v);
      Eval E{env, {}};
      double g = haveGoal ? gapOf(E) : 0.5;
      found.push_back({std::max(g, 1e-13), env});
    }
  }
  std::sort(found.begin(), found.end(), [](auto &x, auto &y) { return x.first > y.first; });
  for (size_t i = 0; i < found.size() && i < ((kind == "narrow" || kind == "unencodable") ? 8u : 4u); i++) emitCand(kind, label, found[i].second, found[i].first);
  if (found.empty()) { S->inconclusive++; emit("{\"t\":\"inconclusive\",\"label\":\"" + jesc(label) + "\"}"); }
}

// ---------------------------------------------------------------- forking
void addPC(int pred, Ref a, Ref b, bool want) {
  z3::expr e = cmpExpr(pred, a, b);
  PC.push_back({want ? e : !e, pred, a, b, want});
}
// returns true if this process continues on the "first" side; explores both sides
int forkBoth() {
  if (S->stop || S->paths >= max_paths) { S->truncated++; return 2; }
  S->forks++;
  pid_t p = fork();
  if (p < 0) { S->truncated++; return 2; }
  if (p == 0) return 0;  // child: first side
  int st;
  while (waitpid(p, &st, 0) < 0) {}
  if (WIFSIGNALED(st)) { emit("{\"t\":\"killed\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}"); S->toolerr++; }
  return 1;
}
bool is_child = false;
bool decide(int pred, Ref a, Ref b) {  // symbolic comparison with a definite bool result
  RT rt;
  Ref d = add(a, neg(b));
  if (isK(d)) { mpq_class z = 0, v = kval(d); switch (pred & 7) { case 1: return v == z; case 2: return v > z; case 3: return v >= z; case 4: return v < z; case 5: return v <= z; case 6: return v != z; case 7: return true; } return false; }
  {
    Iv iv = interval(d);
    bool p = pos(iv), nn = nonneg(iv); Iv in = ivneg(iv); bool ng = pos(in), np = nonneg(in);
    switch (pred & 7) {
      case 1: if (p || ng) return false; break;
      case 6: if (p || ng) return true; break;
      case 2: if (p) return true; if (np) return false; break;
      case 3: if (nn) return true; if (ng) return false; break;
      case 4: if (ng) return true; if (nn) return false; break;
      case 5: if (np) return true; if (p) return false; break;
    }
  }
  static std::map<std::tuple<int, Ref>, bool> known;
  auto key = std::make_tuple(pred & 7, d);
  auto it = known.find(key);
  if (it != known.end()) return it->second;
  z3::expr e = cmpExpr(pred, a, b);
  std::vector<Ref> roots{d};
  int t = query(e, roots, opt_rlimit / 6);
  if (t == 0) { known[key] = false; return false; }
  int f = query(!e, roots, opt_rlimit / 6);
  if (f == 0) { known[key] = true; return true; }
  int r = forkBoth();
  bool v = r == 0 ? true : r == 1 ? false : true;
  if (r == 0) is_child = true;
  addPC(pred, a, b, v);
  known[key] = v;
  return v;
}

// ---------------------------------------------------------------- division and domains
bool divisorOk(double num, double b) {
  Ref r = toRef(b);
  Iv iv = interval(r);
  S->divchecks++;
  if (pos(iv) || pos(ivneg(iv))) return true;
  static std::set<Ref> done;
  if (!done.insert(r & ~1u).second) return true;
  if (!div_check) { S->divassumed++; addPC(6, r, konst(0), true); return true; }
  RT rt;
  std::vector<Ref> roots{r};
  z3::expr e = frac(r).num == ctx().real_val(0);
  int q = query(e, roots, opt_rlimit / 6);
  if (q == 0) return true;
  if (q < 0) { S->divassumed++; addPC(6, r, konst(0), true); return true; }
  int k = forkBoth();
  if (k == 0) {  // the zero side: replay decides what really happens
    is_child = true;
    addPC(1, r, konst(0), true);
    candidates("div", "division by zero reached", false, 0, 0, 0, nullptr, roots);
    path_checks++;
    path_abort(1);
  }
  addPC(6, r, konst(0), true);
  return true;
}
bool domainOk(const char *what, Ref r, bool strict) {  // r >= 0 (or > 0)
  Iv iv = interval(r);
  if (strict ? pos(iv) : nonneg(iv)) return true;
  static std::set<std::pair<Ref, bool>> done;
  if (!done.insert({r, strict}).second) return true;
  RT rt;
  std::vector<Ref> roots{r};
  int q = query(cmpExpr(strict ? 5 : 4, r, konst(0)), roots, opt_rlimit / 6);
  if (q == 0) return true;
  if (q == 1) {
    int k = forkBoth();
    if (k == 0) {
      is_child = true;
      addPC(strict ? 5 : 4, r, konst(0), true);
      candidates("domain", std::string("argument of ") + what + " outside its domain", false, 0, 0, 0, nullptr, roots);
      path_checks++;
      path_abort(1);
    }
  }
  addPC(strict ? 2 : 3, r, konst(0), true);
  return true;
}

bool unaryRaw(const char *n, double a, double &out) {
#define F1(x) if (!strcmp(n, #x)) { out = std::x(a); return true; }
  F1(sqrt) F1(exp) F1(log) F1(log10) F1(log2) F1(log1p) F1(expm1) F1(exp2) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(fabs) F1(floor) F1(ceil) F1(round) F1(trunc) F1(cbrt) F1(rint) F1(nearbyint)
#undef F1
  return false;
}
double asDouble(double d) { if (!isSym(d)) return d; Ref r = getSym(d); if (isK(r)) return kval(r).get_d(); return d; }
Ref powInt(Ref x, long k) { Ref r = konst(1), b = x; while (k) { if (k & 1) r = mul(r, b); b = mul(b, b); k >>= 1; } return r; }
// pow(x, e): integer part of e split off as a product
Ref powRef(Ref x, Ref e) {
  // collect constant part of the exponent
  mpq_class c = 0; Ref rest = e;
  std::function<void(Ref, mpq_class &, Ref &)> split = [&](Ref r, mpq_class &k, Ref &o) {
    if (isK(r)) { k += kval(r); return; }
    const Node n = N[r >> 1];
    if (n.op == ADD) { Ref a = (r & 1) ? neg(n.a) : n.a, b = (r & 1) ? neg(n.b) : n.b; split(a, k, o); split(b, k, o); return; }
    o = add(o, r);
  };
  Ref o = konst(0);
  split(e, c, o);
  rest = o;
  mpz_class ip;
  mpz_fdiv_q(ip.get_mpz_t(), c.get_num().get_mpz_t(), c.get_den().get_mpz_t());
  mpq_class fr = c - mpq_class(ip);
  Ref fe = add(rest, konst(fr));
  long k = ip.get_si();
  Ref base;
  if (isK(fe) && kval(fe) == 0) base = konst(1);
  else if (isK(fe) && kval(fe) == mpq_class(1, 2)) { domainOk("pow", x, false); base = fun1("sqrt", x); }
  else { domainOk("pow", x, true); base = fun2("pow", x, fe); }
  if (k >= 0) return mul(base, powInt(x, k));
  divisorOk(1, box(x));
  return divide(base, powInt(x, -k));
}
}  // namespace

// =================================================================== entry points of instrumented code
extern "C" {
double __vp_fadd(double a, double b) { tick(); if (special(a) || special(b)) return isSym(a) ? b : isSym(b) ? a : a + b; if (!isSym(a) && !isSym(b)) { double r = a + b; if (std::isfinite(r) && std::fabs(a) < 4503599627370496.0 && std::fabs(b) < 4503599627370496.0 && a == std::floor(a) && b == std::floor(b)) return r; } RT t; return box(add(toRef(a), toRef(b))); }
double __vp_fneg(double a) { if (!isSym(a)) return -a; return box(neg(getSym(a))); }
double __vp_fsub(double a, double b) { return __vp_fadd(a, __vp_fneg(b)); }
double __vp_fmul(double a, double b) { tick(); if (special(a) || special(b)) return isSym(a) ? b : isSym(b) ? a : a * b; RT t; return box(mul(toRef(a), toRef(b))); }
double __vp_fdiv(double a, double b) {
  tick();
  if (special(a) || special(b)) return isSym(a) ? 0 : isSym(b) ? a : a / b;
  RT t;
  if (isK(toRef(b))) { if (kval(toRef(b)) == 0) {
      if (!isSym(a)) return a / 0.0;
      candidates("div", "division by a value that is always zero", false, 0, 0, 0, nullptr, {});
      path_checks++;
      path_abort(1); }
    return box(divide(toRef(a), toRef(b))); }
  divisorOk(a, b);
  return box(divide(toRef(a), toRef(b)));
}
int8_t __vp_fcmp(int pred, double a, double b) {
  tick();
  if (!isSym(a) && !isSym(b)) {
    bool un = std::isnan(a) || std::isnan(b);
    bool r = false;
    switch (pred & 7) { case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = a < b || a > b; break; case 7: r = !un; break; }
    return un ? (pred & 8) != 0 : r;
  }
  if (special(a) || special(b)) {
    double x = special(a) ? a : 0, y = special(b) ? b : 0;
    return __vp_fcmp(pred, x, y);
  }
  RT t;
  return decide(pred, toRef(a), toRef(b));
}
double __vp_select(int pred, double a, double b, double x, double y) {
  if ((!isSym(a) && !isSym(b)) || special(a) || special(b) || special(x) || special(y)) return __vp_fcmp(pred, a, b) ? x : y;
  RT t;
  Ref d = add(toRef(a), neg(toRef(b)));
  if (isK(d)) return __vp_fcmp(pred, a, b) ? x : y;
  if ((pred & 7) == 7) return x;
  if ((pred & 7) == 0) return y;
  Iv iv = interval(d), in = ivneg(iv);
  if (pos(iv) || pos(in)) return __vp_fcmp(pred, a, b) ? x : y;
  // canonical orientation so that max(a,b) written either way is one node
  Ref ra = toRef(a), rb = toRef(b), rx = toRef(x), ry = toRef(y);
  int p = pred & 7;
  if (p == 2) { p = 4; std::swap(ra, rb); }
  if (p == 3) { p = 5; std::swap(ra, rb); }
  if (p == 5) { p = 4; std::swap(ra, rb); std::swap(rx, ry); }  // a<=b?x:y == b<a?y:x
  if (p == 6) { p = 1; std::swap(rx, ry); }
  return box(ite(cond(p, ra, rb), rx, ry));
}
const double *__vp_max_ref(const double *a, const double *b) {
  if (!isSym(*a) && !isSym(*b)) return *a < *b ? b : a;
  double v = __vp_select(4, *a, *b, *b, *a);
  if (bits(v) == bits(*a)) return a;
  if (bits(v) == bits(*b)) return b;
  return new double(v);
}
const double *__vp_min_ref(const double *a, const double *b) {
  if (!isSym(*a) && !isSym(*b)) return *b < *a ? b : a;
  double v = __vp_select(4, *b, *a, *b, *a);
  if (bits(v) == bits(*a)) return a;
  if (bits(v) == bits(*b)) return b;
  return new double(v);
}
static double concretise(double d, const char *what) {
  if (!isSym(d)) return d;
  Ref r = getSym(d);
  if (isK(r)) return kval(r).get_d();
  tool_error(std::string("symbolic value reaches ") + what);
}
double __vp_trunc_concrete(double d) {
  if (!isSym(d)) return d;
  Ref r = getSym(d);
  if (isK(r)) return kval(r).get_d();
  RT t;
  // enumerate integer values through forks: |d| < 8
  for (int k = -8; k <= 8; k++) {
    int lo = k > 0 ? k : k - 1, hi = k < 0 ? k : k + 1;
    if (decide(k > 0 ? 3 : 2, r, konst(lo)) && decide(k < 0 ? 5 : 4, r, konst(hi))) return k;
  }
  tool_error("symbolic value converted to integer");
}
double __vp_leave_double(double d) {
  if (!isSym(d)) return d;
  Ref r = getSym(d);
  if (isK(r)) return kval(r).get_d();
  // precision is lost: let the replay on the real code decide whether that matters
  candidates("narrow", "double value is narrowed to a smaller type", false, 0, 0, 0, nullptr, {});
  path_checks++;
  path_abort(1);
}
int8_t __vp_isfpclass(double d, int mask) {
  if (isSym(d)) { RT t; Ref r = getSym(d);
    // bits: 0 snan 1 qnan 2 -inf 3 -norm 4 -sub 5 -0 6 +0 7 +sub 8 +norm 9 +inf
    bool n = mask & 8, z = mask & 96, p = mask & 256;
    if (n && z && p) return 1; if (!n && !z && !p) return 0;
    if (decide(4, r, konst(0))) return n; if (decide(1, r, konst(0))) return z; return p; }
  int c;
  if (std::isnan(d)) c = 3; else if (std::isinf(d)) c = d < 0 ? 4 : 512; else if (d == 0) c = std::signbit(d) ? 32 : 64;
  else if (std::fpclassify(d) == FP_SUBNORMAL) c = d < 0 ? 16 : 128; else c = d < 0 ? 8 : 256;
  return (mask & c) != 0;
}
void __vp_enter(const char *name, unsigned char *flag) {
  if (*flag) return;
  *flag = 1;
  RT t;
  int st; size_t n = 0;
  char *dm = abi::__cxa_demangle(name, 0, &n, &st);
  std::string s = dm ? dm : name;
  free(dm);
  emit("{\"t\":\"fn\",\"name\":\"" + jesc(s.substr(0, 400)) + "\"}");
}
void __vp_assert_fail(const char *e, const char *file, unsigned line, const char *) {
  crash_label = std::string("assertion fails: ") + e;
  path_abort(3);
}
void __vp_glibcxx_assert_fail(const char *file, int line, const char *fn, const char *cond) {
  crash_label = std::string("out-of-range access: ") + (cond ? cond : "?");
  path_abort(3);
}
void __vp_abort() { crash_label = "abort() called"; path_abort(3); }

static double math1(const char *n, double a) {
  tick();
  if (!isSym(a) || isK(getSym(a))) {
    double x = asDouble(a), o;
    if (!strcmp(n, "sqrt") && std::isfinite(x) && x >= 0) {
      RT t; mpq_class q = isSym(a) ? kval(getSym(a)) : mpq_class(x);
      mpz_class rn, rd; rn = sqrt(q.get_num()); rd = sqrt(q.get_den());
      if (rn * rn == q.get_num() && rd * rd == q.get_den()) return box(konst(mpq_class(rn, rd)));
    }
    if (!strcmp(n, "fabs") && isSym(a)) { RT t; return box(konst(abs(kval(getSym(a))))); }
    if (!unaryRaw(n, x, o)) tool_error(std::string("libm ") + n);
    return o;
  }
  RT t;
  Ref r = getSym(a);
  std::string f = n;
  if (f == "fabs") return __vp_select(4, a, 0.0, __vp_fneg(a), a);
  if (f == "sqrt") { domainOk("sqrt", r, false); return box(fun1(f, r)); }
  if (f == "log" || f == "log10" || f == "log2") {
    domainOk(n, r, true);
    if (f == "log" && N[r >> 1].op == FUN && N[r >> 1].name == "exp" && !(r & 1)) return box(N[r >> 1].a);
    return box(fun1(f, r));
  }
  if (f == "exp") {
    // exp(e * log(x)) == pow(x, e)
    const Node nn = N[r >> 1];
    if (nn.op == FUN && nn.name == "log") { Ref x = nn.a; return (r & 1) ? (divisorOk(1, box(x)), box(divide(konst(1), x))) : box(x); }
    if (nn.op == MUL) {
      for (int s = 0; s < 2; s++) {
        Ref l = s ? nn.b : nn.a, o = s ? nn.a : nn.b;
        if (!(l & 1) && N[l >> 1].op == FUN && N[l >> 1].name == "log") return box(powRef(N[l >> 1].a, (r & 1) ? neg(o) : o));
      }
    }
    return box(fun1(f, r));
  }
  if (f == "sin" || f == "tan" || f == "asin" || f == "atan" || f == "sinh" || f == "tanh" || f == "cbrt") {
    if (f == "asin") { domainOk(n, add(konst(1), neg(mul(r, r))), false); }
    if (r & 1) return box(neg(fun1(f, neg(r))));
    return box(fun1(f, r));
  }
  if (f == "cos" || f == "cosh") return box(fun1(f, r & ~1u));
  if (f == "acos") { domainOk(n, add(konst(1), neg(mul(r, r))), false); return box(fun1(f, r)); }
  return box(fun1(f, r));
}
#define M1(x) double __vp_m_##x(double a) { return math1(#x, a); }
M1(sqrt) M1(exp) M1(log) M1(log10) M1(log2) M1(log1p) M1(expm1) M1(exp2) M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(sinh) M1(cosh) M1(tanh) M1(fabs) M1(floor) M1(ceil) M1(round) M1(trunc) M1(cbrt) M1(rint) M1(nearbyint)
#undef M1
double __vp_m_pow(double a, double b) {
  tick();
  bool ka = !isSym(a) || isK(getSym(a)), kb = !isSym(b) || isK(getSym(b));
  if (special(a) || special(b)) return std::pow(asDouble(a), asDouble(b));
  if (kb && kval(toRef(b)).get_den() == 1 && abs(kval(toRef(b))) <= 64) {
    if (ka && kval(toRef(a)) == 0) return std::pow(0.0, asDouble(b));
    RT t; return box(powRef(toRef(a), toRef(b)));
  }
  if (ka && kb) return std::pow(asDouble(a), asDouble(b));
  RT t;
  return box(powRef(toRef(a), toRef(b)));
}
double __vp_m_fmin(double a, double b) { return __vp_select(4, a, b, a, b); }
double __vp_m_fmax(double a, double b) { return __vp_select(4, a, b, b, a); }
double __vp_m_hypot(double a, double b) { return math1("sqrt", __vp_fadd(__vp_fmul(a, a), __vp_fmul(b, b))); }
double __vp_m_fdim(double a, double b) { return __vp_select(4, b, a, __vp_fsub(a, b), 0.0); }
double __vp_m_copysign(double a, double b) { double m = math1("fabs", a); return __vp_fcmp(4, b, 0.0) ? __vp_fneg(m) : m; }
static double math2(const char *n, double a, double b) {
  double x = asDouble(a), y = asDouble(b);
  if (!isSym(x) && !isSym(y)) { if (!strcmp(n, "atan2")) return atan2(x, y); if (!strcmp(n, "fmod")) return fmod(x, y); return remainder(x, y); }
  RT t; return box(fun2(n, toRef(a), toRef(b)));
}
double __vp_m_atan2(double a, double b) { return math2("atan2", a, b); }
double __vp_m_fmod(double a, double b) { return math2("fmod", a, b); }
double __vp_m_remainder(double a, double b) { return math2("remainder", a, b); }

// ------------------------------------------------------------------- harness API
double vp_real(const char *name, double lo, double hi, int ls, int us) {
  RT t;
  // a name that comes back with another domain is another variable
  static std::map<std::string, std::array<double, 4>> dom;
  std::string nm = name;
  for (;; nm += "'") { const std::array<double, 4> d{lo, hi, double(ls), double(us)}; auto it = dom.emplace(nm, d).first; if (!memcmp(&it->second, &d, sizeof d)) break; }
  Node n; n.op = VAR; n.name = nm;
  Key k{VAR, 0, 0, 0, nm};
  bool fresh = !H.count(k);
  Ref r = mk(k, n);
  if (fresh) {
    VARS.push_back(r >> 1);
    Iv iv;
    auto given = [](double b) { return isSym(b) || std::fabs(b) < 1e299; };
    auto exact = [](double b) { Ref e = toRef(b); if (!isK(e)) path_abort(1); return kval(e); };
    if (given(lo)) { iv.L = true; iv.lo = exact(lo); iv.ls = ls; }
    if (given(hi)) { iv.U = true; iv.hi = exact(hi); iv.us = us; }
    if (iv.L || iv.U) varIv[r >> 1] = iv;
  }
  return box(r);
}
static const int kPred[4] = {1, 6, 4, 5};
void vp_assume_cmp(int op, double a, double b) {
  RT t;
  if (special(a) || special(b)) path_abort(1);
  Ref d = add(toRef(a), neg(toRef(b)));
  if (isK(d)) { if (!decide(kPred[op], toRef(a), toRef(b))) { S->dead++; path_abort(4); } return; }
  addPC(kPred[op], toRef(a), toRef(b), true);
}
void vp_check_cmp(int op, double a, double b, const char *label, double) {
  RT t;
  path_checks++;
  S->checks++;
  if (special(a) || special(b)) {
    bool ok = op == 0 && special(a) && special(b) && (a == b || (std::isnan(a) && std::isnan(b)));
    if (!ok) candidates("value", std::string(label) + " (not finite)", false, 0, 0, 0, nullptr, {});
    return;
  }
  Ref x = toRef(a), y = toRef(b);
  Ref d = add(x, neg(y));
  int viol[4] = {6, 1, 3, 2};
  if (isK(d)) {
    mpq_class v = kval(d);
    bool ok = op == 0 ? v == 0 : op == 1 ? v != 0 : op == 2 ? v < 0 : v <= 0;
    // purely numeric results may carry rounding of libm values
    if (!ok && op == 0) { double xa = asDouble(a), ya = asDouble(b); if (!isSym(xa) && !isSym(ya) && std::fabs(xa - ya) <= 1e-9 * (1 + std::fabs(xa))) ok = true; }
    S->syntactic++;
    if (!ok) candidates("check", label, false, op, x, y, nullptr, {});
    return;
  }
  if (op >= 2) { Iv iv = interval(d), in = ivneg(iv); if (op == 2 ? pos(in) : nonneg(in)) { S->syntactic++; return; } }
  std::vector<Ref> roots{d};
  z3::expr g = cmpExpr(viol[op], x, y);
  bool hit = false;
  if (op == 0) {
    // first as an identity over all reals, without the path condition
    z3::expr_vector as(ctx());
    as.push_back(frac(d).num != ctx().real_val(0));
    funAxioms(roots, as);
    int r = solve(as, opt_rlimit / 40);
    if (r == 0) return;
    hit = probe(g, roots);
    if (!hit && r < 0 && solve(as, opt_rlimit) == 0) return;
  } else hit = probe(g, roots);
  int q = hit ? 1 : query(g, roots);
  if (q == 0) return;
  if (q < 0) { S->inconclusive++; emit("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\"}"); S->inconclusive--; }
  long before = S->cands;
  candidates("check", label, true, op, x, y, &g, roots);
  if (q < 0 && S->cands == before) { }
}
void vp_check_bool(int ok, const char *label) {
  path_checks++;
  S->checks++;
  if (ok) { S->syntactic++; return; }
  RT t;
  candidates("check", label, false, 0, 0, 0, nullptr, {});
}
void vp_div_policy(int c) { div_check = c; }
void vp_note(const char *t) { emit(std::string("{\"t\":\"note\",\"msg\":\"") + jesc(t) + "\"}"); }
void vp_stop() { path_abort(1); }
}

static void onSig(int s) {
  if (!jmp_ok) _exit(77);
  if (in_rt || in_solver) {
    emit("{\"t\":\"toolerr\",\"msg\":\"signal in runtime\"}");
    S->toolerr++;
    _exit(78);
  }
  crash_label = s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "integer division by zero" : s == SIGABRT ? "abort" : "crash";
  siglongjmp(abort_jmp, 3);
}
static void onTick(int) {
  if (in_solver || in_rt || !jmp_ok) return;
  if (++virt_ticks > 40) { crash_label = "does not terminate within the time budget"; siglongjmp(abort_jmp, 3); }
}

void vp_register();
int main(int argc, char **argv) {
  vp_register();
  auto &cs = vp::cases();
  std::vector<int> run;
  std::string out = "/dev/stdout";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list") { for (size_t j = 0; j < cs.size(); j++) printf("%zu\t%d\t%s\n", j, cs[j].tier, cs[j].name.c_str()); return 0; }
    if (a == "--run") { std::istringstream l(argv[++i]); for (std::string x; std::getline(l, x, ',');) run.push_back(atoi(x.c_str())); }
    if (a == "--out") out = argv[++i];
    if (a == "--max-paths") max_paths = atol(argv[++i]);
    if (a == "--seed") seed = atoi(argv[++i]);
    if (a == "--rlimit") opt_rlimit = atol(argv[++i]);
    if (a == "--dump") dump_dir = argv[++i];
  }
  if (run.empty()) return 2;
  for (int r : run) if (r < 0 || r >= (int)cs.size()) return 2;
  out_fd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(S, 0, sizeof *S);
  rlimit rl{0, 0};
  rl.rlim_cur = rl.rlim_max = 6ull << 30;
  setrlimit(RLIMIT_AS, &rl);
  // the library logs errors to stdout; keep that out of the check's output
  int dn = open("/dev/null", O_WRONLY);
  int so = dup(1);
  dup2(dn, 1);
  static char alt[1 << 17];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, 0);
  struct sigaction sa{}; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sa.sa_handler = onSig;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0);
  struct sigaction sb{}; sb.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sb.sa_handler = onTick;
  sigaction(SIGVTALRM, &sb, 0);
  itimerval tv{{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, 0);
  case_name = cs[run[0]].name;
  konst(0);
  int code = sigsetjmp(abort_jmp, 1);
  if (code == 0) {
    jmp_ok = true;
    try {
      for (int r : run) { div_check = 1; cs[r].fn(); }  // several cases after each other: state left behind by the library must not matter
    } catch (std::exception &e) {
      in_rt = true;
      std::string m = e.what();
      candidates("exception", std::string("unexpected exception: ") + m, false, 0, 0, 0, nullptr, {});
      path_checks++;
    } catch (...) {
      in_rt = true;
      candidates("exception", "unexpected exception", false, 0, 0, 0, nullptr, {});
      path_checks++;
    }
  } else if (code == 3) {
    // keep the jump buffer valid for a nested failure
    jmp_ok = false;
    node_limit = 4000000;
    in_rt = true; in_solver = false;
    candidates("crash", crash_label, false, 0, 0, 0, nullptr, {});
    path_checks++;
  }
  jmp_ok = false;
  S->paths++;
  if (path_checks == 0 && code != 4) S->vacuous++;
  if (is_child) _exit(0);
  std::ostringstream o;
  o << "{\"t\":\"summary\",\"paths\":" << S->paths << ",\"forks\":" << S->forks << ",\"queries\":" << S->queries << ",\"unsat\":" << S->unsat << ",\"sat\":" << S->sat << ",\"unknown\":" << S->unknown << ",\"syntactic\":" << S->syntactic << ",\"checks\":" << S->checks << ",\"cands\":" << S->cands << ",\"truncated\":" << S->truncated << ",\"divchecks\":" << S->divchecks << ",\"divassumed\":" << S->divassumed << ",\"inconclusive\":" << S->inconclusive << ",\"vacuous\":" << S->vacuous << ",\"ops\":" << S->ops << ",\"toolerr\":" << S->toolerr << ",\"dead\":" << S->dead << ",\"solver_s\":" << S->solver_s << "}";
  emit(o.str());
  (void)so;
  _exit(0);
}
