// Engine B: symbolic executor for LLVM bitcode over bit-vectors and byte-addressed memory.
//   bvexec FILE.bc --list                     registered cases: index, tier, name
//   bvexec FILE.bc --run I --out F [--seed N] [--rlimit N] [--max-paths N]
// Inputs (vp_int) are bit-vector variables; branches on them fork the state when both sides are
// feasible; loads through symbolic addresses become if-then-else terms over the object; every memory
// access is checked against the bounds and the lifetime of its object; assertions (vp_check_bool),
// assert(), signed overflow, shift widths and divisions are decided by z3 for all values on the path.
#include <cxxabi.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <random>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;

static z3::context *Z;
struct ToolError { string msg; };
[[noreturn]] static void toolerr(const string &m) { throw ToolError{m}; }

// ------------------------------------------------------------------------------------------ values
struct Val {
  unsigned w = 0;  // 0: no value
  int prov = -1;   // object the pointer was derived from
  APInt c;
  shared_ptr<z3::expr> e;  // set: symbolic
  shared_ptr<vector<Val>> agg;
  Val() : c(1, 0) {}
  Val(unsigned w_, uint64_t v) : w(w_), c(w_, v) {}
  explicit Val(const APInt &a) : w(a.getBitWidth()), c(a) {}
  bool sym() const { return (bool)e; }
  uint64_t u() const {
    if (sym()) toolerr("symbolic value where a concrete one is needed");
    return c.getZExtValue();
  }
};
static z3::expr bvval(const APInt &a) {
  SmallString<64> s;
  a.toStringUnsigned(s, 10);
  return Z->bv_val(s.c_str(), a.getBitWidth());
}
static z3::expr ex(const Val &v) { return v.e ? *v.e : bvval(v.c); }
static Val mk(z3::expr e) {
  e = e.simplify();
  Val v;
  v.w = e.get_sort().bv_size();
  if (e.is_numeral()) {
    string s = e.get_decimal_string(0);
    v.c = APInt(v.w, s, 10);
  } else {
    v.e = std::make_shared<z3::expr>(e);
    v.c = APInt(1, 0);
  }
  return v;
}
static Val mkb(z3::expr b) { return mk(z3::ite(b, Z->bv_val(1, 1), Z->bv_val(0, 1))); }
static z3::expr truth(const Val &v) { return (ex(v) != Z->bv_val(0, v.w)).simplify(); }

// ------------------------------------------------------------------------------------------ memory
enum Kind : uint8_t { GLOBAL, STACK, NEW, NEWA, MALLOC, EXC, FUNC };
struct Obj {
  uint64_t base, size;
  bool alive = true, ro = false;
  Kind kind;
  string name;
  vector<uint8_t> b, st;  // st: 0 concrete 1 symbolic 2 undefined
  map<uint64_t, z3::expr> s;
};
struct Frame {
  Function *f;
  BasicBlock *bb, *prev = nullptr;
  BasicBlock::iterator it;
  vector<Val> regs;
  CallBase *site = nullptr;  // call in the frame below that created this frame
  vector<int> allocas;
  vector<vector<Val>> va;
};
struct Exc { uint64_t obj = 0; string ti; };
struct State {
  vector<Frame> st;
  vector<shared_ptr<Obj>> objs;
  map<uint64_t, int> byBase;
  vector<z3::expr> pc;
  shared_ptr<z3::model> last;
  map<uint64_t, string> excType;  // exception object -> typeinfo symbol
  vector<uint64_t> caught;
  Exc cur;
  uint64_t next = 0x10000000, steps = 0;
  unsigned checks = 0;
  int ncases = 0;  // cases seen in this pass over the registration
  unsigned pos = 0;  // member of the sequence of cases that is next
};
struct EndPath {};  // path finished without objection
struct DeadPath {};
struct Forked {};   // the instruction has to be executed again

static Module *M;
static const DataLayout *DL;
static FILE *out = nullptr;
static bool listing = false;
static vector<int> targets;  // the case to be run, or several to be run one after another
static vector<shared_ptr<State>> work;
static map<const Function *, std::unordered_map<const Value *, unsigned>> numbering;
static map<string, uint64_t> funcAddr;
static map<uint64_t, Function *> addrFunc;
static map<uint64_t, string> addrFake;
static map<string, int> typeIds;
static map<const GlobalVariable *, uint64_t> globalAddr;
static vector<std::pair<string, z3::expr>> inputs;  // every input declared on any path, in order
static std::set<string> fnSeen;
static std::set<const BasicBlock *> bbSeen;
static void emit(const string &line);
static string esc(const string &s);
// lists the functions of the code under test (also inlined ones) as their blocks are executed
static void noteBlock(const BasicBlock *b) {
  if (!bbSeen.insert(b).second) return;
  for (const auto &I : *b)
    for (const DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) {
      const auto *sp = l->getScope()->getSubprogram();
      if (!sp) continue;
      const string f = sp->getFilename().str();
      const auto at = f.find("bezman/src/");
      if (at == string::npos) continue;
      const string d = sp->getName().str() + " (" + f.substr(at + 7) + ":" + std::to_string(sp->getLine()) + ")";
      if (fnSeen.insert(d).second) emit("{\"t\":\"fn\",\"name\":\"" + esc(d) + "\"}");
    }
}
static unsigned seed = 1;
static uint64_t rlimit = 60000000, maxSteps = 60000000;
static long nPaths, nForks, nQueries, nUnsat, nSat, nUnknown, nSyn, nChecks, nCands, nDead, nInstr, nDef, nVac, nTrunc, nToolerr, nIncon;
static double solverS;
static string caseName;

static string esc(const string &s) {
  string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r;
}
static void emit(const string &l) { if (out) { fprintf(out, "%s\n", l.c_str()); fflush(out); } }
static string demangle(const string &n) {
  int st;
  char *p = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
  if (!p) return n;
  string r = p;
  free(p);
  return r;
}

// ------------------------------------------------------------------------------------------ solver
static int query(State &S, const z3::expr &extra, shared_ptr<z3::model> *m = nullptr) {
  z3::expr x = extra.simplify();
  if (x.is_false()) return 0;
  if (S.last && m) {
    z3::expr v = S.last->eval(x, true);
    if (v.is_true()) { *m = S.last; return 1; }
  } else if (S.last && S.last->eval(x, true).is_true()) return 1;
  z3::solver s(*Z, "QF_BV");
  z3::params p(*Z);
  p.set("rlimit", (unsigned)std::min<uint64_t>(rlimit, 4000000000u));
  p.set("random_seed", seed);
  s.set(p);
  for (auto &c : S.pc) s.add(c);
  s.add(x);
  auto t = std::chrono::steady_clock::now();
  z3::check_result r;
  try { r = s.check(); } catch (z3::exception &) { r = z3::unknown; }
  solverS += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
  nQueries++;
  if (r == z3::sat) {
    nSat++;
    auto mm = std::make_shared<z3::model>(s.get_model());
    if (m) *m = mm;
    return 1;
  }
  if (r == z3::unsat) { nUnsat++; return 0; }
  nUnknown++;
  return -1;
}
static void addPc(State &S, const z3::expr &c) {
  z3::expr x = c.simplify();
  if (x.is_true()) return;
  S.pc.push_back(x);
  if (S.last && !S.last->eval(x, true).is_true()) S.last.reset();
}
static void cand(State &S, const string &kind, const string &label, const z3::model *m) {
  nCands++;
  string l = "{\"t\":\"cand\",\"kind\":\"" + kind + "\",\"label\":\"" + esc(label) + "\",\"gap\":0,\"vars\":{";
  bool first = true;
  for (auto &[n, e] : inputs) {
    string v = "0";
    if (m) { z3::expr x = m->eval(e, true); if (x.is_numeral()) v = x.get_decimal_string(0); }
    l += (first ? "\"" : ",\"") + esc(n) + "\":\"" + v + "\"";
    first = false;
  }
  emit(l + "}}");
}
static shared_ptr<z3::model> modelOf(State &S) {
  if (S.last) return S.last;
  shared_ptr<z3::model> m;
  int r = query(S, Z->bool_val(true), &m);
  if (r == 0) throw DeadPath();
  if (r == 1) S.last = m;
  return m;
}
// The path cannot be encoded any further: inputs that reach this point, picked by the solver, are handed to the replay,
// which decides on the real code whether one of them breaks the property. The path stays undecided otherwise.
static void unencodable(State &S) {
  static int done = 0;
  if (done++ > 20) return;
  std::mt19937_64 rng(seed * 977 + done);
  for (int t = 0; t < 6; t++) {
    shared_ptr<z3::model> m;
    z3::expr pins = Z->bool_val(true);
    int r = query(S, pins, &m);
    if (r != 1) return;
    int k = 0;
    for (auto &[n, e] : inputs) {
      if (t == 0 || k++ > 24) break;
      unsigned w = e.get_sort().bv_size();
      APInt v(w, rng());
      switch (rng() % 5) {
        case 0: v = APInt::getSignedMaxValue(w) - (rng() % 3); break;
        case 1: v = APInt::getMaxValue(w) - (rng() % 3); break;
        case 2: v = APInt(w, rng() % 40); break;
        case 3: v = v.lshr(w / 2); break;
      }
      z3::expr p = pins && e == bvval(v);
      shared_ptr<z3::model> m2;
      if (query(S, p, &m2) == 1) { pins = p; m = m2; }
    }
    cand(S, "unencodable", "code that cannot be encoded is reached", m.get());
  }
}
// reports if `bad` is possible; afterwards the path continues with its negation
static void mustNot(State &S, const z3::expr &bad, const string &kind, const string &label) {
  nDef++;
  z3::expr b = bad.simplify();
  if (b.is_false()) { nSyn++; return; }
  shared_ptr<z3::model> m;
  int r = query(S, b, &m);
  if (r == 1) cand(S, kind, label, m.get());
  if (r < 0) emit("{\"t\":\"unknown\",\"label\":\"" + esc(label) + "\"}");
  if (r != 0) {
    z3::expr g = (!b).simplify();
    if (g.is_false() || query(S, g) == 0) throw DeadPath();
    addPc(S, g);
  }
}
// the copy executes the current instruction again
static Instruction *curI = nullptr;
static size_t curDepth = 0;
static shared_ptr<State> forkState(State &S) {
  if (!curI || S.st.size() != curDepth) toolerr("fork inside of a call");
  auto o = std::make_shared<State>(S);
  o->st.back().it = curI->getIterator();
  return o;
}
// forks on a condition; returns the side this state takes
static bool decide(State &S, const z3::expr &c) {
  z3::expr x = c.simplify();
  if (x.is_true()) return true;
  if (x.is_false()) return false;
  int a = query(S, x), b = query(S, !x);
  if (a < 0 || b < 0) { nIncon++; emit("{\"t\":\"inconclusive\",\"label\":\"branch condition undecided\"}"); }
  if (a == 0 && b == 0) throw DeadPath();
  if (a == 0) { addPc(S, !x); return false; }
  if (b == 0) { addPc(S, x); return true; }
  nForks++;
  auto o = forkState(S);
  addPc(*o, !x);
  work.push_back(o);
  addPc(S, x);
  return true;
}
// picks a value; the other values are explored by re-executing the instruction in a copy
static APInt concretize(State &S, const Val &v) {
  if (!v.sym()) return v.c;
  auto m = modelOf(S);
  if (!m) { nIncon++; emit("{\"t\":\"inconclusive\",\"label\":\"value undecided\"}"); throw DeadPath(); }
  Val k = mk(m->eval(*v.e, true));
  if (k.sym()) toolerr("model without value");
  z3::expr eq = (*v.e == bvval(k.c));
  if (query(S, !eq) != 0) {
    nForks++;
    auto o = forkState(S);
    addPc(*o, !eq);
    work.push_back(o);
  }
  addPc(S, eq);
  return k.c;
}

// ------------------------------------------------------------------------------------------ objects
static int newObj(State &S, uint64_t size, Kind k, const string &name = "") {
  auto o = std::make_shared<Obj>();
  o->base = S.next;
  o->size = size;
  o->kind = k;
  o->name = name;
  if (size > (1u << 24)) toolerr("allocation too large to model");
  o->b.assign(size, 0);
  o->st.assign(size, k == GLOBAL || k == EXC ? 0 : 2);
  S.next += ((size + 15) / 16) * 16 + 4096;
  S.objs.push_back(o);
  S.byBase[o->base] = S.objs.size() - 1;
  return S.objs.size() - 1;
}
static int findObj(State &S, uint64_t a) {
  auto it = S.byBase.upper_bound(a);
  if (it == S.byBase.begin()) return -1;
  --it;
  auto &o = *S.objs[it->second];
  return a <= o.base + o.size ? it->second : -1;
}
static Obj &wr(State &S, int id) {
  auto &p = S.objs[id];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return *p;
}
static string where(State &S) {
  for (int i = (int)S.st.size() - 1; i >= 0; i--) {
    string d = demangle(S.st[i].f->getName().str());
    size_t p = d.find("bezman::");
    if (p != string::npos && d.find("std::") != 0) {
      string r = d.substr(p);
      size_t q = r.find('(');
      r = r.substr(0, q);
      string t;
      int depth = 0;
      for (char ch : r) { if (ch == '<') depth++; if (!depth) t += ch; if (ch == '>') depth--; }
      return " in " + t;
    }
  }
  return "";
}
struct Acc { int id; uint64_t off; bool sym; z3::expr offe; };
// checks an access of n bytes; returns the object and the offset
static Acc access(State &S, const Val &p, uint64_t n, bool write) {
  int id = p.prov;
  if (!p.sym()) {
    uint64_t a = p.u();
    if (id < 0) id = findObj(S, a);
    if (id < 0 || a < 4096) {
      auto m = modelOf(S);
      cand(S, "memory", string(write ? "write to" : "read from") + (a < 4096 ? " a null pointer" : " an invalid address") + where(S), m.get());
      throw EndPath();
    }
    Obj &o = *S.objs[id];
    if (a < o.base || a + n > o.base + o.size) {
      auto m = modelOf(S);
      cand(S, "memory", string(write ? "write" : "read") + " outside of an object" + where(S), m.get());
      throw EndPath();
    }
    if (!o.alive) { auto m = modelOf(S); cand(S, "memory", "access to memory that was released" + where(S), m.get()); throw EndPath(); }
    if (write && o.ro) { auto m = modelOf(S); cand(S, "memory", "write to constant memory" + where(S), m.get()); throw EndPath(); }
    return {id, a - o.base, false, Z->bool_val(true)};
  }
  if (id < 0) {
    auto m = modelOf(S);
    if (!m) throw DeadPath();
    id = findObj(S, mk(m->eval(*p.e, true)).u());
    if (id < 0) {
      cand(S, "memory", "access through an invalid pointer" + where(S), m.get());
      throw EndPath();
    }
  }
  Obj &o = *S.objs[id];
  z3::expr off = *p.e - Z->bv_val((uint64_t)o.base, 64);
  if (!o.alive) { auto m = modelOf(S); cand(S, "memory", "access to memory that was released" + where(S), m.get()); throw EndPath(); }
  if (n > o.size) { auto m = modelOf(S); cand(S, "memory", "access outside of an object" + where(S), m.get()); throw EndPath(); }
  mustNot(S, z3::ugt(off, Z->bv_val((uint64_t)(o.size - n), 64)), "memory", string(write ? "write" : "read") + " outside of an object" + where(S));
  return {id, 0, true, off.simplify()};
}
static unsigned undefCount = 0;
static z3::expr byteExpr(State &S, int id, uint64_t i) {
  Obj &o = *S.objs[id];
  if (o.st[i] == 0) return Z->bv_val((unsigned)o.b[i], 8);
  if (o.st[i] == 1) return o.s.at(i);
  z3::expr f = Z->bv_const(("undef!" + std::to_string(undefCount++)).c_str(), 8);
  Obj &w = wr(S, id);
  w.st[i] = 1;
  w.s.insert_or_assign(i, f);
  return f;
}
static Val loadAt(State &S, int id, uint64_t off, unsigned bytes) {
  Obj &o = *S.objs[id];
  bool conc = true;
  for (unsigned i = 0; i < bytes; i++) conc = conc && o.st[off + i] == 0;
  if (conc) {
    APInt r(bytes * 8, 0);
    for (unsigned i = 0; i < bytes; i++) r |= APInt(bytes * 8, o.b[off + i]).shl(8 * i);
    return Val(r);
  }
  z3::expr e = byteExpr(S, id, off);
  for (unsigned i = 1; i < bytes; i++) e = z3::concat(byteExpr(S, id, off + i), e);
  return mk(e);
}
static void storeAt(State &S, int id, uint64_t off, const Val &v, unsigned bytes) {
  Obj &o = wr(S, id);
  if (!v.sym()) {
    APInt c = v.c.zextOrTrunc(bytes * 8);
    for (unsigned i = 0; i < bytes; i++) {
      o.b[off + i] = c.extractBitsAsZExtValue(8, 8 * i);
      if (o.st[off + i] == 1) o.s.erase(off + i);
      o.st[off + i] = 0;
    }
    return;
  }
  z3::expr e = *v.e;
  if (v.w < bytes * 8) e = z3::zext(e, bytes * 8 - v.w);
  for (unsigned i = 0; i < bytes; i++) {
    z3::expr b = e.extract(8 * i + 7, 8 * i).simplify();
    if (b.is_numeral()) {
      o.b[off + i] = b.get_numeral_uint();
      if (o.st[off + i] == 1) o.s.erase(off + i);
      o.st[off + i] = 0;
    } else {
      o.s.insert_or_assign(off + i, b);
      o.st[off + i] = 1;
    }
  }
}
static Val load(State &S, const Val &p, unsigned bits, unsigned align) {
  unsigned bytes = (bits + 7) / 8;
  Acc a = access(S, p, bytes, false);
  Val r;
  if (!a.sym) r = loadAt(S, a.id, a.off, bytes);
  else {
    uint64_t step = std::max<uint64_t>(1, std::min<uint64_t>(align, bytes));
    uint64_t n = S.objs[a.id]->size;
    if (n / step > 4096) toolerr("symbolic address into a large object");
    map<string, std::pair<Val, vector<uint64_t>>> groups;
    for (uint64_t o = 0; o + bytes <= n; o += step) {
      Val v = loadAt(S, a.id, o, bytes);
      auto &g = groups[v.sym() ? "s" + std::to_string(o) : string(toString(v.c, 16, false))];
      g.first = v;
      g.second.push_back(o);
    }
    size_t best = 0;
    const Val *dflt = nullptr;
    for (auto &[k, g] : groups) if (g.second.size() > best) { best = g.second.size(); dflt = &g.first; }
    z3::expr e = ex(*dflt);
    for (auto &[k, g] : groups) {
      if (&g.first == dflt) continue;
      z3::expr c = Z->bool_val(false);
      for (auto o : g.second) c = c || a.offe == Z->bv_val(o, 64);
      e = z3::ite(c, ex(g.first), e);
    }
    r = mk(e);
  }
  if (r.w != bits) r = r.sym() ? mk(r.e->extract(bits - 1, 0)) : Val(r.c.trunc(bits));
  return r;
}
static void store(State &S, const Val &p, const Val &v, unsigned align) {
  unsigned bytes = (v.w + 7) / 8;
  Acc a = access(S, p, bytes, true);
  if (!a.sym) { storeAt(S, a.id, a.off, v, bytes); return; }
  uint64_t n = S.objs[a.id]->size, step = std::max<uint64_t>(1, std::min<uint64_t>(align, bytes));
  if (n / step > 1024) toolerr("symbolic store into a large object");
  z3::expr e = ex(v);
  if (v.w < bytes * 8) e = z3::zext(e, bytes * 8 - v.w);
  for (uint64_t o = 0; o + bytes <= n; o += step) {
    z3::expr here = a.offe == Z->bv_val(o, 64);
    for (unsigned i = 0; i < bytes; i++) {
      Val nv = mk(z3::ite(here, e.extract(8 * i + 7, 8 * i), byteExpr(S, a.id, o + i)));
      storeAt(S, a.id, o + i, nv, 1);
    }
  }
}
static void copyBytes(State &S, const Val &d, const Val &s, uint64_t n) {
  if (!n) return;
  Acc a = access(S, s, n, false), b = access(S, d, n, true);
  if (a.sym || b.sym) {
    if (n > 256) toolerr("block copy through a symbolic address");
    vector<Val> t;
    Val q = s;
    for (uint64_t i = 0; i < n; i++) { Val x = mk(ex(s) + Z->bv_val(i, 64)); x.prov = a.id; t.push_back(load(S, x, 8, 1)); }
    for (uint64_t i = 0; i < n; i++) { Val x = mk(ex(d) + Z->bv_val(i, 64)); x.prov = b.id; store(S, x, t[i], 1); }
    return;
  }
  auto src = S.objs[a.id];  // snapshot: handles overlap
  Obj &o = wr(S, b.id);
  for (uint64_t i = 0; i < n; i++) {
    if (o.st[b.off + i] == 1) o.s.erase(b.off + i);
  }
  auto sp = src.get() == &o ? std::make_shared<Obj>(o) : src;
  if (a.id == b.id) sp = src;
  for (uint64_t i = 0; i < n; i++) {
    o.b[b.off + i] = sp->b[a.off + i];
    o.st[b.off + i] = sp->st[a.off + i];
    if (sp->st[a.off + i] == 1) o.s.insert_or_assign(b.off + i, sp->s.at(a.off + i));
  }
}
static string cstr(State &S, uint64_t a) {
  string r;
  int id = findObj(S, a);
  if (id < 0) toolerr("string at an invalid address");
  Obj &o = *S.objs[id];
  for (uint64_t i = a - o.base; i < o.size; i++) {
    if (o.st[i]) { r += '?'; continue; }
    if (!o.b[i]) break;
    r += (char)o.b[i];
  }
  return r;
}

// ------------------------------------------------------------------------------------------ globals
static uint64_t fakeFunc(State &S, const string &n) {
  auto it = funcAddr.find(n);
  if (it != funcAddr.end()) return it->second;
  uint64_t a = S.objs[newObj(S, 16, FUNC, n)]->base;
  funcAddr[n] = a;
  addrFake[a] = n;
  return a;
}
static uint64_t funcAddress(State &S, Function *f) {
  auto it = funcAddr.find(f->getName().str());
  if (it != funcAddr.end()) return it->second;
  uint64_t a = S.objs[newObj(S, 16, FUNC, f->getName().str())]->base;
  funcAddr[f->getName().str()] = a;
  addrFunc[a] = f;
  return a;
}
static unsigned bitsOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80;
  string s;
  raw_string_ostream o(s);
  t->print(o);
  toolerr("unsupported type " + s);
}
static Val constant(State &S, const Constant *c);
static Val gepConst(State &S, const GEPOperator *g) {
  Val b = constant(S, cast<Constant>(g->getPointerOperand()));
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) toolerr("constant address");
  int prov = b.prov >= 0 ? b.prov : findObj(S, b.u());
  Val r(64, b.u() + off.getSExtValue());
  r.prov = prov;
  return r;
}
static Val constant(State &S, const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return Val(i->getValue());
  if (auto *f = dyn_cast<ConstantFP>(c)) return Val(f->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return Val(64, 0);
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constant(S, g->getAliasee());
  if (auto *f = dyn_cast<Function>(c)) return Val(64, funcAddress(S, const_cast<Function *>(f)));
  if (auto *g = dyn_cast<GlobalVariable>(c)) { Val v(64, globalAddr.at(g)); v.prov = findObj(S, v.u()); return v; }
  if (c->getType()->isAggregateType()) {
    Val v;
    v.w = 1;
    v.agg = std::make_shared<vector<Val>>();
    unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) v.agg->push_back(constant(S, c->getAggregateElement(i)));
    return v;
  }
  if (isa<UndefValue>(c)) return Val(bitsOf(c->getType()), 0);
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(e)) return gepConst(S, g);
    switch (e->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val v = constant(S, e->getOperand(0));
        unsigned w = bitsOf(e->getType());
        if (w != v.w) { int p = v.prov; v = Val(v.c.zextOrTrunc(w)); v.prov = p; }
        return v;
      }
      case Instruction::Trunc: return Val(constant(S, e->getOperand(0)).c.trunc(bitsOf(e->getType())));
      case Instruction::Add: return Val(constant(S, e->getOperand(0)).c + constant(S, e->getOperand(1)).c);
      case Instruction::Sub: return Val(constant(S, e->getOperand(0)).c - constant(S, e->getOperand(1)).c);
      default: break;
    }
  }
  string s;
  raw_string_ostream o(s);
  c->print(o);
  toolerr("unsupported constant " + s.substr(0, 80));
}
static void initMem(State &S, int id, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;  // already zero
  if (auto *a = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); i++) storeAt(S, id, off + i * es, constant(S, a->getElementAsConstant(i)), es);
    return;
  }
  if (auto *a = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType());
    for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(S, id, off + i * es, a->getOperand(i));
    return;
  }
  if (auto *s = dyn_cast<ConstantStruct>(c)) {
    auto *l = DL->getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(S, id, off + l->getElementOffset(i), s->getOperand(i));
    return;
  }
  storeAt(S, id, off, constant(S, c), DL->getTypeStoreSize(t));
}
static void setupGlobals(State &S) {
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t n = g.hasInitializer() || !g.isDeclaration() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 256;
    int id = newObj(S, n, GLOBAL, g.getName().str());
    globalAddr[&g] = S.objs[id]->base;
  }
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    int id = findObj(S, globalAddr[&g]);
    if (g.hasInitializer()) initMem(S, id, 0, g.getInitializer());
    else if (g.getName().starts_with("_ZTV"))
      for (unsigned i = 2; i < 8; i++) storeAt(S, id, 8 * i, Val(64, fakeFunc(S, g.getName().str() + "#" + std::to_string(i))), 8);
    wr(S, id).ro = g.isConstant();
  }
}

// ------------------------------------------------------------------------------------------ types
static const map<string, string> stdBase = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
static bool derives(const string &a, const string &b) {
  if (a == b) return true;
  auto it = stdBase.find(a);
  if (it != stdBase.end()) return derives(it->second, b);
  if (auto *g = M->getGlobalVariable(a, true))
    if (g->hasInitializer())
      if (auto *s = dyn_cast<ConstantStruct>(g->getInitializer()))
        for (unsigned i = 2; i < s->getNumOperands(); i++)
          if (auto *bg = dyn_cast<GlobalVariable>(s->getOperand(i)->stripPointerCasts()))
            if (bg->getName().starts_with("_ZTI") && derives(bg->getName().str(), b)) return true;
  return false;
}
static int typeId(const string &n) { auto it = typeIds.find(n); if (it != typeIds.end()) return it->second; int k = typeIds.size() + 1; return typeIds[n] = k; }

// ------------------------------------------------------------------------------------------ execution
static unsigned regOf(const Function *f, const Value *v) {
  auto &m = numbering[f];
  if (m.empty()) {
    unsigned n = 0;
    for (auto &a : f->args()) m[&a] = n++;
    for (auto &b : *f) for (auto &i : b) m[&i] = n++;
    m[f] = n;
  }
  return m.at(v);
}
static Val get(State &S, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(S, c);
  Frame &F = S.st.back();
  return F.regs[regOf(F.f, v)];
}
static void set(State &S, const Value *v, const Val &x) { Frame &F = S.st.back(); F.regs[regOf(F.f, v)] = x; }

static void enter(State &S, Function *f, const vector<Val> &args, CallBase *site) {
  if (S.st.size() > 400) {
    auto m = modelOf(S);
    cand(S, "hang", "recursion does not end" + where(S), m.get());
    throw EndPath();
  }
  Frame F;
  F.f = f;
  F.bb = &f->getEntryBlock();
  F.it = F.bb->begin();
  regOf(f, f);
  F.regs.resize(numbering[f][f] + 1);
  unsigned i = 0;
  for (auto &a : f->args()) {
    if (a.hasByValAttr()) {
      uint64_t n = DL->getTypeAllocSize(a.getParamByValType());
      int id = newObj(S, n, STACK);
      Val d(64, S.objs[id]->base);
      copyBytes(S, d, args[i], n);
      F.allocas.push_back(id);
      F.regs[i] = d;
    } else F.regs[i] = args[i];
    i++;
  }
  F.site = site;
  S.st.push_back(std::move(F));
  noteBlock(&f->getEntryBlock());
}
static void branchTo(State &S, BasicBlock *to) {
  noteBlock(to);
  Frame &F = S.st.back();
  F.prev = F.bb;
  F.bb = to;
  F.it = to->begin();
  vector<std::pair<const Value *, Val>> vals;
  for (auto &i : *to) {
    auto *p = dyn_cast<PHINode>(&i);
    if (!p) break;
    vals.push_back({p, get(S, p->getIncomingValueForBlock(F.prev))});
  }
  for (auto &[k, v] : vals) set(S, k, v);
  F.it = to->getFirstNonPHI()->getIterator();
}
static void popFrame(State &S) {
  for (int id : S.st.back().allocas) { Obj &o = wr(S, id); o.alive = false; o.b.clear(); o.st.clear(); o.s.clear(); }
  S.st.pop_back();
}
static void ret(State &S, const Val &v) {
  CallBase *site = S.st.back().site;
  popFrame(S);
  if (S.st.empty()) throw EndPath();
  if (v.w) set(S, site, v);
  if (auto *inv = dyn_cast<InvokeInst>(site)) branchTo(S, inv->getNormalDest());
}
static void unwind(State &S) {
  // the top frame is executing the instruction that throws (or resumes)
  bool firstFrame = true;
  while (true) {
    if (S.st.empty()) break;
    Frame &F = S.st.back();
    Instruction *at = nullptr;
    if (firstFrame) { auto it = F.it; --it; at = &*it; }
    firstFrame = false;
    CallBase *cb = at ? dyn_cast<CallBase>(at) : nullptr;
    if (!at) { auto it = F.it; --it; cb = dyn_cast<CallBase>(&*it); }
    if (auto *inv = cb ? dyn_cast<InvokeInst>(cb) : nullptr) {
      BasicBlock *pad = inv->getUnwindDest();
      branchTo(S, pad);
      auto *lp = cast<LandingPadInst>(pad->getFirstNonPHI());
      int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
        if (!lp->isCatch(i)) continue;
        Constant *cl = lp->getClause(i);
        if (isa<ConstantPointerNull>(cl)) sel = typeId("*");
        else { string n = cl->stripPointerCasts()->getName().str(); if (derives(S.cur.ti, n)) sel = typeId(n); }
      }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        Val v;
        v.w = 1;
        v.agg = std::make_shared<vector<Val>>();
        v.agg->push_back(Val(64, S.cur.obj));
        v.agg->push_back(Val(32, sel));
        set(S, lp, v);
        S.st.back().it = std::next(lp->getIterator());
        return;
      }
    }
    popFrame(S);
  }
  auto m = modelOf(S);
  cand(S, "exception", "unexpected exception " + demangle(S.cur.ti.size() > 4 ? "_Z" + S.cur.ti.substr(4) : S.cur.ti), m.get());
  throw EndPath();
}
static void throwStd(State &S, const string &ti, const string &msg) {
  int id = newObj(S, 64, EXC);
  uint64_t a = S.objs[id]->base;
  int ms = newObj(S, msg.size() + 1, EXC);
  for (size_t i = 0; i < msg.size(); i++) wr(S, ms).b[i] = msg[i];
  int vt = newObj(S, 64, EXC);
  for (unsigned i = 0; i < 6; i++) storeAt(S, vt, 8 * i, Val(64, fakeFunc(S, "stdexc#" + std::to_string(i + 2))), 8);
  storeAt(S, id, 0, Val(64, S.objs[vt]->base), 8);
  storeAt(S, id, 8, Val(64, S.objs[ms]->base), 8);
  S.excType[a] = ti;
  S.cur = {a, ti};
  unwind(S);
}

static Val binop(State &S, unsigned op, const Val &a, const Val &b, const Instruction *I) {
  unsigned w = a.w;
  bool nsw = false;
  if (auto *o = dyn_cast_or_null<OverflowingBinaryOperator>(I)) nsw = o->hasNoSignedWrap();
  int prov = -1;
  if (op == Instruction::Add || op == Instruction::Sub) { if (a.prov >= 0 && b.prov < 0) prov = a.prov; else if (b.prov >= 0 && a.prov < 0 && op == Instruction::Add) prov = b.prov; }
  string in = nsw ? where(S) : "";
  if (!a.sym() && !b.sym()) {
    const APInt &x = a.c, &y = b.c;
    bool of = false;
    APInt r(w, 0);
    switch (op) {
      case Instruction::Add: r = x + y; if (nsw) (void)x.sadd_ov(y, of); break;
      case Instruction::Sub: r = x - y; if (nsw) (void)x.ssub_ov(y, of); break;
      case Instruction::Mul: r = x * y; if (nsw) (void)x.smul_ov(y, of); break;
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (y.isZero()) { auto m = modelOf(S); cand(S, "division", "division by zero" + where(S), m.get()); throw EndPath(); }
        r = op == Instruction::UDiv ? x.udiv(y) : op == Instruction::URem ? x.urem(y) : op == Instruction::SDiv ? x.sdiv(y) : x.srem(y);
        break;
      case Instruction::And: r = x & y; break;
      case Instruction::Or: r = x | y; break;
      case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (y.uge(w)) { auto m = modelOf(S); cand(S, "shift", "shift exceeds the width" + where(S), m.get()); throw EndPath(); }
        r = op == Instruction::Shl ? x.shl(y) : op == Instruction::LShr ? x.lshr(y) : x.ashr(y);
        break;
      default: toolerr("binary operator");
    }
    if (of) { auto m = modelOf(S); cand(S, "overflow", "signed overflow" + in, m.get()); }
    Val v(r);
    v.prov = prov;
    return v;
  }
  z3::expr x = ex(a), y = ex(b);
  z3::expr r = x;
  switch (op) {
    case Instruction::Add:
      if (nsw) mustNot(S, !(z3::bvadd_no_overflow(x, y, true) && z3::bvadd_no_underflow(x, y)), "overflow", "signed overflow" + in);
      r = x + y; break;
    case Instruction::Sub:
      if (nsw) mustNot(S, !(z3::bvsub_no_overflow(x, y) && z3::bvsub_no_underflow(x, y, true)), "overflow", "signed overflow" + in);
      r = x - y; break;
    case Instruction::Mul:
      if (nsw) mustNot(S, !(z3::bvmul_no_overflow(x, y, true) && z3::bvmul_no_underflow(x, y)), "overflow", "signed overflow" + in);
      r = x * y; break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      mustNot(S, y == Z->bv_val(0, w), "division", "division by zero" + where(S));
      r = op == Instruction::UDiv ? z3::udiv(x, y) : op == Instruction::URem ? z3::urem(x, y) : op == Instruction::SDiv ? x / y : z3::srem(x, y);
      break;
    case Instruction::And: r = x & y; break;
    case Instruction::Or: r = x | y; break;
    case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      mustNot(S, z3::uge(y, Z->bv_val(w, w)), "shift", "shift exceeds the width" + where(S));
      r = op == Instruction::Shl ? z3::shl(x, y) : op == Instruction::LShr ? z3::lshr(x, y) : z3::ashr(x, y);
      break;
    default: toolerr("binary operator");
  }
  Val v = mk(r);
  v.prov = prov;
  return v;
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  if (!a.sym() && !b.sym()) return Val(1, ICmpInst::compare(a.c, b.c, p));
  z3::expr x = ex(a), y = ex(b);
  switch (p) {
    case CmpInst::ICMP_EQ: return mkb(x == y);
    case CmpInst::ICMP_NE: return mkb(x != y);
    case CmpInst::ICMP_ULT: return mkb(z3::ult(x, y));
    case CmpInst::ICMP_ULE: return mkb(z3::ule(x, y));
    case CmpInst::ICMP_UGT: return mkb(z3::ugt(x, y));
    case CmpInst::ICMP_UGE: return mkb(z3::uge(x, y));
    case CmpInst::ICMP_SLT: return mkb(x < y);
    case CmpInst::ICMP_SLE: return mkb(x <= y);
    case CmpInst::ICMP_SGT: return mkb(x > y);
    case CmpInst::ICMP_SGE: return mkb(x >= y);
    default: toolerr("comparison");
  }
}
static APFloat asFloat(const Val &v, Type *t) {
  if (v.sym()) toolerr("floating point arithmetic on a symbolic value");
  return APFloat(t->getFltSemantics(), v.c);
}
static Val castOp(unsigned op, const Val &v, Type *from, Type *to) {
  unsigned w = bitsOf(to);
  switch (op) {
    case Instruction::Trunc: return v.sym() ? mk(v.e->extract(w - 1, 0)) : Val(v.c.trunc(w));
    case Instruction::ZExt: return v.sym() ? mk(z3::zext(*v.e, w - v.w)) : Val(v.c.zext(w));
    case Instruction::SExt: return v.sym() ? mk(z3::sext(*v.e, w - v.w)) : Val(v.c.sext(w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      if (w == v.w) return v;
      Val r = v.sym() ? mk(w < v.w ? v.e->extract(w - 1, 0) : z3::zext(*v.e, w - v.w)) : Val(v.c.zextOrTrunc(w));
      return r;
    }
    case Instruction::BitCast: return v;
    case Instruction::FPExt: case Instruction::FPTrunc: { APFloat f = asFloat(v, from); bool li; f.convert(to->getFltSemantics(), APFloat::rmNearestTiesToEven, &li); return Val(f.bitcastToAPInt()); }
    case Instruction::FPToSI: case Instruction::FPToUI: { APFloat f = asFloat(v, from); APSInt i(w, op == Instruction::FPToUI); bool x; f.convertToInteger(i, APFloat::rmTowardZero, &x); return Val(i); }
    case Instruction::SIToFP: case Instruction::UIToFP: { if (v.sym()) toolerr("conversion of a symbolic integer to floating point"); APFloat f(to->getFltSemantics()); f.convertFromAPInt(v.c, op == Instruction::SIToFP, APFloat::rmNearestTiesToEven); return Val(f.bitcastToAPInt()); }
    default: toolerr("cast");
  }
}
static Val ite(const z3::expr &c, const Val &a, const Val &b) { return mk(z3::ite(c, ex(a), ex(b))); }

static void release(State &S, const Val &p, Kind a, Kind b) {
  if (p.sym()) toolerr("symbolic pointer released");
  uint64_t x = p.u();
  if (!x) return;
  auto it = S.byBase.find(x);
  if (it == S.byBase.end()) { auto m = modelOf(S); cand(S, "memory", "release of a pointer that was not allocated" + where(S), m.get()); throw EndPath(); }
  Obj &o = wr(S, it->second);
  if (!o.alive || (o.kind != a && o.kind != b)) { auto m = modelOf(S); cand(S, "memory", "invalid release of memory" + where(S), m.get()); throw EndPath(); }
  o.alive = false;
  o.b.clear();
  o.st.clear();
  o.s.clear();
}

// returns true if the call was handled (and its result set)
static bool intrinsic(State &S, CallBase *cb, Function *f) {
  auto id = f->getIntrinsicID();
  if (id == Intrinsic::not_intrinsic) return false;
  auto A = [&](unsigned i) { return get(S, cb->getArgOperand(i)); };
  switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_assign: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::sideeffect:
      if (!cb->getType()->isVoidTy()) set(S, cb, Val(bitsOf(cb->getType()), 0));
      return true;
    case Intrinsic::stacksave: set(S, cb, Val(64, 0)); return true;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: copyBytes(S, A(0), A(1), concretize(S, A(2)).getZExtValue()); return true;
    case Intrinsic::memset: {
      Val d = A(0), v = A(1);
      uint64_t n = concretize(S, A(2)).getZExtValue();
      if (!n) return true;
      Acc a = access(S, d, n, true);
      if (a.sym) toolerr("memset through a symbolic address");
      for (uint64_t i = 0; i < n; i++) storeAt(S, a.id, a.off + i, v, 1);
      return true;
    }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      Val a = A(0), b = A(1);
      auto p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
      Val c = icmp(p, a, b);
      set(S, cb, c.sym() ? ite(truth(c), a, b) : (c.u() ? a : b));
      return true;
    }
    case Intrinsic::abs: {
      Val a = A(0);
      if (!a.sym()) set(S, cb, Val(a.c.abs()));
      else set(S, cb, mk(z3::ite(*a.e < Z->bv_val(0, a.w), -*a.e, *a.e)));
      return true;
    }
    case Intrinsic::ctpop: {
      Val a = A(0);
      if (!a.sym()) set(S, cb, Val(a.w, a.c.popcount()));
      else { z3::expr r = Z->bv_val(0, a.w); for (unsigned i = 0; i < a.w; i++) r = r + (a.w > 1 ? z3::zext(a.e->extract(i, i), a.w - 1) : a.e->extract(i, i)); set(S, cb, mk(r)); }
      return true;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      Val a = A(0);
      if (!a.sym()) set(S, cb, Val(a.w, id == Intrinsic::ctlz ? a.c.countl_zero() : a.c.countr_zero()));
      else {
        z3::expr r = Z->bv_val(a.w, a.w);
        for (unsigned i = 0; i < a.w; i++) { unsigned bit = id == Intrinsic::ctlz ? i : a.w - 1 - i; r = z3::ite(a.e->extract(bit, bit) == Z->bv_val(1, 1), Z->bv_val(id == Intrinsic::ctlz ? a.w - 1 - bit : bit, a.w), r); }
        set(S, cb, mk(r));
      }
      return true;
    }
    case Intrinsic::bswap: {
      Val a = A(0);
      if (!a.sym()) { set(S, cb, Val(a.c.byteSwap())); return true; }
      z3::expr r = a.e->extract(7, 0);
      for (unsigned i = 1; i < a.w / 8; i++) r = z3::concat(r, a.e->extract(8 * i + 7, 8 * i));
      set(S, cb, mk(r));
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Val a = A(0), b = A(1), c = A(2);
      unsigned w = a.w;
      z3::expr sh = z3::urem(ex(c), Z->bv_val(w, w)), full = z3::concat(ex(a), ex(b)), s2 = z3::zext(sh, w);
      set(S, cb, id == Intrinsic::fshl ? mk(z3::shl(full, s2).extract(2 * w - 1, w)) : mk(z3::lshr(full, s2).extract(w - 1, 0)));
      return true;
    }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1); set(S, cb, mk(z3::ite(z3::ult(ex(a), ex(b)), Z->bv_val(0, a.w), ex(a) - ex(b)))); return true; }
    case Intrinsic::uadd_sat: { Val a = A(0), b = A(1); z3::expr r = ex(a) + ex(b); set(S, cb, mk(z3::ite(z3::ult(r, ex(a)), bvval(APInt::getAllOnes(a.w)), r))); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Val a = A(0), b = A(1), r;
      z3::expr x = ex(a), y = ex(b), o = Z->bool_val(false), v = x;
      switch (id) {
        case Intrinsic::uadd_with_overflow: v = x + y; o = !z3::bvadd_no_overflow(x, y, false); break;
        case Intrinsic::usub_with_overflow: v = x - y; o = z3::ult(x, y); break;
        case Intrinsic::umul_with_overflow: v = x * y; o = !z3::bvmul_no_overflow(x, y, false); break;
        case Intrinsic::sadd_with_overflow: v = x + y; o = !(z3::bvadd_no_overflow(x, y, true) && z3::bvadd_no_underflow(x, y)); break;
        case Intrinsic::ssub_with_overflow: v = x - y; o = !(z3::bvsub_no_overflow(x, y) && z3::bvsub_no_underflow(x, y, true)); break;
        default: v = x * y; o = !(z3::bvmul_no_overflow(x, y, true) && z3::bvmul_no_underflow(x, y)); break;
      }
      r.w = 1;
      r.agg = std::make_shared<vector<Val>>();
      r.agg->push_back(mk(v));
      r.agg->push_back(mkb(o));
      set(S, cb, r);
      return true;
    }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: set(S, cb, A(0)); return true;
    case Intrinsic::is_constant: set(S, cb, Val(1, 0)); return true;
    case Intrinsic::objectsize: set(S, cb, Val(APInt::getAllOnes(bitsOf(cb->getType())))); return true;
    case Intrinsic::eh_typeid_for: {
      auto *c = cast<Constant>(cb->getArgOperand(0))->stripPointerCasts();
      set(S, cb, Val(32, typeId(c->getName().str())));
      return true;
    }
    case Intrinsic::trap: { auto m = modelOf(S); cand(S, "trap", "trap" + where(S), m.get()); throw EndPath(); }
    case Intrinsic::fabs: { APFloat x = asFloat(A(0), cb->getType()); x.clearSign(); set(S, cb, Val(x.bitcastToAPInt())); return true; }
    default: toolerr("intrinsic " + f->getName().str());
  }
}

static bool external(State &S, CallBase *cb, const string &n, const vector<Val> &a) {
  auto R = [&](const Val &v) { set(S, cb, v); };
  auto alloc = [&](const Val &sz, Kind k) {
    uint64_t s = concretize(S, sz).getZExtValue();
    if (s > (1ull << 24)) {
      auto m = modelOf(S);
      cand(S, "memory", "allocation of an absurd size" + where(S), m.get());
      throw EndPath();
    }
    int id = newObj(S, s, k);
    Val v(64, S.objs[id]->base);
    v.prov = id;
    R(v);
  };
  if (n == "_Znwm" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t") { alloc(a[0], NEW); return true; }
  if (n == "_Znam" || n == "_ZnamRKSt9nothrow_t") { alloc(a[0], NEWA); return true; }
  if (n == "malloc") { alloc(a[0], MALLOC); return true; }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdlPvRKSt9nothrow_t") { release(S, a[0], NEW, NEW); return true; }
  if (n == "_ZdaPv" || n == "_ZdaPvm") { release(S, a[0], NEWA, NEWA); return true; }
  if (n == "free") { release(S, a[0], MALLOC, MALLOC); return true; }
  if (n == "memcpy" || n == "memmove") { copyBytes(S, a[0], a[1], concretize(S, a[2]).getZExtValue()); R(a[0]); return true; }
  if (n == "memset") {
    uint64_t k = concretize(S, a[2]).getZExtValue();
    if (k) { Acc x = access(S, a[0], k, true); if (x.sym) toolerr("memset"); Val v = castOp(Instruction::Trunc, a[1], nullptr, Type::getInt8Ty(M->getContext())); for (uint64_t i = 0; i < k; i++) storeAt(S, x.id, x.off + i, v, 1); }
    R(a[0]);
    return true;
  }
  if (n == "memcmp" || n == "bcmp" || n == "strcmp" || n == "strncmp") {
    bool str = n[0] == 's';
    uint64_t k = n == "strcmp" ? ~0ull : concretize(S, a[2]).getZExtValue();
    // value of the first difference
    vector<std::pair<z3::expr, z3::expr>> bytes;
    for (uint64_t i = 0; i < k; i++) {
      Val p = binop(S, Instruction::Add, a[0], Val(64, i), nullptr), q = binop(S, Instruction::Add, a[1], Val(64, i), nullptr);
      Val x = load(S, p, 8, 1), y = load(S, q, 8, 1);
      bytes.push_back({ex(x), ex(y)});
      if (str && ((!x.sym() && !x.u()) || (!y.sym() && !y.u()))) break;
      if (i > 4096) toolerr("comparison too long");
    }
    z3::expr r = Z->bv_val(0, 32);
    for (int i = (int)bytes.size() - 1; i >= 0; i--) {
      auto &[x, y] = bytes[i];
      z3::expr d = z3::zext(x, 24) - z3::zext(y, 24);
      if (str) r = z3::ite(x != y, d, z3::ite(x == Z->bv_val(0, 8), Z->bv_val(0, 32), r));
      else r = z3::ite(x != y, d, r);
    }
    R(mk(r));
    return true;
  }
  if (n == "strlen") {
    for (uint64_t i = 0;; i++) {
      Val c = load(S, binop(S, Instruction::Add, a[0], Val(64, i), nullptr), 8, 1);
      if (!c.sym() ? c.u() == 0 : decide(S, *c.e == Z->bv_val(0, 8))) { R(Val(64, i)); return true; }
      if (i > 65536) toolerr("strlen");
    }
  }
  if (n == "memchr") {
    uint64_t k = concretize(S, a[2]).getZExtValue();
    z3::expr ch = ex(a[1]).extract(7, 0);
    for (uint64_t i = 0; i < k; i++) {
      Val p = binop(S, Instruction::Add, a[0], Val(64, i), nullptr);
      Val c = load(S, p, 8, 1);
      if (decide(S, ex(c) == ch)) { R(p); return true; }
    }
    R(Val(64, 0));
    return true;
  }
  if (n == "__cxa_allocate_exception") { alloc(a[0], EXC); return true; }
  if (n == "__cxa_free_exception") return true;
  if (n == "__cxa_throw") {
    string ti;
    for (auto &[g, ad] : globalAddr) if (ad == a[1].u()) ti = g->getName().str();
    S.excType[a[0].u()] = ti;
    S.cur = {a[0].u(), ti};
    unwind(S);
    return true;
  }
  if (n == "__cxa_rethrow") {
    if (S.caught.empty()) toolerr("rethrow");
    uint64_t o = S.caught.back();
    S.cur = {o, S.excType[o]};
    unwind(S);
    return true;
  }
  if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { if (n[6] == 'b') S.caught.push_back(a[0].u()); R(a[0]); return true; }
  if (n == "__cxa_end_catch") { if (!S.caught.empty()) S.caught.pop_back(); return true; }
  if (n == "__cxa_guard_acquire") {
    Val g = load(S, a[0], 8, 1);
    R(Val(32, g.u() ? 0 : 1));
    return true;
  }
  if (n == "__cxa_guard_release") { store(S, a[0], Val(8, 1), 1); return true; }
  if (n == "__cxa_guard_abort" ) return true;
  if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") { R(Val(32, 0)); return true; }
  if (n == "__assert_fail") { auto m = modelOf(S); cand(S, "assert", "assertion fails: " + cstr(S, a[0].u()), m.get()); throw EndPath(); }
  if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") { auto m = modelOf(S); cand(S, "assert", "out-of-range access: " + cstr(S, a[3].u()), m.get()); throw EndPath(); }
  if (n == "_ZSt9terminatev" || n == "abort" || n == "exit" || n == "_exit") { auto m = modelOf(S); cand(S, "exit", "the program ends (" + demangle(n) + ")" + where(S), m.get()); throw EndPath(); }
  static const map<string, string> thr = {{"length_error", "_ZTISt12length_error"}, {"logic_error", "_ZTISt11logic_error"}, {"out_of_range", "_ZTISt12out_of_range"}, {"out_of_range_fmt", "_ZTISt12out_of_range"},
    {"invalid_argument", "_ZTISt16invalid_argument"}, {"domain_error", "_ZTISt12domain_error"}, {"runtime_error", "_ZTISt13runtime_error"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"},
    {"bad_function_call", "_ZTISt17bad_function_call"}, {"bad_cast", "_ZTISt8bad_cast"}, {"range_error", "_ZTISt11range_error"}, {"overflow_error", "_ZTISt14overflow_error"}};
  size_t tp = n.find("__throw_");
  if (n.compare(0, 4, "_ZSt") == 0 && tp != string::npos) {
    string d = demangle(n);
    size_t p = d.find("__throw_") + 8, q = d.find('(', p);
    auto it = thr.find(d.substr(p, q - p));
    if (it == thr.end()) toolerr("throws " + d);
    throwStd(S, it->second, a.empty() || a[0].w != 64 ? "" : cstr(S, a[0].u()));
    return true;
  }
  // constructors, destructors and what() of the standard exceptions
  if (n.compare(0, 5, "_ZNSt") == 0 && (n.find("_errorC") != string::npos || n.find("argumentC") != string::npos || n.find("out_of_rangeC") != string::npos)) {
    int ms;
    string msg;
    Val s;
    if (n.find("EPKc") != string::npos) s = a[1];
    else if (n.find("basic_string") != string::npos) s = load(S, a[1], 64, 8);
    else { copyBytes(S, a[0], a[1], 16); return true; }
    // keep symbolic bytes: copy up to the terminator
    uint64_t len = 0;
    while (true) { Val c = load(S, binop(S, Instruction::Add, s, Val(64, len), nullptr), 8, 1); len++; if (!c.sym() && !c.u()) break; if (len > 4096) toolerr("message"); }
    ms = newObj(S, len, EXC);
    copyBytes(S, Val(64, S.objs[ms]->base), s, len);
    int vt = newObj(S, 64, EXC);
    for (unsigned i = 0; i < 6; i++) storeAt(S, vt, 8 * i, Val(64, fakeFunc(S, "stdexc#" + std::to_string(i + 2))), 8);
    store(S, a[0], Val(64, S.objs[vt]->base), 8);
    store(S, binop(S, Instruction::Add, a[0], Val(64, 8), nullptr), Val(64, S.objs[ms]->base), 8);
    return true;
  }
  if (n.compare(0, 5, "_ZNSt") == 0 && (n.find("errorD") != string::npos || n.find("exceptionD") != string::npos || n.find("argumentD") != string::npos || n.find("rangeD") != string::npos)) return true;
  if (n.find("4whatEv") != string::npos || (n.compare(0, 7, "stdexc#") == 0 && n[7] == '4')) { R(load(S, binop(S, Instruction::Add, a[0], Val(64, 8), nullptr), 64, 8)); return true; }
  if (n.compare(0, 7, "stdexc#") == 0) return true;
  if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return true;
  if (n == "time") { R(Val(64, 1000000000)); return true; }
  if (n == "localtime" || n == "gmtime") {
    static uint64_t tm = 0;
    int id = newObj(S, 56, EXC);
    tm = S.objs[id]->base;
    R(Val(64, tm));
    return true;
  }
  if (n == "asctime" || n == "ctime") {
    string t = "Sun Sep  9 01:46:40 2001\n";
    int id = newObj(S, 26, EXC);
    for (size_t i = 0; i < t.size(); i++) wr(S, id).b[i] = t[i];
    R(Val(64, S.objs[id]->base));
    return true;
  }
  if (n == "strftime") {
    string t = "Sun Sep  9 01:46:40 2001";
    for (size_t i = 0; i <= t.size(); i++) store(S, binop(S, Instruction::Add, a[0], Val(64, i), nullptr), Val(8, i < t.size() ? t[i] : 0), 1);
    R(Val(64, t.size()));
    return true;
  }
  // ---- harness interface
  if (n == "vp_case") {
    int i = S.ncases++;
    string nm = cstr(S, a[0].u());
    if (listing) { printf("%d\t%d\t%s\n", i, (int)a[1].c.getSExtValue(), nm.c_str()); R(Val(32, 0)); return true; }
    bool run = S.pos < targets.size() && i == targets[S.pos];
    if (run) caseName = nm;
    R(Val(32, !run ? 0 : S.pos + 1 < targets.size() ? 2 : 1));
    return true;
  }
  if (n == "vp_int") {
    string nm = cstr(S, a[0].u());
    unsigned bits = a[1].u();
    bool known = false;
    static map<string, unsigned> widths;  // as in replayrt.cpp
    for (;; nm += "'") { auto it = widths.emplace(nm, bits).first; if (it->second == bits) break; }
    z3::expr v = Z->bv_const(nm.c_str(), bits);
    for (auto &[x, e] : inputs) known = known || x == nm;
    if (!known) inputs.push_back({nm, v});
    R(mk(bits < 64 ? z3::zext(v, 64 - bits) : v));
    return true;
  }
  if (n == "vp_assume") {
    z3::expr c = truth(a[0]);
    if (c.is_true()) return true;
    if (c.is_false() || query(S, c) == 0) throw DeadPath();
    addPc(S, c);
    return true;
  }
  if (n == "vp_check_bool") {
    nChecks++;
    S.checks++;
    string label = cstr(S, a[1].u());
    z3::expr bad = (!truth(a[0])).simplify();
    if (bad.is_false()) { nSyn++; return true; }
    shared_ptr<z3::model> m;
    // do not let the cached model stand in for the solver on assertions that hold
    int r = query(S, bad, &m);
    if (r == 1) cand(S, "check", label, m.get());
    else if (r < 0) emit("{\"t\":\"unknown\",\"label\":\"" + esc(label) + "\"}");
    return true;
  }
  if (n == "vp_note") return true;
  if (n == "__emutls_get_address") { R(a[0]); return true; }
  if (n == "vp_stop") throw EndPath();
  if (n == "vp_next") { S.pos++; return true; }
  if (n == "vp_concrete") { R(Val(concretize(S, a[0]))); return true; }
  return false;
}

static void call(State &S, CallBase *cb) {
  Function *f = cb->getCalledFunction();
  string fake;
  if (!f) {
    if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) f = dyn_cast<Function>(al->getAliasee());
  }
  if (!f) {
    Val p = get(S, cb->getCalledOperand());
    uint64_t x = concretize(S, p).getZExtValue();
    auto it = addrFunc.find(x);
    if (it != addrFunc.end()) f = it->second;
    else if (addrFake.count(x)) fake = addrFake[x];
    else { auto m = modelOf(S); cand(S, "memory", "call through an invalid pointer" + where(S), m.get()); throw EndPath(); }
  }
  if (f && f->isIntrinsic()) {
    intrinsic(S, cb, f);
  } else {
    vector<Val> args;
    for (auto &u : cb->args()) args.push_back(u->getType()->isMetadataTy() ? Val() : get(S, u));
    // libstdc++ may supply inline copies of these; the model is exact
    string n = f ? f->getName().str() : fake;
    if (f && !f->isDeclaration() && n.compare(0, 3, "vp_")) {
      if (f->isVarArg()) toolerr("variadic function " + demangle(n));
      enter(S, f, args, cb);
      return;
    }
    size_t depth = S.st.size();
    uint64_t before = S.steps;
    Frame *fr = &S.st.back();
    BasicBlock *bb = fr->bb;
    auto pos = fr->it;
    if (!external(S, cb, n, args)) toolerr("call of " + demangle(n));
    // an exception moved the control elsewhere
    if (S.st.size() != depth || S.st.back().bb != bb || S.st.back().it != pos) return;
  }
  if (auto *inv = dyn_cast<InvokeInst>(cb)) branchTo(S, inv->getNormalDest());
}

static void step(State &S) {
  Frame &F = S.st.back();
  Instruction *I = &*F.it;
  ++F.it;
  curI = I;
  curDepth = S.st.size();
  nInstr++;
  if (++S.steps > maxSteps) {
    auto m = modelOf(S);
    cand(S, "hang", "does not finish within the step limit" + where(S), m.get());
    throw EndPath();
  }
  if (auto *b = dyn_cast<BinaryOperator>(I)) {
    if (I->getType()->isFloatingPointTy()) {
      APFloat x = asFloat(get(S, I->getOperand(0)), I->getType()), y = asFloat(get(S, I->getOperand(1)), I->getType());
      auto rm = APFloat::rmNearestTiesToEven;
      switch (b->getOpcode()) {
        case Instruction::FAdd: x.add(y, rm); break;
        case Instruction::FSub: x.subtract(y, rm); break;
        case Instruction::FMul: x.multiply(y, rm); break;
        case Instruction::FDiv: x.divide(y, rm); break;
        case Instruction::FRem: x.mod(y); break;
        default: toolerr("floating point operator");
      }
      set(S, I, Val(x.bitcastToAPInt()));
      return;
    }
    set(S, I, binop(S, b->getOpcode(), get(S, I->getOperand(0)), get(S, I->getOperand(1)), I));
    return;
  }
  switch (I->getOpcode()) {
    case Instruction::FNeg: { APFloat x = asFloat(get(S, I->getOperand(0)), I->getType()); x.changeSign(); set(S, I, Val(x.bitcastToAPInt())); return; }
    case Instruction::Alloca: {
      auto *a = cast<AllocaInst>(I);
      uint64_t n = DL->getTypeAllocSize(a->getAllocatedType());
      if (a->isArrayAllocation()) n *= concretize(S, get(S, a->getArraySize())).getZExtValue();
      int id = newObj(S, n, STACK);
      S.st.back().allocas.push_back(id);
      Val v(64, S.objs[id]->base);
      v.prov = id;
      set(S, I, v);
      return;
    }
    case Instruction::Load: {
      auto *l = cast<LoadInst>(I);
      if (l->getType()->isAggregateType()) toolerr("aggregate load");
      Val v = load(S, get(S, l->getPointerOperand()), bitsOf(l->getType()), l->getAlign().value());
      set(S, I, v);
      return;
    }
    case Instruction::Store: {
      auto *s = cast<StoreInst>(I);
      if (s->getValueOperand()->getType()->isAggregateType()) toolerr("aggregate store");
      store(S, get(S, s->getPointerOperand()), get(S, s->getValueOperand()), s->getAlign().value());
      return;
    }
    case Instruction::GetElementPtr: {
      auto *g = cast<GetElementPtrInst>(I);
      Val b = get(S, g->getPointerOperand());
      int prov = b.prov;
      if (prov < 0 && !b.sym()) prov = findObj(S, b.u());
      for (auto t = gep_type_begin(g), e = gep_type_end(g); t != e; ++t) {
        if (auto *st = t.getStructTypeOrNull()) {
          uint64_t o = DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(t.getOperand())->getZExtValue());
          b = b.sym() ? mk(*b.e + Z->bv_val(o, 64)) : Val(64, b.u() + o);
        } else {
          Val ix = get(S, t.getOperand());
          uint64_t es = DL->getTypeAllocSize(t.getIndexedType());
          if (ix.w < 64) ix = ix.sym() ? mk(z3::sext(*ix.e, 64 - ix.w)) : Val(ix.c.sext(64));
          b = !b.sym() && !ix.sym() ? Val(64, b.u() + ix.u() * es) : mk(ex(b) + ex(ix) * Z->bv_val(es, 64));
        }
      }
      b.prov = prov;
      set(S, I, b);
      return;
    }
    case Instruction::ICmp: set(S, I, icmp(cast<ICmpInst>(I)->getPredicate(), get(S, I->getOperand(0)), get(S, I->getOperand(1)))); return;
    case Instruction::FCmp: {
      APFloat x = asFloat(get(S, I->getOperand(0)), I->getOperand(0)->getType()), y = asFloat(get(S, I->getOperand(1)), I->getOperand(0)->getType());
      set(S, I, Val(1, FCmpInst::compare(x, y, cast<FCmpInst>(I)->getPredicate())));
      return;
    }
    case Instruction::Select: {
      Val c = get(S, I->getOperand(0)), a = get(S, I->getOperand(1)), b = get(S, I->getOperand(2));
      if (!c.sym()) { set(S, I, c.u() ? a : b); return; }
      if (a.agg || (I->getType()->isPointerTy())) { set(S, I, decide(S, truth(c)) ? a : b); return; }
      set(S, I, ite(truth(c), a, b));
      return;
    }
    case Instruction::Freeze: set(S, I, get(S, I->getOperand(0))); return;
    case Instruction::Br: {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) { branchTo(S, b->getSuccessor(0)); return; }
      Val c = get(S, b->getCondition());
      bool t = c.sym() ? decide(S, truth(c)) : c.u();
      branchTo(S, b->getSuccessor(t ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(I);
      Val c = get(S, sw->getCondition());
      APInt v = c.c;
      if (c.sym()) {
        for (auto &cs : sw->cases())
          if (decide(S, *c.e == bvval(cs.getCaseValue()->getValue()))) { branchTo(S, cs.getCaseSuccessor()); return; }
        branchTo(S, sw->getDefaultDest());
        return;
      }
      for (auto &cs : sw->cases()) if (cs.getCaseValue()->getValue() == v) { branchTo(S, cs.getCaseSuccessor()); return; }
      branchTo(S, sw->getDefaultDest());
      return;
    }
    case Instruction::Ret: {
      auto *r = cast<ReturnInst>(I);
      ret(S, r->getReturnValue() ? get(S, r->getReturnValue()) : Val());
      return;
    }
    case Instruction::Call: case Instruction::Invoke: call(S, cast<CallBase>(I)); return;
    case Instruction::Resume: { Val v = get(S, I->getOperand(0)); S.cur = {(*v.agg)[0].u(), S.excType[(*v.agg)[0].u()]}; unwind(S); return; }
    case Instruction::ExtractValue: {
      Val v = get(S, I->getOperand(0));
      for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; }
      set(S, I, v);
      return;
    }
    case Instruction::InsertValue: {
      Val v = get(S, I->getOperand(0)), x = get(S, I->getOperand(1));
      v.agg = std::make_shared<vector<Val>>(*v.agg);
      auto ix = cast<InsertValueInst>(I)->getIndices();
      vector<Val> *p = v.agg.get();
      for (unsigned k = 0; k + 1 < ix.size(); k++) { (*p)[ix[k]].agg = std::make_shared<vector<Val>>(*(*p)[ix[k]].agg); p = (*p)[ix[k]].agg.get(); }
      (*p)[ix.back()] = x;
      set(S, I, v);
      return;
    }
    case Instruction::Unreachable: { auto m = modelOf(S); cand(S, "unreachable", "undefined behaviour: unreachable code is reached" + where(S), m.get()); throw EndPath(); }
    case Instruction::Fence: return;
    default: break;
  }
  if (auto *c = dyn_cast<CastInst>(I)) { set(S, I, castOp(c->getOpcode(), get(S, c->getOperand(0)), c->getSrcTy(), c->getDestTy())); return; }
  string s;
  raw_string_ostream o(s);
  I->print(o);
  toolerr("unsupported instruction " + s.substr(0, 100));
}
static void runToEnd(State &S) { while (!S.st.empty()) step(S); }

int main(int argc, char **argv) {
  string file = argv[1], outf;
  long maxPaths = 300;
  for (int i = 2; i < argc; i++) {
    string a = argv[i];
    if (a == "--list") listing = true;
    if (a == "--run") for (char *s = strtok(argv[++i], ","); s; s = strtok(nullptr, ",")) targets.push_back(atoi(s));
    if (a == "--out") outf = argv[++i];
    if (a == "--seed") seed = atoi(argv[++i]);
    if (a == "--rlimit") rlimit = atoll(argv[++i]);
    if (a == "--max-paths") maxPaths = atol(argv[++i]);
    if (a == "--max-steps") maxSteps = atoll(argv[++i]);
  }
  if (!outf.empty()) out = fopen(outf.c_str(), "w");
  z3::context zc;
  Z = &zc;
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("bvexec", errs()); return 2; }
  M = mod.get();
  DL = &M->getDataLayout();
  auto S = std::make_shared<State>();
  Function *r = nullptr;
  auto fail = [&](const string &m) { nToolerr++; emit("{\"t\":\"toolerr\",\"msg\":\"" + esc(m) + "\"}"); if (!out) fprintf(stderr, "toolerr %s\n", m.c_str()); };
  try {
    setupGlobals(*S);
    // static constructors
    if (auto *g = M->getGlobalVariable("llvm.global_ctors"))
      if (auto *arr = dyn_cast<ConstantArray>(g->getInitializer())) {
        vector<std::pair<uint64_t, Function *>> cs;
        for (auto &op : arr->operands()) {
          auto *st = cast<ConstantStruct>(op);
          if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &[p, f] : cs) {
          enter(*S, f, {}, nullptr);
          try { runToEnd(*S); } catch (EndPath &) {}
        }
      }
    r = M->getFunction("_Z11vp_registerv");
    if (!r) toolerr("no vp_register");
    enter(*S, r, {}, nullptr);
    S->steps = 0;
    work.push_back(S);
    S.reset();
  } catch (ToolError &e) { fail(e.msg); }
  while (!work.empty()) {
    auto cur = work.back();
    work.pop_back();
    if (nPaths >= maxPaths) { nTrunc = work.size() + 1; break; }
    nPaths++;
    try {
      runToEnd(*cur);
      // the members of a sequence are run in the given order: each pass over the registration continues with the next one
      for (unsigned p = 0; cur->pos < targets.size() && cur->pos > p;) {
        p = cur->pos;
        cur->ncases = 0;
        enter(*cur, r, {}, nullptr);
        runToEnd(*cur);
      }
    }
    catch (EndPath &) { if (!cur->checks) nVac++; }
    catch (DeadPath &) { nDead++; nPaths--; }
    catch (ToolError &e) {
      string st;
      for (auto &f : cur->st) st += " < " + demangle(f.f->getName().str()).substr(0, 60);
      fail(e.msg + where(*cur));
      try { unencodable(*cur); } catch (...) {}
    }
    catch (z3::exception &e) { fail(string("z3: ") + e.msg()); }
  }
  if (listing) return nToolerr ? 2 : 0;
  char b[1200];
  snprintf(b, sizeof b,
           "{\"t\":\"summary\",\"paths\":%ld,\"forks\":%ld,\"queries\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"syntactic\":%ld,\"checks\":%ld,\"cands\":%ld,\"truncated\":%ld,"
           "\"divchecks\":%ld,\"divassumed\":0,\"inconclusive\":%ld,\"vacuous\":%ld,\"ops\":%ld,\"toolerr\":%ld,\"dead\":%ld,\"solver_s\":%.3f}",
           nPaths, nForks, nQueries, nUnsat, nSat, nUnknown, nSyn, nChecks, nCands, nTrunc, nDef, nIncon, nVac, nInstr, nToolerr, nDead, solverS);
  emit(b);
  return 0;
}
