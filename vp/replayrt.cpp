// Replay runtime: runs one case of a harness on the un-instrumented real code with the
// concrete inputs of a counterexample file.
//   replay FILE            exit 0: nothing fails, 1: reproduced (prints REPRODUCED ...), 3: inputs outside the domain
//   replay --list | --random I SEED COUNT
#include <array>
#include <cfenv>
#include <csignal>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "vp.hpp"

static std::map<std::string, double> vals;
static std::map<std::string, std::string> raw;
static bool rnd = false;
static std::mt19937_64 rng(1);
static int fails = 0;
struct OutOfDomain {};
struct Stop {};
static std::string first, cand_label;
static double rnd_tol = 0;
static bool narrow = false;  // a value was narrowed to single precision: what is lost there is not rounding
static std::vector<double> diffs;                // of the numeric assertions, in order
static std::vector<std::vector<double>> others;  // the same under other rounding modes
static void fail(const std::string &l) { if (!fails++) first = l; if (fails <= 5) fprintf(stderr, "REPRODUCED %s\n", l.c_str()); }

extern "C" {
double vp_real(const char *name, double lo, double hi, int ls, int us) {
  static std::map<std::string, std::array<double, 4>> dom;  // as in symrt.cpp
  std::string nm = name;
  for (;; nm += "'") { const std::array<double, 4> d{lo, hi, double(ls), double(us)}; auto it = dom.emplace(nm, d).first; if (it->second == d) break; }
  auto it = vals.find(nm);
  double v;
  if (it != vals.end()) v = it->second;
  else if (rnd) {
    double a = std::max(lo, -2.0), b = std::min(hi, lo > -1e299 ? std::max(lo + 2, 2.0) : 2.0);
    v = a + (b - a) * ((double)(rng() % 4097) / 4096);
    if (ls && v <= lo) v = lo + (b - a) / 64;
    if (us && v >= hi) v = hi - (b - a) / 64;
    vals[nm] = v;
  } else { v = std::min(std::max(0.5, lo), hi); vals[nm] = v; }
  if (v < lo || v > hi || (ls && v == lo) || (us && v == hi)) throw OutOfDomain();
  return v;
}
void vp_assume_cmp(int op, double a, double b) {
  double sc = 1e-9 * (1 + std::max(std::fabs(a), std::fabs(b)));
  bool ok = op == 0 ? std::fabs(a - b) <= sc : op == 1 ? a != b : op == 2 ? a < b : a <= b;
  if (!ok) throw OutOfDomain();
}
void vp_check_cmp(int op, double a, double b, const char *label, double tol) {
  // the assertion the solver refuted, at its own tolerance; any other one has to fail by more than rounding can explain
  if (!narrow && !cand_label.empty() && cand_label != label) tol = std::max(tol, 1e-7);
  if (rnd && rnd_tol) tol = rnd_tol;
  double sc = tol * (1 + std::max(std::fabs(a), std::fabs(b)));
  const size_t at = diffs.size();
  const double d = a - b;
  diffs.push_back(d);
  bool ok;
  if (op == 0) ok = a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(d) <= sc;
  else if (op == 1) ok = a != b;
  else if (op == 2) ok = a < b;
  else ok = a <= b + sc;
  if (!ok && op != 1 && !narrow) {
    // rounding error, estimated by the same run under other rounding modes
    double lo = d, hi = d;
    for (auto &r : others) if (at < r.size()) { lo = std::min(lo, r[at]); hi = std::max(hi, r[at]); }
    if (std::fabs(d) < 8 * (hi - lo)) ok = true;
  }
  if (!ok) { char buf[256]; snprintf(buf, sizeof buf, ": %.17g vs %.17g", a, b); fail(std::string(label) + buf); }
}
void vp_check_bool(int ok, const char *label) { if (!ok) fail(label); }
void vp_div_policy(int) {}
uint64_t vp_int(const char *name, int bits) {
  uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  static std::map<std::string, int> widths;  // as in bvexec.cpp
  std::string nm = name;
  for (;; nm += "'") { auto it = widths.emplace(nm, bits).first; if (it->second == bits) break; }
  auto it = raw.find(nm);
  if (it != raw.end()) return strtoull(it->second.c_str(), 0, 10) & m;
  uint64_t v = 0;
  if (rnd) { v = rng(); if (rng() % 2) v %= 40; raw[nm] = std::to_string(v & m); }
  return v & m;
}
void vp_assume(int ok) { if (!ok) throw OutOfDomain(); }
uint64_t vp_concrete(uint64_t x) { return x; }
void vp_note(const char *) {}
void vp_stop() { throw Stop(); }
}
void vp_register();
static int runCase(vp::Case &c) {
  fails = 0;
  diffs.clear();
  try { c.fn(); }
  catch (OutOfDomain &) { return fails ? 1 : 3; }
  catch (Stop &) {}
  catch (std::exception &e) { fail(std::string("unexpected exception: ") + e.what()); }
  catch (...) { fail("unexpected exception"); }
  return fails ? 1 : 0;
}
// in a process of its own; -1: does not finish
static int apart(vp::Case &c, int mode, int seconds, std::vector<double> *out) {
  int fd[2];
  fflush(stdout);
  if (out && pipe(fd)) return -1;
  const pid_t p = fork();
  if (p == 0) {
    if (!freopen("/dev/null", "w", stderr)) _exit(9);
    fesetround(mode);
    alarm(seconds);
    const int r = runCase(c);
    if (out) { const char *b = (const char *)diffs.data(); for (size_t n = diffs.size() * sizeof(double); n;) { ssize_t k = write(fd[1], b, n); if (k <= 0) break; b += k; n -= k; } }
    _exit(r);
  }
  if (out) {
    close(fd[1]);
    std::string s;
    char buf[65536];
    for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) s.append(buf, k);
    close(fd[0]);
    out->resize(s.size() / sizeof(double));
    memcpy(out->data(), s.data(), out->size() * sizeof(double));
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? -1 : WIFEXITED(st) ? WEXITSTATUS(st) : 9;
}
static int judge(vp::Case &c) {
  others.clear();
  std::vector<double> n;
  const int r = apart(c, FE_TONEAREST, 20, &n);
  if (r == 0 || r == 3) return r;
  if (r == -1) { printf("REPRODUCED the real code does not finish within 20 s on these inputs\n"); return 1; }
  if (r == 1) for (int m : {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) { std::vector<double> d; if (apart(c, m, 20, &d) != -1 && d.size() == n.size()) others.push_back(d); }
  return runCase(c);
}
int main(int argc, char **argv) {
  vp_register();
  auto &cs = vp::cases();
  if (argc < 2) return 2;
  if (!strcmp(argv[1], "--list")) { for (size_t i = 0; i < cs.size(); i++) printf("%zu\t%d\t%s\n", i, cs[i].tier, cs[i].name.c_str()); return 0; }
  if (!strcmp(argv[1], "--random")) {
    rnd = true;
    if (getenv("VP_RANDOM_TOL")) rnd_tol = atof(getenv("VP_RANDOM_TOL"));
    size_t a = 0, b = cs.size();
    if (strcmp(argv[2], "all")) { a = atoi(argv[2]); b = a + 1; }
    rng.seed(atoi(argv[3]));
    int bad = 0, dom = 0, tot = 0;
    for (size_t i = a; i < b; i++) for (int k = 0; k < atoi(argv[4]); k++) {
      vals.clear();
      raw.clear();
      auto state = rng;
      others.clear();
      int r = runCase(cs[i]);
      if (r == 1) { rng = state; vals.clear(); raw.clear(); r = judge(cs[i]); }
      tot++;
      if (r == 1) { bad++; printf("FAIL %s: %s\n", cs[i].name.c_str(), first.c_str()); break; }
      if (r == 3) dom++;
    }
    printf("runs %d failing cases %d outside domain %d\n", tot, bad, dom);
    return bad ? 1 : 0;
  }
  std::ifstream f(argv[1]);
  std::string line, name;
  std::vector<std::string> members;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k; is >> k;
    if (k == "case") { std::getline(is, name); name.erase(0, name.find_first_not_of(' ')); }
    if (k == "label") { std::getline(is, cand_label); cand_label.erase(0, cand_label.find_first_not_of(' ')); }
    if (k == "kind") { std::string x; is >> x; narrow = x == "narrow"; }
    if (k == "member") { std::string m; std::getline(is, m); m.erase(0, m.find_first_not_of(' ')); members.push_back(m); }
    if (k == "var") { std::string n, v; is >> n >> v; vals[n] = strtod(v.c_str(), 0); raw[n] = v; }
  }
  vp::Case joint{name, 0, [&] { for (auto &m : members) for (auto &c : cs) if (c.name == m) { c.fn(); break; } }};
  if (!members.empty()) cs.push_back(joint);
  for (auto &c : cs) if (c.name == name) {
    int r = judge(c);
    printf(r == 1 ? "replay: violation reproduced (%s)\n" : r == 3 ? "replay: inputs outside the domain\n" : "replay: not reproduced\n", first.c_str());
    return r;
  }
  fprintf(stderr, "unknown case '%s'\n", name.c_str());
  return 2;
}
