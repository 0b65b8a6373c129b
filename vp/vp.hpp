// Harness API.  The same harness source is compiled twice:
//   * with clang + vpinstr + symrt.cpp : inputs are symbolic, checks go to the SMT solver
//   * with g++ + replayrt.cpp          : inputs come from a counterexample file and the
//                                        un-instrumented real code runs on plain doubles
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

extern "C" {
double vp_real(const char *name, double lo, double hi, int lo_strict, int hi_strict);
void vp_assume_cmp(int op, double a, double b);  // 0 ==  1 !=  2 <  3 <=
void vp_check_cmp(int op, double a, double b, const char *label, double tol);
void vp_check_bool(int ok, const char *label);
void vp_div_policy(int check);  // 1: a divisor that can be zero is reported, 0: assumed non-zero
void vp_note(const char *text);
void vp_stop();  // ends the current path (reached an outcome that is fine)
// bit-vector engine (compiled with VP_BV) and its replay
uint64_t vp_int(const char *name, int bits);
void vp_assume(int ok);
uint64_t vp_concrete(uint64_t x);  // forks over the feasible values of x
int vp_case(const char *name, int tier);
void vp_next();  // the case is over, others follow it
}

namespace vp {
constexpr double kInf = 1e300;
inline double real(const std::string &n) { return vp_real(n.c_str(), -kInf, kInf, 0, 0); }
inline double real(const std::string &n, double lo, double hi) { return vp_real(n.c_str(), lo, hi, 0, 0); }
inline double real_open(const std::string &n, double lo, double hi) { return vp_real(n.c_str(), lo, hi, 1, 1); }
inline double unit(const std::string &n) { return vp_real(n.c_str(), 0, 1, 0, 0); }
inline double positive(const std::string &n) { return vp_real(n.c_str(), 0, kInf, 1, 0); }
inline void assume_eq(double a, double b) { vp_assume_cmp(0, a, b); }
inline void assume_ne(double a, double b) { vp_assume_cmp(1, a, b); }
inline void assume_lt(double a, double b) { vp_assume_cmp(2, a, b); }
inline void assume_le(double a, double b) { vp_assume_cmp(3, a, b); }
inline void check_eq(double a, double b, const std::string &l, double tol = 1e-10) { vp_check_cmp(0, a, b, l.c_str(), tol); }
inline void check_ne(double a, double b, const std::string &l) { vp_check_cmp(1, a, b, l.c_str(), 0); }
inline void check_lt(double a, double b, const std::string &l) { vp_check_cmp(2, a, b, l.c_str(), 0); }
inline void check_le(double a, double b, const std::string &l, double tol = 1e-10) { vp_check_cmp(3, a, b, l.c_str(), tol); }
inline void check(bool ok, const std::string &l) { vp_check_bool(ok, l.c_str()); }
[[noreturn]] inline void stop() { vp_stop(); __builtin_unreachable(); }

struct Case {
  std::string name;
  int tier;  // 0 quick, 1 thorough only
  std::function<void()> fn;
};
inline std::vector<Case> &cases() {
  static std::vector<Case> c;
  return c;
}
struct Reg {
  Reg(const std::string &name, int tier, std::function<void()> fn) { cases().push_back({name, tier, std::move(fn)}); }
};
#ifdef VP_BV
template <class F> inline void add(const std::string &name, int tier, F fn) {
  if (int k = vp_case(name.c_str(), tier)) {
    fn();
    if (k == 2) vp_next();
    else vp_stop();
  }
}
#else
inline void add(const std::string &name, int tier, std::function<void()> fn) { cases().push_back({name, tier, std::move(fn)}); }
#endif
template <class T> inline T sym(const std::string &n) { return static_cast<T>(vp_int(n.c_str(), sizeof(T) * 8)); }
inline void assume(bool ok) { vp_assume(ok); }

inline std::string str(std::size_t v) { return std::to_string(v); }
inline std::string str(int v) { return std::to_string(v); }
inline std::string str(unsigned v) { return std::to_string(v); }
template <class A> std::string str(const A &a) {
  std::string s;
  for (auto v : a) s += (s.empty() ? "" : "x") + std::to_string(v);
  return s;
}
}  // namespace vp
#endif
