// C34: index sorting returns the stable ordering permutation and leaves the values alone.
#include <cstdint>
#include <string>
#include <vector>
#include "bezman/src/utils/algorithms/sort.hpp"
#include "vp.hpp"
using bezman::utils::algorithms::IndexListSort;

struct Item {  // only < is available
  int16_t key;
  int32_t payload;
  bool operator<(const Item &o) const { return key < o.key; }
};
static bool less(const Item &a, const Item &b) { return a.key < b.key; }
static bool same(const Item &a, const Item &b) { return (a.key == b.key) & (a.payload == b.payload); }
static bool ties(const Item &a, const Item &b) { return a.key == b.key; }
template <class T> static bool less(const T &a, const T &b) { return a < b; }
template <class T> static bool same(const T &a, const T &b) { return a == b; }
template <class T> static bool ties(const T &a, const T &b) { return a == b; }

#ifdef ENGINE_A
static double value(const std::string &n, double) { return vp::real(n); }
static void ordered(const std::vector<double> &v, std::size_t a, std::size_t b) {
  vp::check_le(v[a], v[b], "values are non-decreasing", 0);
  if (a > b) vp::check_lt(v[a], v[b], "equal values keep their order");
}
static void unchanged(double a, double b) { vp::check_eq(a, b, "values unchanged", 0); }
#else
template <class T> static T value(const std::string &n, T) { return vp::sym<T>(n); }
static Item value(const std::string &n, Item) { return Item{vp::sym<int16_t>(n), 7}; }
template <class T> static void ordered(const std::vector<T> &v, std::size_t a, std::size_t b) {
  vp::check(less(v[a], v[b]) | ties(v[a], v[b]), "values are non-decreasing");
  vp::check(less(v[a], v[b]) | (a < b), "equal values keep their order");
}
template <class T> static void unchanged(const T &a, const T &b) { vp::check(same(a, b), "values unchanged"); }
#endif

template <class T> static void verify(const std::vector<T> &v) {
  const std::vector<T> copy = v;
  const std::vector<std::size_t> idx = IndexListSort(v);
  vp::check(idx.size() == v.size(), "as many indices as values");
  if (idx.size() != v.size()) return;
  bool in = true;
  for (auto i : idx) in = in & (i < v.size());
  vp::check(in, "indices refer to values");
  if (!in) return;
  std::vector<unsigned char> seen(v.size());
  bool once = true;
  for (auto i : idx) { once = once & !seen[i]; seen[i] = 1; }
  vp::check(once, "every index appears once");
  for (std::size_t i = 1; i < v.size(); i++) ordered(v, idx[i - 1], idx[i]);
  for (std::size_t i = 0; i < v.size(); i++) unchanged(v[i], copy[i]);
}
template <class T> static void anyValues(const char *tn, std::size_t n, int tier) {
  vp::add(std::string("any ") + vp::str(n) + " values of " + tn, tier, [=] {
    std::vector<T> v;
    for (std::size_t i = 0; i < n; i++) v.push_back(value("v" + std::to_string(i), T{}));
    verify(v);
  });
}
// longer lists: fixed values of a given pattern, some of them replaced by any value
template <class T> static T fixedValue(int x) { return T(x); }
template <> Item fixedValue<Item>(int x) { return Item{(int16_t)x, x}; }
template <class T> static void longer(const char *tn, std::size_t n, int pattern, std::vector<std::size_t> free, int tier) {
  vp::add(std::string(tn) + ": " + vp::str(n) + " values, pattern " + vp::str(pattern) + ", any value at " + vp::str(free), tier, [=] {
    std::vector<T> v;
    for (std::size_t i = 0; i < n; i++) {
      int x = pattern == 0 ? (int)i : pattern == 1 ? (int)(n - i) : pattern == 2 ? 5 : pattern == 3 ? (int)(i % 3) : (int)((i * 7) % n) / 2;
      v.push_back(fixedValue<T>(2 * x));
    }
    for (auto f : free) v[f] = value("v" + std::to_string(f), T{});
    verify(v);
  });
}
template <class T> static void all(const char *tn, std::size_t n, std::size_t thorough) {
  for (std::size_t k = 0; k <= thorough; k++) anyValues<T>(tn, k, k > n);
  for (std::size_t len : {8, 15, 23, 40})
    for (int p = 0; p < 5; p++) {
      const int t = len > 23;
      longer<T>(tn, len, p, {0}, t);
      longer<T>(tn, len, p, {len / 2}, t);
      longer<T>(tn, len, p, {len - 1}, t);
      longer<T>(tn, len, p, {1, len - 2}, len > 15);
    }
  if (n >= 4)
    for (std::size_t len : {33, 66, 130, 257})
      for (int p : {1, 2, 4}) {
        longer<T>(tn, len, p, {len / 2}, len > 70 && p == 4);
        longer<T>(tn, len, p, {}, 0);
      }
  if (n >= 4)
    for (std::size_t len : {513, 1030, 2050, 4100, 8200})
      for (int p : {2, 3, 4}) longer<T>(tn, len, p, {}, len > 4100);
}
void vp_register() {
#ifdef ENGINE_A
  all<double>("double", 4, 5);
#else
  all<int32_t>("int32", 4, 6);
  all<uint8_t>("uint8", 4, 6);
  all<std::size_t>("size_t", 3, 5);
  all<Item>("record with < only", 4, 5);
#endif
}
