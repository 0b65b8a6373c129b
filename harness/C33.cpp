// C33: the integer power equals the repeated product, for every base and exponent with a
// representable result, in every integral type.
#include <type_traits>
#include <array>
#include <limits>
#include <cstdint>
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "vp.hpp"
using bezman::utils::algorithms::IntPower;
using I = __int128;

// largest b >= 0 with b^k <= m (k >= 1), by bisection on exact integers
template <class T> static I root(I m, int k) {
  I lo = 0, hi = I(1) << 64;
  if (m < hi) hi = m;
  while (lo < hi) {
    I mid = lo + (hi - lo + 1) / 2, p = 1;
    bool ok = true;
    for (int i = 0; i < k && ok; i++) {
      ok = p <= m / mid;
      p *= mid;
    }
    if (ok) lo = mid;
    else hi = mid - 1;
  }
  return lo;
}
template <class T> static T oracle(T base, int k) {
  // the product is representable: computing modulo 2^w is exact
  using U = uint64_t;
  U r = 1;
  for (int i = 0; i < k; i++) r *= (U)base;
  return (T)r;
}
template <class T> static void bounds(int k, T &lo, T &hi) {
  if (k == 0) {
    lo = std::numeric_limits<T>::min();
    hi = std::numeric_limits<T>::max();
    return;
  }
  I max = std::numeric_limits<T>::max(), min = std::numeric_limits<T>::min();
  hi = (T)root<T>(max, k);
  lo = 0;
  if (std::is_signed_v<T>) lo = (T)-root<T>(k % 2 ? -min : max, k);
}
template <class T> static void concrete_exponent(const char *tn, int k, int tier) {
  vp::add(std::string(tn) + " exponent " + vp::str(k), tier, [=] {
    T lo, hi;
    bounds<T>(k, lo, hi);
    const T b = vp::sym<T>("base");
    vp::assume(b >= lo && b <= hi);
    const T base = b, power = (T)k;
    T r = IntPower(base, power);
    vp::check(r == oracle<T>(base, k), "value of the power");
    vp::check(base == b && power == (T)k, "arguments unchanged");
  });
}
template <class T> static void symbolic_exponent(const char *tn, T b, int tier) {
  vp::add(std::string(tn) + " base " + std::to_string((long long)b) + " any exponent", tier, [=] {
    // all exponents with representable result; the table is built from exact products
    constexpr int n = 70;
    T table[n];
    int count = 0;
    I p = 1;
    while (count < n && p >= (I)std::numeric_limits<T>::min() && p <= (I)std::numeric_limits<T>::max()) {
      table[count++] = (T)p;
      p *= (I)b;
    }
    const unsigned k = vp::sym<unsigned>("exponent");
    vp::assume(k < (unsigned)count);
    vp::check(IntPower(b, (T)k) == table[k], "value of the power");
  });
}
template <class T> static void both(const char *tn, int kmax, int tier) {
  vp::add(std::string(tn) + " any base, any exponent up to " + vp::str(kmax), tier, [=] {
    T lo[80], hi[80];
    for (int k = 0; k <= kmax; k++) bounds<T>(k, lo[k], hi[k]);
    const T b = vp::sym<T>("base");
    const unsigned k = vp::sym<unsigned>("exponent");
    vp::assume(k <= (unsigned)kmax);
    vp::assume(b >= lo[k] && b <= hi[k]);
    const T r = IntPower(b, (T)k);
    const unsigned kc = (unsigned)vp_concrete(k);
    vp::check(r == oracle<T>(b, kc), "value of the power");
  });
}
// powers do not influence each other: several exponents of the same bases in turn
template <class T> static void history(const char *tn, std::vector<int> ks) {
  std::string name;
  for (int k : ks) name += " " + vp::str(k);
  vp::add(std::string(tn) + " exponents" + name + " in turn", 0, [=] {
    T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    for (int k : ks) {
      T l, h;
      bounds<T>(k, l, h);
      lo = l > lo ? l : lo;
      hi = h < hi ? h : hi;
    }
    const T b = vp::sym<T>("base"), c = vp::sym<T>("other base");
    vp::assume(b >= lo && b <= hi && c >= lo && c <= hi);
    for (int k : ks) vp::check(IntPower(b, (T)k) == oracle<T>(b, k), "value of the power");
    for (int k : ks) {
      vp::check(IntPower(c, (T)k) == oracle<T>(c, k), "value of the power of the other base");
      vp::check(IntPower(b, (T)k) == oracle<T>(b, k), "value of the power again");
      vp::check(IntPower(b, (T)k) == oracle<T>(b, k), "value of the power once more");
    }
  });
}
template <class T> static void all(const char *tn) {
  constexpr int w = std::numeric_limits<T>::digits;
  for (int k = 0; k <= w; k++) concrete_exponent<T>(tn, k, 0);
  if (sizeof(T) > 1) for (int k : {w + 1, w + 20, 100, 127}) concrete_exponent<T>(tn, k, 0);
  for (int b : {2, 3, 5, 7, 10, 15}) symbolic_exponent<T>(tn, b, 0);
  if constexpr (std::is_signed_v<T>) for (int b : {-1, -2, -3, -7, -10}) symbolic_exponent<T>(tn, b, 0);
  both<T>(tn, sizeof(T) <= 2 ? w : 12, 0);
  const int m = w / 3;
  for (auto ks : std::vector<std::vector<int>>{{2, 3, 4, 2}, {m, m - 1, 1}, {1, 0, 2, 1}, {5, 2, 6, 5, 7}, {m - 1, m, 3}, {m, 2, m - 1}}) {
    bool ok = true;
    for (int k : ks) ok = ok && k >= 0 && k <= w;
    if (ok) history<T>(tn, ks);
  }
}
void vp_register() {
#ifdef NARROW
  all<int8_t>("int8");
  all<uint8_t>("uint8");
  all<int16_t>("int16");
  all<uint16_t>("uint16");
#else
  all<int32_t>("int32");
  all<uint32_t>("uint32");
  all<int64_t>("int64");
  all<uint64_t>("uint64");
  all<long long>("long long");
  all<std::size_t>("size_t");
#endif
}
