// C32: tabulated binomial coefficients are exact for every pair in the supported range.
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include "bezman/src/utils/fastbinomialcoefficient.hpp"
#include "vp.hpp"
using U = unsigned __int128;
namespace bu = bezman::utils;

// exact value by the multiplicative formula (every partial product is itself a binomial coefficient)
static U binom(unsigned n, unsigned k) {
  U r = 1;
  for (unsigned j = 1; j <= k; j++) r = r * (n - k + j) / j;
  return r;
}
template <class T, unsigned N> static void table(const char *tn, int tier) {
  vp::add(std::string("table of ") + tn + ", " + vp::str(N) + " rows", tier, [] {
    using C = bu::BinomialCoefficientLookupTableCreator<T, N>;
    static_assert(C::n_values == N * (N + 1) / 2);
    volatile unsigned one = 1;  // table computed by the code as run, too
    const std::array<T, C::n_values> t = C::calculate_table();
#ifndef VP_CORE
    constexpr
#endif
    const std::array<T, C::n_values> ct = C::calculate_table();
    T want[C::n_values];
    for (unsigned n = 0, p = 0; n < N; n++)
      for (unsigned k = 0; k <= n; k++) want[p++] = static_cast<T>(binom(n, k));
    const uint16_t n = vp::sym<uint16_t>("n"), i = vp::sym<uint16_t>("i");
    vp::assume(n < N);
    vp::assume(i <= n);
    const std::size_t at = (std::size_t)n * (n + 1u) / 2 + i;
    uint64_t a = 0, b = 0, c = 0;
    __builtin_memcpy(&a, &t[at], sizeof(T) < 8 ? sizeof(T) : 8);
    __builtin_memcpy(&b, &ct[at], sizeof(T) < 8 ? sizeof(T) : 8);
    __builtin_memcpy(&c, &want[at], sizeof(T) < 8 ? sizeof(T) : 8);
    vp::check(a == c, "entry of the table");
    vp::check(b == c, "entry of the compile-time table");
    (void)one;
  });
}
static void lookup() {
  vp::add("look-up of any pair, degrees below " + vp::str((unsigned)MAX_BINOMIAL_DEGREE), 0, [] {
    constexpr unsigned N = MAX_BINOMIAL_DEGREE;
    std::size_t want[N * (N + 1) / 2];
    for (unsigned n = 0, p = 0; n < N; n++)
      for (unsigned k = 0; k <= n; k++) want[p++] = static_cast<std::size_t>(binom(n, k));
    const unsigned n = vp::sym<unsigned>("n"), i = vp::sym<unsigned>("i");
    vp::assume(n < N);
    vp::assume(i <= n);
    const std::size_t r = bu::FastBinomialCoefficient::choose(n, i);
    vp::check(r == want[n * (n + 1) / 2 + i], "binomial coefficient");
    vp::check(bu::FastBinomialCoefficient::choose(n, n - i) == r, "symmetry");
    if (n + 1 < N) {
      vp::check(bu::FastBinomialCoefficient::choose(n + 1, i + 1) == r + (i < n ? bu::FastBinomialCoefficient::choose(n, i + 1) : 0), "recurrence");
    }
  });
}
void vp_register() {
  lookup();
#ifndef ONLY_LOOKUP
  table<std::size_t, 1>("size_t", 0);
  table<std::size_t, 2>("size_t", 0);
  table<std::size_t, 30>("size_t", 0);
  table<std::size_t, 68>("size_t", 0);
#ifndef VP_CORE
  table<unsigned, 30>("unsigned", 0);
  table<unsigned, 34>("unsigned", 0);
  table<int, 30>("int", 0);
  table<int, 34>("int", 0);
  table<long, 30>("long", 0);
  table<long long, 60>("long long", 0);
  table<uint16_t, 18>("uint16", 0);
  table<uint8_t, 10>("uint8", 0);
  table<double, 30>("double", 0);
  table<double, 57>("double", 0);
  table<float, 27>("float", 0);
#endif
#endif
}
