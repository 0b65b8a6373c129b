// C30: decoding the encoding of any vector returns exactly the original bytes.
#include "b64.hpp"
template <class T> static void longTrip(const char *tn, std::size_t n, int tier) {
  vp::add(std::string("long round trip of ") + vp::str(n) + " x " + tn, tier, [=] {
    std::vector<unsigned char> bytes;
    const std::vector<T> v = longVector<T>(n, bytes);
    sameBytes(Base64::Decode<T>(Base64::Encode(v)), bytes, "decoded");
  });
}
template <class T> static void roundTrip(const char *tn, std::size_t n, int tier) {
  vp::add(std::string("round trip of ") + vp::str(n) + " x " + tn, tier, [=] {
    std::vector<unsigned char> bytes;
    const std::vector<T> v = symVector<T>(n, bytes);
    const std::string text = Base64::Encode(v);
    const std::string copy = text;
    const std::vector<T> back = Base64::Decode<T>(text);
    sameBytes(back, bytes, "decoded");
    sameBytes(v, bytes, "data unchanged");
    vp::check(text.size() == copy.size(), "text unchanged: length");
    for (std::size_t i = 0; i < text.size() && i < copy.size(); i++) vp::check(text[i] == copy[i], "text unchanged");
  });
}
template <class T, std::size_t... n> static void lengths(const char *tn, int limit, int thorough) {
  for (int k = 0; k <= thorough; k++) roundTrip<T>(tn, k, k > limit);
}
// conversions do not influence each other
template <class T, class U> static void sequence(const char *tn, std::size_t n, std::size_t m) {
  vp::add(std::string("sequence of ") + vp::str(n) + " and " + vp::str(m) + " x " + tn, 0, [=] {
    std::vector<unsigned char> a, b;
    const std::vector<T> v = symVector<T>(n, a, "v");
    const std::vector<U> w = symVector<U>(m, b, "w");
    const std::string s = Base64::Encode(v), t = Base64::Encode(w), s2 = Base64::Encode(v);
    const auto x = Base64::Decode<T>(s);
    const auto y = Base64::Decode<U>(t);
    const auto z = Base64::Decode<T>(s2);
    sameBytes(x, a, "first");
    sameBytes(y, b, "second");
    sameBytes(z, a, "first again");
    sameBytes(Base64::Decode<U>(t), b, "second again");
  });
}
struct alignas(1) Rgb { unsigned char r, g, b; };
void vp_register() {
  for (std::size_t n : {1, 2, 3, 4}) for (std::size_t m : {0, 1, 2, 3}) sequence<unsigned char, unsigned char>("uint8 and uint8", n, m);
  for (std::size_t n : {1, 2, 3}) sequence<uint16_t, unsigned char>("uint16 and uint8", n, n + 1), sequence<float, uint16_t>("float and uint16", n, n);
  sequence<double, float>("double and float", 2, 3);
  for (std::size_t n : {1, 2, 3}) for (std::size_t m : {0, 1, 2, 3}) sequence<double, double>("double and double", n, m), sequence<Point<2, float>, Point<2, float>>("Point<2, float> and Point<2, float>", n, m);
  sequence<Point<3, double>, Point<3, double>>("Point<3, double> and Point<3, double>", 2, 1);
  sequence<Point<3, float>, Point<2, float>>("Point<3, float> and Point<2, float>", 3, 1);
  for (int n : {1000, 4097, 33001, 65540}) longTrip<unsigned char>("uint8", n, 0);
  longTrip<double>("double", 8197, 0);
  longTrip<Point<3, double>>("Point<3, double>", 2750, 0);
  longTrip<unsigned char>("uint8", 131075, 1);
  sequence<Point<3, float>, double>("Point<3, float> and double", 2, 1);
  lengths<unsigned char>("uint8", 12, 48);
  for (int n : {57, 76, 100, 128, 256, 258}) roundTrip<unsigned char>("uint8", n, 0);
  roundTrip<uint16_t>("uint16", 129, 0);
  roundTrip<float>("float", 65, 0);
  roundTrip<double>("double", 33, 0);
  roundTrip<Point<3, double>>("Point<3, double>", 12, 0);
  lengths<signed char>("int8", 4, 9);
  lengths<char>("char", 4, 9);
  lengths<uint16_t>("uint16", 7, 24);
  lengths<int16_t>("int16", 4, 9);
  lengths<Rgb>("3-byte record", 4, 9);
  lengths<int32_t>("int32", 6, 18);
  lengths<uint32_t>("uint32", 3, 9);
  lengths<float>("float", 6, 18);
  lengths<double>("double", 6, 16);
  lengths<int64_t>("int64", 3, 9);
  lengths<std::size_t>("size_t", 3, 9);
  lengths<long double>("long double", 0, 0);
  lengths<Point<1, double>>("Point<1, double>", 3, 9);
  lengths<Point<2, double>>("Point<2, double>", 3, 8);
  lengths<Point<3, double>>("Point<3, double>", 3, 6);
  lengths<Point<4, double>>("Point<4, double>", 2, 5);
  lengths<Point<5, float>>("Point<5, float>", 3, 6);
  lengths<Point<6, double>>("Point<6, double>", 2, 3);
  lengths<Point<7, unsigned char>>("Point<7, uint8>", 4, 8);
  lengths<Point<2, int32_t>>("Point<2, int32>", 3, 6);
  lengths<Point<10, uint16_t>>("Point<10, uint16>", 2, 4);
  lengths<Point<2, float>>("Point<2, float>", 3, 8);
  lengths<Point<3, float>>("Point<3, float>", 4, 8);
  lengths<Point<1, float>>("Point<1, float>", 4, 8);
}
