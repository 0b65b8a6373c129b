// C31: the encoding is standard base64 and no memory outside of the data is touched.
#include "b64.hpp"
static void standard(const std::string &text, const std::vector<unsigned char> &b) {
  const std::size_t groups = (b.size() + 2) / 3;
  vp::check(text.size() == 4 * groups, "length of the text");
  if (text.size() != 4 * groups) return;
  for (std::size_t g = 0; g < groups; g++) {
    const std::size_t left = b.size() - 3 * g;
    const unsigned x = b[3 * g], y = left > 1 ? b[3 * g + 1] : 0, z = left > 2 ? b[3 * g + 2] : 0;
    const unsigned all = (x << 16) | (y << 8) | z;
    vp::check((unsigned char)text[4 * g] == letter((all >> 18) & 63), "first character of a group");
    vp::check((unsigned char)text[4 * g + 1] == letter((all >> 12) & 63), "second character of a group");
    vp::check((unsigned char)text[4 * g + 2] == (left > 1 ? letter((all >> 6) & 63) : '='), "third character of a group");
    vp::check((unsigned char)text[4 * g + 3] == (left > 2 ? letter(all & 63) : '='), "fourth character of a group");
  }
}
template <class T> static void encode(const char *tn, std::size_t n, int tier) {
  vp::add(std::string("encoding of ") + vp::str(n) + " x " + tn, tier, [=] {
    std::vector<unsigned char> bytes;
    const std::vector<T> v = symVector<T>(n, bytes);
    const std::string text = Base64::Encode(v);
    standard(text, bytes);
    sameBytes(v, bytes, "data unchanged");
  });
}
template <class T> static void longData(const char *tn, std::size_t n, int tier) {
  vp::add(std::string("encoding of long data, ") + vp::str(n) + " x " + tn, tier, [=] {
    std::vector<unsigned char> bytes;
    const std::vector<T> v = longVector<T>(n, bytes);
    standard(Base64::Encode(v), bytes);
  });
}
// the data occupies its allocation exactly: any access beyond it is reported
template <class T> static void lengths(const char *tn, int limit, int thorough) {
  for (int k = 0; k <= thorough; k++) encode<T>(tn, k, k > limit);
}
// decoding any well-formed text: the bytes it stands for, in as many entries as they fill
template <class T> static void decode(const char *tn, std::size_t groups, unsigned pad, int tier, std::size_t fixedGroups = 0) {
  vp::add(std::string("decoding ") + vp::str(groups) + " groups with " + vp::str(pad) + " fill characters to " + tn, tier, [=] {
    std::string text(4 * groups, '=');
    std::vector<unsigned> six;
    for (std::size_t i = 0; i + pad < 4 * groups; i++) {
      const unsigned char c = i < 4 * fixedGroups ? letter((i * 29 + 7) % 64) : vp::sym<unsigned char>("c" + std::to_string(i));
      if (i >= 4 * fixedGroups) vp::assume(isLetter(c));
      text[i] = (char)c;
      six.push_back(valueOf(c));
    }
    std::vector<unsigned char> want;
    for (std::size_t k = 0; k + pad < 3 * groups; k++) {
      const std::size_t g = k / 3 * 4;
      unsigned byte = k % 3 == 0 ? (six[g] << 2) | (six[g + 1] >> 4) : k % 3 == 1 ? (six[g + 1] << 4) | (six[g + 2] >> 2) : (six[g + 2] << 6) | six[g + 3];
      want.push_back((unsigned char)byte);
    }
    want.resize(want.size() / sizeof(T) * sizeof(T));
    const std::vector<T> v = Base64::Decode<T>(text);
    sameBytes(v, want, "decoded");
  });
}
// any characters at all: no access outside of the text and the result
template <class T> static void anything(const char *tn, std::size_t groups, int tier) {
  vp::add(std::string("decoding any ") + vp::str(4 * groups) + " characters to " + tn + " stays within bounds", tier, [=] {
    std::string text(4 * groups, '=');
    for (std::size_t i = 0; i < text.size(); i++) text[i] = (char)vp::sym<unsigned char>("c" + std::to_string(i));
    const std::vector<T> v = Base64::Decode<T>(text);
    vp::check(v.size() * sizeof(T) <= 3 * groups, "no more entries than the text has room for");
  });
}
template <class T> static void decodes(const char *tn, int limit, int thorough) {
  for (int g = 0; g <= thorough; g++)
    for (unsigned p = 0; p <= (g ? 2 : 0); p++) decode<T>(tn, g, p, g > limit);
}
void vp_register() {
  lengths<unsigned char>("uint8", 12, 48);
  for (int n : {1000, 4097, 33001, 65540}) longData<unsigned char>("uint8", n, 0);
  longData<double>("double", 8197, 0);
  longData<unsigned char>("uint8", 131075, 1);
  for (int n : {57, 76, 100, 128, 256, 258}) encode<unsigned char>("uint8", n, 0);
  encode<uint16_t>("uint16", 129, 0);
  encode<float>("float", 65, 0);
  encode<double>("double", 33, 0);
  encode<Point<3, double>>("Point<3, double>", 12, 0);
  lengths<signed char>("int8", 4, 9);
  lengths<char>("char", 4, 9);
  lengths<uint16_t>("uint16", 7, 24);
  lengths<int32_t>("int32", 6, 18);
  lengths<float>("float", 6, 18);
  lengths<double>("double", 6, 16);
  lengths<int64_t>("int64", 3, 9);
  lengths<Point<1, double>>("Point<1, double>", 3, 9);
  lengths<Point<5, float>>("Point<5, float>", 3, 6);
  lengths<Point<6, double>>("Point<6, double>", 2, 3);
  lengths<Point<7, unsigned char>>("Point<7, uint8>", 4, 8);
  lengths<Point<2, int32_t>>("Point<2, int32>", 3, 6);
  lengths<Point<10, uint16_t>>("Point<10, uint16>", 2, 4);
  lengths<Point<4, double>>("Point<4, double>", 2, 5);
  lengths<Point<2, float>>("Point<2, float>", 3, 8);
  lengths<Point<2, double>>("Point<2, double>", 3, 8);
  lengths<Point<3, double>>("Point<3, double>", 3, 6);
  lengths<Point<3, float>>("Point<3, float>", 4, 8);
  decodes<unsigned char>("uint8", 4, 10);
  for (int g : {19, 20, 43}) for (unsigned pad : {0u, 1u, 2u}) decode<unsigned char>("uint8", g, pad, 0);
  decode<float>("float", 43, 0, 0);
  decode<double>("double", 32, 0, 0);
  for (int g : {64, 86, 130}) for (unsigned pad : {0u, 1u, 2u}) decode<unsigned char>("uint8", g, pad, 0, g - 3);
  decodes<uint16_t>("uint16", 4, 8);
  decodes<int32_t>("int32", 4, 8);
  decodes<float>("float", 3, 8);
  decodes<double>("double", 6, 12);
  for (int g = 1; g <= 2; g++) {
    anything<unsigned char>("uint8", g, g > 1);
    anything<uint16_t>("uint16", g, g > 1);
    anything<double>("double", g, g > 1);
  }
}
