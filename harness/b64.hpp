// shared by C30 and C31: symbolic byte images and the standard alphabet, written out by ranges
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#include "bezman/src/utils/base64.hpp"
#include "vp.hpp"
using bezman::Point;
using bezman::utils::Base64;
using bezman::utils::Base64_;

// character of a six-bit value; branch-free so that symbolic values do not split the path
inline unsigned char letter(unsigned v) {
  unsigned r = 'A' + v;
  r = v >= 26 ? 'a' + (v - 26) : r;
  r = v >= 52 ? '0' + (v - 52) : r;
  r = v == 62 ? '+' : r;
  r = v == 63 ? '/' : r;
  return (unsigned char)r;
}
inline bool isLetter(unsigned char c) {
  return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '+') | (c == '/');
}
inline unsigned valueOf(unsigned char c) {
  unsigned r = c - 'A';
  r = (c >= 'a') & (c <= 'z') ? c - 'a' + 26 : r;
  r = (c >= '0') & (c <= '9') ? c - '0' + 52 : r;
  r = c == '+' ? 62 : r;
  r = c == '/' ? 63 : r;
  return r;
}
template <class T> inline std::vector<T> symVector(std::size_t n, std::vector<unsigned char> &bytes, const std::string &name = "b") {
  bytes.resize(n * sizeof(T));
  for (std::size_t i = 0; i < bytes.size(); i++) bytes[i] = vp::sym<unsigned char>(name + std::to_string(i));
  std::vector<T> v(n);
  if (n) std::memcpy(static_cast<void *>(v.data()), bytes.data(), bytes.size());
  return v;
}
// long data: a few bytes at the ends and where 16-bit positions wrap around are symbolic, the others numbers
template <class T> inline std::vector<T> longVector(std::size_t n, std::vector<unsigned char> &bytes) {
  bytes.resize(n * sizeof(T));
  for (std::size_t i = 0; i < bytes.size(); i++) bytes[i] = i < 2 || i + 4 > bytes.size() || (i % 16384 < 2) || (i % 65536 == 49151) ? vp::sym<unsigned char>("b" + std::to_string(i)) : (unsigned char)(i * 167 + (i >> 8) * 31 + 5);
  std::vector<T> v(n);
  if (n) std::memcpy(static_cast<void *>(v.data()), bytes.data(), bytes.size());
  return v;
}
template <class T> inline void sameBytes(const std::vector<T> &v, const std::vector<unsigned char> &bytes, const std::string &what) {
  vp::check(v.size() * sizeof(T) == bytes.size(), what + ": number of entries");
  if (v.size() * sizeof(T) != bytes.size()) return;
  std::vector<unsigned char> got(bytes.size());
  if (bytes.size()) std::memcpy(got.data(), static_cast<const void *>(v.data()), bytes.size());
  for (std::size_t i = 0; i < bytes.size(); i++) vp::check(got[i] == bytes[i], what + ": bytes");
}
