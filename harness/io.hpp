// Stand-ins for the streams and the clock that record what they are given; text becomes durable when a stream
// is flushed or closed.  Between this file and io_end.hpp the library is included.
#include <array>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace vpio {
struct Sink {
  std::string durable, pending;
  bool open = false;
  void write(const char *p, std::size_t n) { pending.append(p, n); }
  void sync() {
    durable += pending;
    pending.clear();
  }
};
enum { CONSOLE, LOG, WARNING, ERROR_, OTHER, COUNT };
inline Sink *sinks() {
  static Sink s[COUNT];
  return s;
}
inline int sinkOf(const std::string &name) {
  return name == "log_file.log" ? LOG : name == "warning_file.log" ? WARNING : name == "error_file.log" ? ERROR_ : OTHER;
}
// the clock stands still during a message and advances before the next one
inline long now = 11;
inline void stampOf(char *b, long t) { strcpy(b, "STAMP-00"); b[6] = (char)('0' + t / 10 % 10); b[7] = (char)('0' + t % 10); }
inline std::string stamp(long t) { char b[16]; stampOf(b, t); return b; }
inline const char *kStamp = "STAMP-";
}  // namespace vpio
namespace std {
struct vp_ostream {
  vpio::Sink *sink = nullptr;
  bool bad = false;
  vp_ostream() {}
  explicit vp_ostream(vpio::Sink *s) : sink(s) {}
  virtual ~vp_ostream() {}
  vp_ostream &write(const char *p, streamsize n) {
    if (sink) sink->write(p, (size_t)n);
    else bad = true;
    return *this;
  }
  vp_ostream &put(char c) { return write(&c, 1); }
  vp_ostream &vp_flush() {
    if (sink) sink->sync();
    return *this;
  }
  bool good() const { return !bad; }
  bool fail() const { return bad; }
  void clear() { bad = false; }
  explicit operator bool() const { return !bad; }
  bool operator!() const { return bad; }
  streamsize width(streamsize = 0) { return 0; }
  streamsize precision(streamsize = 0) { return 6; }
  char fill(char = ' ') { return ' '; }
  vp_ostream &operator<<(vp_ostream &(*f)(vp_ostream &)) { return f(*this); }
  vp_ostream &operator<<(ios_base &(*)(ios_base &)) { return *this; }
  vp_ostream &operator<<(unsigned v) { return *this << to_string(v); }
  vp_ostream &operator<<(int v) { return *this << to_string(v); }
  vp_ostream &operator<<(unsigned long v) { return *this << to_string(v); }
  vp_ostream &operator<<(long v) { return *this << to_string(v); }
  vp_ostream &operator<<(const string &s) { return write(s.data(), (streamsize)s.size()); }
};
inline vp_ostream &operator<<(vp_ostream &o, const char *s) { return o.write(s, (streamsize)strlen(s)); }
inline vp_ostream &operator<<(vp_ostream &o, string_view s) { return o.write(s.data(), (streamsize)s.size()); }
inline vp_ostream &operator<<(vp_ostream &o, char c) { return o.put(c); }
inline vp_ostream &operator<<(vp_ostream &o, _Setw) { return o; }
inline vp_ostream &operator<<(vp_ostream &o, _Setprecision) { return o; }
inline vp_ostream &operator<<(vp_ostream &o, _Setfill<char>) { return o; }
inline vp_ostream &operator<<(vp_ostream &o, _Put_time<char> t) { return o << vpio::stamp(t._M_tmb->tm_sec); }
inline vp_ostream &vp_endl(vp_ostream &o) { o.put('\n'); return o.vp_flush(); }
inline vp_ostream &vp_flush(vp_ostream &o) { return o.vp_flush(); }
inline vp_ostream &vp_console() {
  static vp_ostream o(&vpio::sinks()[vpio::CONSOLE]);
  return o;
}
struct vp_ofstream : vp_ostream {
  vp_ofstream() {}
  explicit vp_ofstream(const string &n, ios_base::openmode m = ios_base::out) { open(n, m); }
  vp_ofstream(vp_ofstream &&o) { sink = o.sink; o.sink = nullptr; }
  vp_ofstream &operator=(vp_ofstream &&o) { close(); sink = o.sink; o.sink = nullptr; return *this; }
  ~vp_ofstream() override { close(); }
  void open(const string &n, ios_base::openmode m = ios_base::out) {
    if (sink) { bad = true; return; }
    sink = &vpio::sinks()[vpio::sinkOf(n)];
    if (!(m & (ios_base::app | ios_base::ate | ios_base::in))) { sink->durable.clear(); sink->pending.clear(); }
    sink->open = true;
  }
  bool is_open() const { return sink != nullptr; }
  void close() {
    if (!sink) { bad = true; return; }
    sink->sync();
    sink->open = false;
    sink = nullptr;
  }
};
struct vp_ostringstream : vp_ostream {
  vpio::Sink own;
  vp_ostringstream() { sink = &own; }
  string str() const { return own.durable + own.pending; }
};
inline tm *vp_localtime(const time_t *p) { static tm t; t.tm_sec = (int)*p; return &t; }
inline char *vp_asctime(const tm *t) { static char b[32]; vpio::stampOf(b, t->tm_sec); strcat(b, "\n"); return b; }
inline char *vp_ctime(const time_t *p) { return vp_asctime(vp_localtime(p)); }
inline time_t vp_time(time_t *p) { if (p) *p = vpio::now; return vpio::now; }
inline size_t vp_strftime(char *b, size_t n, const char *, const tm *t) { if (n < 9) return 0; vpio::stampOf(b, t->tm_sec); return 8; }
}  // namespace std
using std::vp_asctime; using std::vp_ctime; using std::vp_localtime; using std::vp_strftime; using std::vp_time;
#define ostream vp_ostream
#define ofstream vp_ofstream
#define fstream vp_ofstream
#define ostringstream vp_ostringstream
#define stringstream vp_ostringstream
#define cout vp_console()
#define cerr vp_console()
#define clog vp_console()
#define endl vp_endl
#define flush vp_flush
#define localtime vp_localtime
#define gmtime vp_localtime
#define asctime vp_asctime
#define ctime vp_ctime
#define time vp_time
#define strftime vp_strftime
