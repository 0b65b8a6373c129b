// C35: messages reach exactly the outputs enabled by the output level.
// The streams and the clock are stand-ins that record what they are given; text becomes durable
// when a stream is flushed or closed.
#include "vp.hpp"
#include "io.hpp"
#include "bezman/src/utils/logger.hpp"
#include "io_end.hpp"
using bezman::utils::Logger;

enum MessageKind { kWarning, kUserInfo, kLogging, kExtended, kError, kTerminating, kTerminatingOwn, kKinds };
static const char *kNames[] = {"warning", "user info", "log", "extended", "error", "terminating error", "terminating error of own type"};
static const unsigned kConsoleBit[] = {4, 1, 8, 16, 2, 2, 2};
static const unsigned kFileBit[] = {64, 256, 256, 256, 128, 128, 128};
static const int kFileOf[] = {vpio::WARNING, vpio::LOG, vpio::LOG, vpio::LOG, vpio::ERROR_, vpio::ERROR_, vpio::ERROR_};
#ifdef ENABLE_LOGGING
constexpr bool kOn = true;
#else
constexpr bool kOn = false;
#endif
struct OwnError {
  std::string text;
  explicit OwnError(const std::string &t) : text(t) {}
};

struct Expected {
  std::string text;
  bool stamp;
  long at;
};
struct Model {
  unsigned level = 39;
  std::vector<Expected> out[vpio::COUNT];
};
static bool contains(const std::string &line, const std::string &text) {
  bool any = text.empty();
  for (std::size_t p = 0; p + text.size() <= line.size(); p++) {
    bool eq = true;
    for (std::size_t i = 0; i < text.size(); i++) eq = eq & (line[p + i] == text[i]);
    any = any | eq;
  }
  return any;
}
static bool sameText(const std::string &a, const std::string &b) {
  bool eq = a.size() == b.size();
  for (std::size_t i = 0; i < a.size() && i < b.size(); i++) eq = eq & (a[i] == b[i]);
  return eq;
}
// sends one message and notes what has to arrive where
static void send(Model &m, int kind, const std::string &text) {
  vpio::now += 3;
  const bool terminating = kind == kTerminating || kind == kTerminatingOwn;
  if ((kOn || terminating) && (m.level & kConsoleBit[kind])) m.out[vpio::CONSOLE].push_back({text, (m.level & 32) != 0, vpio::now});
  if (kOn && (m.level & kFileBit[kind])) m.out[kFileOf[kind]].push_back({text, (m.level & 32) != 0, vpio::now});
  bool thrown = false;
  try {
    switch (kind) {
      case kWarning: Logger::Warning(text); break;
      case kUserInfo: Logger::UserInfo(text); break;
      case kLogging: Logger::Logging(text); break;
      case kExtended: Logger::ExtendedInformation(text); break;
      case kError: Logger::Error(text); break;
      case kTerminating: Logger::TerminatingError(text); break;
      default: Logger::TerminatingError<OwnError>(text); break;
    }
  } catch (const OwnError &e) {
    thrown = true;
    vp::check(kind == kTerminatingOwn, "the requested exception is raised");
    vp::check(sameText(e.text, text), "the exception carries the text");
  } catch (const std::runtime_error &e) {
    thrown = true;
    vp::check(kind == kTerminating, "the requested exception is raised");
    if (text.find('\0') == std::string::npos) vp::check(sameText(e.what(), text), "the exception carries the text");
  }
  vp::check(thrown == terminating, "only a terminating error raises an exception, and always");
  if (terminating)
    for (int s = vpio::LOG; s < vpio::COUNT; s++) vp::check(vpio::sinks()[s].pending.empty(), "records are on file when a terminating error is raised");
}
// the records of every output: one line per expected message, in order, with its text
static void verify(const Model &m, bool symbolicText) {
  static const char *names[] = {"console", "log file", "warning file", "error file", "other files"};
  for (int s = 0; s < vpio::COUNT; s++) {
    const vpio::Sink &k = vpio::sinks()[s];
    const std::string all = k.durable + k.pending;
    const auto &want = m.out[s];
    const std::string where = names[s];
    if (want.empty()) {
      vp::check(all.empty(), where + ": nothing is written unless enabled");
      continue;
    }
    if (symbolicText) {  // one message
      vp::check(contains(all, want[0].text), where + ": enabled messages arrive with their text");
      vp::check(contains(all, vpio::stamp(want[0].at)) == want[0].stamp, where + ": time stamp exactly if enabled");
      continue;
    }
    std::size_t at = 0, n = 0;
    while (at < all.size()) {
      std::size_t e = all.find('\n', at);
      if (e == std::string::npos) e = all.size();
      const std::string line = all.substr(at, e - at);
      at = e + 1;
      if (n < want.size()) {
        vp::check(contains(line, want[n].text), where + ": enabled messages arrive in order with their text");
        vp::check(contains(line, vpio::kStamp) == want[n].stamp, where + ": time stamp exactly if enabled");
        if (want[n].stamp) vp::check(contains(line, vpio::stamp(want[n].at)), where + ": the time stamp is the time of the message");
      }
      n++;
    }
    vp::check(n == want.size(), where + ": as many records as enabled messages");
  }
}
static void level(Model &m, const std::string &name, unsigned mask) {
  const unsigned l = vp::sym<unsigned>(name);
  vp::assume((l & ~mask) == 0);
  m.level = l;
  Logger::SetOutputLevel(l);
}
static const char *kTexts[] = {"first-text", "second-text, long enough to live on the heap", "third"};
// a step: message kind, or kKinds for a change of the level
static void sequence(const std::string &title, std::vector<int> steps, std::vector<unsigned> masks, int tier) {
  vp::add(title, tier, [=] {
    Model m;
    int levels = 0, texts = 0;
    for (int s : steps) {
      if (s == kKinds) {
        level(m, "level" + std::to_string(levels), masks[levels]);
        levels++;
      } else send(m, s, kTexts[texts++ % 3]);
    }
    verify(m, false);
  });
}
static void symbolicText(int kind, std::size_t n, int tier) {
  vp::add(std::string(kNames[kind]) + " of any " + vp::str(n) + " characters", tier, [=] {
    Model m;
    level(m, "level", kConsoleBit[kind] | kFileBit[kind]);
    std::string text;
    for (std::size_t i = 0; i < n; i++) text.push_back((char)vp::sym<unsigned char>("c" + std::to_string(i)));
    for (std::size_t i = 0; i < n; i++) vp::assume(text[i] != 0);
    send(m, kind, text);
    verify(m, true);
  });
}
// many messages of texts that may repeat, at any of the levels that matter to them
static void many(const std::string &title, std::vector<int> kinds, std::vector<std::string> texts, unsigned mask, int tier) {
  vp::add(title, tier, [=] {
    Model m;
    level(m, "level", mask);
    for (std::size_t i = 0; i < kinds.size(); i++) send(m, kinds[i], texts[i % texts.size()]);
    verify(m, false);
  });
}
static void list(int n, int tier) {
  vp::add("level from a list of " + vp::str(n) + " options", tier, [=] {
    Model m;
    using L = Logger::OutputLevel;
    L a = (L)vp::sym<unsigned>("a"), b = (L)vp::sym<unsigned>("b"), c = (L)vp::sym<unsigned>("c");
    vp::assume(((unsigned)a | (unsigned)b | (unsigned)c) <= 511);
    vp::assume((((unsigned)a | (unsigned)b | (unsigned)c) & ~(1u | 4 | 64 | 256)) == 0);
    if (n == 0) { Logger::SetOutputLevel({}); m.level = 0; }
    if (n == 1) { Logger::SetOutputLevel({a}); m.level = (unsigned)a; }
    if (n == 2) { Logger::SetOutputLevel({a, b}); m.level = (unsigned)a | (unsigned)b; }
    if (n == 3) { Logger::SetOutputLevel({a, b, c}); m.level = (unsigned)a | (unsigned)b | (unsigned)c; }
    send(m, kWarning, kTexts[0]);
    send(m, kUserInfo, kTexts[1]);
    verify(m, false);
  });
}
void vp_register() {
  const std::string on = kOn ? "" : "logging compiled out: ";
  for (int k = 0; k < kKinds; k++) {
    sequence(on + kNames[k] + " at the default level", {k}, {}, 0);
    sequence(on + kNames[k] + " at any level", {kKinds, k}, {~0u}, 0);
    sequence(on + kNames[k] + " before and after any change of the level", {k, kKinds, k}, {~0u}, 0);
    for (std::size_t n : {0, 1, 3}) symbolicText(k, n, 0);
  }
  for (int n = 0; n <= 3; n++) list(n, 0);
  for (int k = 0; k < kKinds; k++) {
    const unsigned bits = kConsoleBit[k] | kFileBit[k];
    many(on + kNames[k] + " with the same text three times", {k, k, k}, {kTexts[1]}, bits | 32, 0);
    many(on + kNames[k] + " with texts that return", {k, k, k, k, k}, {kTexts[0], kTexts[2]}, bits, 0);
    many(on + kNames[k] + " forty times", std::vector<int>(40, k), {kTexts[0], kTexts[2], "", kTexts[0]}, bits, 0);
    many(on + kNames[k] + " with a text that contains a zero character", {k, k}, {std::string("before\0after", 12), std::string("\0", 1)}, bits, 0);
    many(on + kNames[k] + " with long texts", {k, k, k}, {std::string(300, 'x') + "end", std::string(1500, 'y') + "end", std::string(80, 'z')}, bits, 0);
    many(on + kNames[k] + " with characters of meaning elsewhere", {k, k}, {"%s %d {} $x \\ \"quoted\"\t<tag> [x]", "\x1b[0m\x01\x7f\xc3\xa4"}, bits, 0);
    for (int l = 0; l < kKinds; l++) if (l != k) many(on + kNames[k] + " and " + kNames[l] + " with the same text in turn", {k, l, k, l, l, k}, {kTexts[0]}, bits | kConsoleBit[l] | kFileBit[l], 0);
  }
  for (int a = 0; a < kKinds; a++)
    for (int b = 0; b < kKinds; b++) {
      const unsigned bits = kConsoleBit[a] | kConsoleBit[b] | kFileBit[a] | kFileBit[b];
      sequence(on + kNames[a] + ", then " + kNames[b] + " at any level", {kKinds, a, b}, {bits | 32}, 0);
      sequence(on + kNames[a] + " at any level, then " + kNames[b] + " at another", {kKinds, a, kKinds, b}, {bits, bits}, 0);
      for (int c = 0; c < kKinds; c++)
        sequence(on + kNames[a] + ", " + kNames[b] + ", " + kNames[c] + " at any level", {kKinds, a, b, c}, {bits | kConsoleBit[c] | kFileBit[c]}, 1);
      sequence(on + kNames[a] + ", then " + kNames[b] + ", then " + kNames[a] + " at changing levels", {kKinds, a, kKinds, b, kKinds, a}, {kFileBit[a] | kFileBit[b], kFileBit[a] | kFileBit[b], kFileBit[a] | kFileBit[b]}, a == b ? 0 : 1);
    }
}
