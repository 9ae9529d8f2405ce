// A small property-based testing engine: every property is a function of a choice sequence.
//
// Generation draws from a seeded random stream; the raw draws ("choices") are recorded, so that a failing case can be
// shrunk (by deleting and lowering choices, Hypothesis style) and replayed from a file. Properties always run in
// forked workers, so a crash, sanitizer report or hang of the code under test is one more way to fail a case.
#pragma once
#include <unistd.h>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace vf {

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

struct Span { uint32_t start, end; };

class Source {
public:
  explicit Source(uint64_t seed) : random_(true), s0_(seed ^ 0x9E3779B97F4A7C15ull), s1_(seed * 0xBF58476D1CE4E5B9ull + 1) { for (int i = 0; i < 8; i++) next(); }
  explicit Source(std::vector<uint64_t> replay) : random_(false), replay_(std::move(replay)) {}

  // uniform in [0, n); 0 is "simplest"
  uint64_t draw(uint64_t n);
  uint64_t raw64();
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t)(hi - lo) + 1); }
  bool flip() { return draw(2) == 1; }
  // true with probability num/den; false is simplest
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  template <typename C> const auto &pick(const C &c) { return c[draw(c.size())]; }
  // index chosen with the given weights
  size_t weighted(std::initializer_list<unsigned> w);
  // loop helper: for (src.begin...; src.more(avg) ; )   mean number of iterations is "avg"
  bool more(unsigned avg) { return draw(avg + 1) != 0; }
  // length with small bias, at most max
  size_t size(size_t max);
  std::string bytes(size_t maxlen);                          // any bytes
  std::string over(std::string_view alphabet, size_t maxlen); // characters of the alphabet
  double unit() { return (double) draw(1u << 30) / (double) (1u << 30); }

  struct Scope { Source &s; uint32_t at; Scope(Source &s_) : s(s_), at(s_.choices_.size()) {} ~Scope() { s.spans_.push_back({at, (uint32_t) s.choices_.size()}); } };
  const std::vector<uint64_t> &choices() const { return choices_; }
  const std::vector<Span> &spans() const { return spans_; }
private:
  uint64_t next() { uint64_t x = s0_, y = s1_; s0_ = y; x ^= x << 23; s1_ = x ^ y ^ (x >> 17) ^ (y >> 26); return s1_ + y; }
  bool random_;
  uint64_t s0_ = 1, s1_ = 2;
  std::vector<uint64_t> replay_;
  std::vector<uint64_t> choices_;
  std::vector<Span> spans_;
  friend struct Scope;
};
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_SPAN(src) vf::Source::Scope VF_CAT(vf_span_, __LINE__)(src)

std::string quote(std::string_view s, size_t maxlen = 300);  // printable rendering of bytes
uint64_t hash64(std::string_view s, uint64_t seed = 0);

extern bool gTrace;   // show notes at once: the process is about to be killed

class Case {
public:
  // what happened, for replay files and samples
  std::ostringstream log;
  void note(const std::string &s) { if (gTrace) { std::string t = s + "\n"; (void) !write(2, t.data(), t.size()); } if (log.tellp() < 60000) log << s << "\n"; }
  [[noreturn]] void fail(const std::string &msg) { throw Failure(msg); }
  void require(bool ok, const std::string &msg) { if (!ok) fail(msg); }
  template <typename A, typename B> void equal(const A &got, const B &want, const std::string &what) {
    if (!(got == want)) { std::ostringstream ss; ss << what << ": got " << show(got) << ", expected " << show(want); fail(ss.str()); }
  }
  void label(const std::string &l) { labels[l]++; }
  // mark this case as non-trivial (by the rule stated for the property)
  void nontrivial(bool yes = true) { if (yes) nontrivial_ = true; }
  bool isNontrivial() const { return nontrivial_; }
  [[noreturn]] void discard() { throw Discard(); }
  // a fresh scratch directory, removed after the case
  std::string scratch();
  std::map<std::string, uint64_t> labels;
  bool wantLog = true;
  ~Case();

  static std::string show(const std::string &s) { return quote(s); }
  static std::string show(std::string_view s) { return quote(s); }
  static std::string show(const char *s) { return quote(s); }
  static std::string show(bool b) { return b ? "true" : "false"; }
  template <typename T> static std::string show(const T &t) { std::ostringstream ss; showTo(ss, t, 0); return ss.str(); }
private:
  template <typename T> static auto showTo(std::ostream &os, const T &t, int) -> decltype(os << t, void()) { os << t; }
  template <typename T> static auto showTo(std::ostream &os, const T &t, long) -> decltype(t.begin(), void()) {
    os << "["; size_t n = 0; for (const auto &x : t) { os << (n++ ? ", " : "") << show(x); } os << "]";
  }
  template <typename A, typename B> static void showTo(std::ostream &os, const std::pair<A, B> &t, int) { os << "(" << show(t.first) << ", " << show(t.second) << ")"; }
  bool nontrivial_ = false;
  std::vector<std::string> dirs_;
};

enum Flags : unsigned {
  kNone = 0,
  kConcurrent = 1,   // threads decide the outcome: replay many times; the oracle is sound for every schedule
};

using PropFn = void (*)(Source &, Case &);
using ProbeFn = std::string (*)();   // empty: no longer fails; otherwise what fails
struct Registration {
  Registration(const char *property, const char *name, uint64_t quick, uint64_t thorough, unsigned flags, PropFn fn);
  Registration(const char *property, const char *finding, ProbeFn fn);
  Registration(const char *property, const char *rule);
};
#define VF_PROP(PROPERTY, NAME, QUICK, THOROUGH, FLAGS) \
  static void prop_##PROPERTY##_##NAME(vf::Source &src, vf::Case &c); \
  static vf::Registration reg_##PROPERTY##_##NAME(#PROPERTY, #NAME, QUICK, THOROUGH, FLAGS, prop_##PROPERTY##_##NAME); \
  static void prop_##PROPERTY##_##NAME(vf::Source &src, vf::Case &c)
// A probe reproduces one known finding; FINDING is its id in known-findings.txt
#define VF_PROBE(PROPERTY, FINDING, FNNAME) \
  static std::string probe_##PROPERTY##_##FNNAME(); \
  static vf::Registration regp_##PROPERTY##_##FNNAME(#PROPERTY, FINDING, probe_##PROPERTY##_##FNNAME); \
  static std::string probe_##PROPERTY##_##FNNAME()
#define VF_RULE(PROPERTY, TEXT) static vf::Registration regr_##PROPERTY(#PROPERTY, TEXT)

int main(int argc, char **argv);
std::string newScratchDir();
void removeTree(const std::string &path);
// true when running a replay or shrink candidate rather than the main sweep
bool replaying();
}
