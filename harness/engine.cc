#include "engine.hh"
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:detect_odr_violation=0:max_allocation_size_mb=4096"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=98"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=97:report_signal_unsafe=0"; }

namespace vf {

// ------------------------------------------------------------------------------------------------ shared memory
static constexpr size_t kMaxChoices = 1 << 18, kMaxSpans = 1 << 16, kText = 1 << 16;
struct Capture {             // what a single captured run did
  uint32_t nchoices, nspans;
  int finished;              // 0 died, 1 passed, 2 failed, 3 discarded
  char message[kText];
  char log[kText];
  uint64_t choices[kMaxChoices];
  Span spans[kMaxSpans];
};
static constexpr int kMaxWorkers = 16, kMaxSubs = 64, kMaxLabels = 96, kSampleSlots = 3;
static constexpr size_t kMaxHashes = 1 << 21;
struct LabelSlot { char name[72]; uint64_t count; };
struct Worker {
  std::atomic<int> sub; std::atomic<uint64_t> idx; std::atomic<uint64_t> ticks;
  std::atomic<int> finished;
  uint64_t evals[kMaxSubs], nontrivial[kMaxSubs], discards[kMaxSubs];
  LabelSlot labels[kMaxSubs][kMaxLabels];
  char samples[kMaxSubs][kSampleSlots][4096];
  uint32_t nsamples[kMaxSubs];
  std::atomic<uint64_t> nhashes;
  uint64_t hashes[kMaxHashes / 8];
};
struct Shared {
  std::atomic<int> failed[kMaxSubs];       // 1 when some worker found a failure there
  uint64_t failIdx[kMaxSubs];
  char failMsg[kMaxSubs][4096];
  char failLog[kMaxSubs][16384];
  Capture cap;
  Worker w[kMaxWorkers];
};
static Shared *sh = nullptr;
static bool capturing = false, gReplaying = false; bool gTrace = false;
bool replaying() { return gReplaying; }

// ------------------------------------------------------------------------------------------------ Source
static inline void capChoice(uint64_t v) {
  if (capturing && sh->cap.nchoices < kMaxChoices) sh->cap.choices[sh->cap.nchoices++] = v;
}
uint64_t Source::draw(uint64_t n) {
  uint64_t v;
  if (n == 0) return raw64();
  if (n == 1) return 0;
  if (random_) v = (uint64_t)(((unsigned __int128) next() * n) >> 64);
  else { size_t i = choices_.size(); v = i < replay_.size() ? replay_[i] : 0; if (v >= n) v = n - 1; }
  choices_.push_back(v); capChoice(v);
  return v;
}
uint64_t Source::raw64() {
  uint64_t v;
  if (random_) v = next();
  else { size_t i = choices_.size(); v = i < replay_.size() ? replay_[i] : 0; }
  choices_.push_back(v); capChoice(v);
  return v;
}
size_t Source::weighted(std::initializer_list<unsigned> w) {
  uint64_t total = 0; for (auto x : w) total += x;
  uint64_t v = draw(total); size_t i = 0;
  for (auto x : w) { if (v < x) return i; v -= x; i++; }
  return 0;
}
size_t Source::size(size_t max) {
  if (max == 0) return 0;
  uint64_t k = draw(8);
  size_t m = k < 4 ? 4 : k < 6 ? 16 : k < 7 ? 64 : max;
  if (m > max) m = max;
  return draw(m + 1);
}
std::string Source::bytes(size_t maxlen) {
  static const std::string special("\0\xff#|!\r\n*$ \\[]?^-:_/.", 22);
  std::string s; size_t n = size(maxlen); s.reserve(n);
  for (size_t i = 0; i < n; i++) {
    uint64_t k = draw(4);
    if (k < 2) s += (char) ('a' + draw(4)); else if (k == 2) s += special[draw(special.size())]; else s += (char) draw(256);
  }
  return s;
}
std::string Source::over(std::string_view a, size_t maxlen) {
  std::string s; size_t n = size(maxlen); s.reserve(n);
  for (size_t i = 0; i < n; i++) s += a[draw(a.size())];
  return s;
}

std::string quote(std::string_view s, size_t maxlen) {
  std::string r = "\""; size_t n = 0;
  for (unsigned char ch : s) {
    if (n++ >= maxlen) { r += "..."; break; }
    if (ch == '\\' || ch == '"') { r += '\\'; r += (char) ch; }
    else if (ch == '\n') r += "\\n"; else if (ch == '\r') r += "\\r";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
    else r += (char) ch;
  }
  r += '"'; if (s.size() > maxlen) r += "(" + std::to_string(s.size()) + " bytes)";
  return r;
}
uint64_t hash64(std::string_view s, uint64_t seed) {
  uint64_t h = 1469598103934665603ull ^ seed;
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
  h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32; return h;
}
static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15u; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}

// ------------------------------------------------------------------------------------------------ scratch
static std::string gScratch; static std::atomic<uint64_t> gScratchCounter{0};
void removeTree(const std::string &path) {
  if (gScratch.empty() || path.compare(0, gScratch.size(), gScratch) != 0) return;
  std::error_code ec; std::filesystem::remove_all(path, ec);
}
std::string newScratchDir() {
  std::string d = gScratch + "/d" + std::to_string(getpid()) + "-" + std::to_string(gScratchCounter++);
  std::filesystem::create_directories(d); return d;
}
std::string Case::scratch() { dirs_.push_back(newScratchDir()); return dirs_.back(); }
Case::~Case() { for (auto &d : dirs_) removeTree(d); }

// ------------------------------------------------------------------------------------------------ registry
struct Sub { std::string property, name; uint64_t quick, thorough; unsigned flags; PropFn fn; };
struct Probe { std::string property, finding; ProbeFn fn; };
static std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
static std::vector<Probe> &probes() { static std::vector<Probe> v; return v; }
static std::map<std::string, std::string> &rules() { static std::map<std::string, std::string> v; return v; }
Registration::Registration(const char *p, const char *n, uint64_t q, uint64_t t, unsigned f, PropFn fn) { subs().push_back({p, n, q, t, f, fn}); }
Registration::Registration(const char *p, const char *f, ProbeFn fn) { probes().push_back({p, f, fn}); }
Registration::Registration(const char *p, const char *r) { rules()[p] = r; }

// ------------------------------------------------------------------------------------------------ running one case
static void armCpuTimer(int seconds) {
  struct itimerval it{}; it.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &it, nullptr);
}
static const int kCaseCpuSeconds = 60;   // single-case processor budget: beyond it, the case is a hang
enum { kPassed = 1, kFailed = 2, kDiscarded = 3 };
static int runCase(const Sub &s, Source &src, Case &c, std::string &msg) {
  armCpuTimer(kCaseCpuSeconds);
  try { s.fn(src, c); return kPassed; }
  catch (const Discard &) { return kDiscarded; }
  catch (const Failure &f) { msg = f.what(); return kFailed; }
  catch (const std::exception &e) { msg = std::string("exception escaped: ") + e.what(); return kFailed; }
  catch (const std::string &e) { msg = "exception escaped: " + e; return kFailed; }
  catch (...) { msg = "unknown exception escaped"; return kFailed; }
}
static void copyText(char *dst, size_t cap, const std::string &s) { size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0; }
static void muteOutput(const std::string &errFile) {
  int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
  if (const char *keep = getenv("VF_LOG")) { int e = open(keep, O_WRONLY | O_CREAT | O_APPEND, 0644); if (e >= 0) { dup2(e, 2); close(e); } }   // what the code itself logs, for whoever looks into a failure
  else if (!errFile.empty()) { int e = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) { dup2(e, 2); close(e); } }
  else dup2(fd, 2);
  close(fd);
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// A process which is not given any processor time, although it runs, is waiting for something that never happens.
// Looked at five times a second; whoever uses less than 50 ms in a hundred looks (20 s) is stuck.
struct IdleWatch {
  double last = 0; unsigned long ticks = 0; int looks = 0; long base = -1;
  static long used(pid_t pid) {
    std::ifstream in("/proc/" + std::to_string(pid) + "/stat"); std::string l; if (!std::getline(in, l)) return -1;
    size_t p = l.rfind(')'); if (p == std::string::npos) return -1; std::istringstream is(l.substr(p + 1)); std::string f; long u = 0, t = 0; for (int i = 0; i < 13 && is >> f; i++) { if (i == 11) u = atol(f.c_str()); if (i == 12) t = atol(f.c_str()); } return u + t;
  }
  void reset() { looks = 0; base = -1; }
  bool stuck(pid_t pid, int limit = 100) {
    if (now() - last < 0.2) return false; last = now(); long u = used(pid); if (u < 0) return false;
    if (base < 0 || u - base > 5) { base = u; looks = 0; return false; }
    return ++looks >= limit;
  }
};

struct RunResult { bool slow = false; int status = 0; bool fails = false; std::string message, log; std::vector<uint64_t> choices; std::vector<Span> spans; };

static std::string tailOfFile(const std::string &path, size_t max) {
  std::ifstream in(path, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
  size_t p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("runtime error:"); if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
  if (p != std::string::npos) { size_t b = s.rfind('\n', p); return s.substr(b == std::string::npos ? 0 : b + 1, max); }
  return s.size() > max ? s.substr(s.size() - max) : s;
}

static RunResult runForked(const Sub &s, bool random, uint64_t seed, const std::vector<uint64_t> &choices, double wallLimit = 150) {
  RunResult r; Capture &cap = sh->cap;
  cap.nchoices = cap.nspans = 0; cap.finished = 0; cap.message[0] = cap.log[0] = 0;
  std::string errFile = gScratch + "/stderr.txt";
  fflush(stdout); std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    muteOutput(errFile); capturing = true; gReplaying = true;
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    Source src = random ? Source(seed) : Source(choices);
    std::string msg; int st;
    { Case c; st = runCase(s, src, c, msg);
      copyText(cap.message, kText, msg); copyText(cap.log, kText, c.log.str()); }
    uint32_t n = 0; for (auto &sp : src.spans()) if (n < kMaxSpans) cap.spans[n++] = sp;
    cap.nspans = n; cap.finished = st;
    _exit(0);
  }
  double start = now(); int st = 0; bool killed = false, idle = false; useconds_t wait = 200; IdleWatch watch;
  while (true) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now() - start > wallLimit && !killed) { killed = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
    if (!killed && watch.stuck(pid, wallLimit < 100 ? 40 : 100)) { killed = idle = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
    usleep(wait); if (wait < 5000) wait += wait / 4;
  }
  kill(-pid, SIGKILL); r.slow = now() - start > 5;
  r.status = cap.finished; r.message = cap.message; r.log = cap.log;
  r.choices.assign(cap.choices, cap.choices + cap.nchoices); r.spans.assign(cap.spans, cap.spans + cap.nspans);
  if (cap.finished == 0) {
    r.fails = true;
    std::ostringstream m;
    if (idle) m << "stuck: waits without ever going on (deadlock)";
    else if (killed) m << "no progress for " << wallLimit << " s (deadlock)";
    else if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGPROF) m << "hang: more than " << kCaseCpuSeconds << " s of processor time in one case"; else m << "killed by signal " << WTERMSIG(st); }
    else m << "process ended with code " << WEXITSTATUS(st);
    m << "\n" << tailOfFile(errFile, 3000);
    r.message = m.str();
  } else r.fails = cap.finished == kFailed;
  // leftovers of a crashed child
  std::error_code ec;
  for (auto &e : std::filesystem::directory_iterator(gScratch, ec)) {
    std::string n = e.path().filename(); std::string pre = "d" + std::to_string(pid) + "-";
    if (n.compare(0, pre.size(), pre) == 0) removeTree(e.path());
  }
  return r;
}

// ------------------------------------------------------------------------------------------------ shrinking
static bool shortlexLess(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
static RunResult shrink(const Sub &s, RunResult best, double budget, int &attempts) {
  double start = now(); attempts = 0;
  int tries = (s.flags & kConcurrent) ? 4 : 1;
  auto over = [&] { return now() - start > budget || attempts > 6000; };
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (over()) return false;
    for (int t = 0; t < tries; t++) {
      attempts++;
      RunResult r = runForked(s, false, 0, cand, 40);
      if (r.fails && shortlexLess(r.choices, best.choices)) { best = r; return true; }
    }
    return false;
  };
  // drop trailing zeros / unused tail first
  bool improved = true;
  while (improved && !over()) {
    improved = false;
    { // spans, longest first
      auto spans = best.spans;
      std::sort(spans.begin(), spans.end(), [](const Span &a, const Span &b) { return a.end - a.start > b.end - b.start; });
      size_t i = 0;
      while (i < spans.size() && !over()) {
        Span sp = spans[i++];
        if (sp.end > best.choices.size() || sp.start >= sp.end) continue;
        auto cand = best.choices; cand.erase(cand.begin() + sp.start, cand.begin() + sp.end);
        if (attempt(cand)) { improved = true; spans = best.spans; std::sort(spans.begin(), spans.end(), [](const Span &a, const Span &b) { return a.end - a.start > b.end - b.start; }); if (i > 0) i--; }
      }
    }
    for (size_t block : {size_t(32), size_t(8), size_t(4), size_t(2), size_t(1)}) {
      for (size_t p = best.choices.size(); p-- > 0 && !over();) {
        if (p + block > best.choices.size()) continue;
        auto cand = best.choices; cand.erase(cand.begin() + p, cand.begin() + p + block);
        if (attempt(cand)) { improved = true; if (p > best.choices.size()) p = best.choices.size(); }
        else if (block > 1) p = p > block / 2 ? p - block / 2 + 1 : p;
      }
    }
    for (size_t block : {size_t(8), size_t(1)}) {
      for (size_t p = 0; p + block <= best.choices.size() && !over(); p += block) {
        auto cand = best.choices; bool any = false;
        for (size_t k = p; k < p + block; k++) { if (cand[k]) any = true; cand[k] = 0; }
        if (any && attempt(cand)) improved = true;
      }
    }
    for (size_t p = 0; p < best.choices.size() && !over(); p++) {
      uint64_t hi = best.choices[p]; if (hi <= 1) continue;
      uint64_t lo = 0; // lo known (or assumed) not to fail
      while (lo + 1 < hi && p < best.choices.size() && !over()) {
        uint64_t mid = lo + (hi - lo) / 2; auto cand = best.choices; cand[p] = mid;
        if (attempt(cand)) { improved = true; hi = mid; } else lo = mid;
      }
    }
  }
  return best;
}

// ------------------------------------------------------------------------------------------------ sweep
static void workerMain(int w, int nw, int startSub, uint64_t startIdx, const std::vector<Sub> &S, uint64_t seed, bool thorough, double t0, double cap, double scale) {
  Worker &me = sh->w[w];
  muteOutput(getenv("VERIF_WORKER_STDERR") ? gScratch + "/../verif-worker-" + std::to_string(w) : "");
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  for (size_t k = startSub; k < S.size(); k++) {
    const Sub &s = S[k];
    uint64_t total = (uint64_t)((thorough ? s.thorough : s.quick) * scale);
    double deadline = t0 + cap * (double)(k + 1) / (double) S.size();
    uint64_t first = (int) k == startSub ? startIdx : (uint64_t) w;
    me.sub = (int) k;
    for (uint64_t i = first; i < total; i += nw) {
      if (sh->failed[k].load()) break;
      if (i != (uint64_t) w && now() > deadline) { me.labels[k][kMaxLabels - 1].count++; break; }
      me.idx = i; me.ticks++;
      Source src(mix(mix(seed, hash64(s.name)), i));
      Case c; std::string msg;
      c.wantLog = true;
      int st = runCase(s, src, c, msg);
      me.evals[k]++;
      if (st == kDiscarded) me.discards[k]++;
      if (st == kPassed && c.isNontrivial()) {
        me.nontrivial[k]++;
        uint64_t h = hash64(std::string_view((const char *) src.choices().data(), src.choices().size() * 8), hash64(s.name));
        uint64_t n = me.nhashes.load(); if (n < kMaxHashes / 8) { me.hashes[n] = h; me.nhashes = n + 1; }
        if (me.nsamples[k] < kSampleSlots && (i / nw) % 3 == 1) { std::string l = c.log.str(); if (!l.empty()) copyText(me.samples[k][me.nsamples[k]++], 4096, l); }
      }
      for (auto &l : c.labels) {
        for (int j = 0; j < kMaxLabels - 1; j++) {
          if (me.labels[k][j].count == 0) copyText(me.labels[k][j].name, 72, l.first);
          if (strncmp(me.labels[k][j].name, l.first.c_str(), 71) == 0) { me.labels[k][j].count += l.second; break; }
        }
      }
      if (st == kFailed) {
        int zero = 0;
        if (sh->failed[k].compare_exchange_strong(zero, 1)) { sh->failIdx[k] = i; copyText(sh->failMsg[k], 4096, msg); copyText(sh->failLog[k], 16384, c.log.str()); }
        break;
      }
    }
  }
  me.finished = 1;
  _exit(0);
}

static std::string jsonStr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char) ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += (char) ch;
  }
  return r + "\"";
}

static std::string verifDir() { const char *v = getenv("VERIF_DIR"); return v ? v : "/verif"; }

// known-findings.txt: lines "known: property=<id> <finding-id> ..." and "fixed: property=<id> ..."
static std::map<std::string, std::string> knownFindings(const std::string &property) {
  std::map<std::string, std::string> r; std::ifstream in(verifDir() + "/known-findings.txt"); std::string line;
  std::string want = "known: property=" + property + " ";
  while (std::getline(in, line)) if (line.compare(0, want.size(), want) == 0) {
    std::string rest = line.substr(want.size()); size_t sp = rest.find(' ');
    r[rest.substr(0, sp)] = sp == std::string::npos ? "" : rest.substr(sp + 1);
  }
  return r;
}

// a run that dies takes its notes along: once more, with notes going out at once
static void traceKilled(const Sub &s, RunResult &r) {
  if (!r.fails || r.status != 0) return;
  gTrace = true; RunResult t = runForked(s, false, 0, r.choices); gTrace = false;
  if (t.fails) r.log = t.message + "\n";
}

static std::string writeReplay(const Sub &s, const RunResult &r, const std::string &note) {
  std::string dir = verifDir() + "/replays"; std::filesystem::create_directories(dir);
  std::string path = dir + "/" + s.property + "-" + s.name + ".replay";
  std::ofstream o(path);
  o << "property: " << s.property << "\nsub: " << s.name << "\nchoices:";
  for (auto v : r.choices) o << " " << v;
  o << "\n\n# " << note << "\n# what failed:\n";
  auto comment = [&](const std::string &t) { std::istringstream is(t); std::string l; while (std::getline(is, l)) o << "#   " << l << "\n"; };
  comment(r.message); o << "# the case, step by step:\n"; comment(r.log);
  return path;
}

static int replayFile(const std::string &path) {
  std::ifstream in(path); std::string line, property, name; std::vector<uint64_t> ch;
  while (std::getline(in, line)) {
    if (line.rfind("property: ", 0) == 0) property = line.substr(10);
    else if (line.rfind("sub: ", 0) == 0) name = line.substr(5);
    else if (line.rfind("choices:", 0) == 0) { std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) ch.push_back(v); }
  }
  for (auto &s : subs()) if (s.property == property && s.name == name) {
    int tries = (s.flags & kConcurrent) ? 50 : 1;
    for (int t = 0; t < tries; t++) {
      RunResult r = runForked(s, false, 0, ch);
      if (r.fails || t == tries - 1) {
        traceKilled(s, r); std::cout << r.log;
        if (r.fails) { std::cout << "FAILED: " << r.message << "\nVIOLATION property=" << property << " replay=" << path << "\n"; return 1; }
        std::cout << "passed\n"; return 0;
      }
    }
  }
  std::cerr << "no such property in this binary: " << property << "/" << name << "\n"; return 2;
}

static void cleanup() { if (!gScratch.empty()) { std::error_code ec; std::filesystem::remove_all(gScratch, ec); } }
static void onSignal(int) { cleanup(); _exit(130); }

int main(int argc, char **argv) {
  std::string property, replay, onlySub; double scale = 1; double cap = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if (a == "--sub" && i + 1 < argc) onlySub = argv[++i];
    else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
    else if (a == "--cap" && i + 1 < argc) cap = atof(argv[++i]);
    else if (a == "--list") { for (auto &s : subs()) std::cout << s.property << " " << s.name << " " << s.quick << " " << s.thorough << "\n"; return 0; }
    else property = a;
  }
  const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  if (getenv("VERIF_SCRATCH")) base = getenv("VERIF_SCRATCH");
  std::string tmpl = std::string(base) + "/verif-XXXXXX"; gScratch = mkdtemp(tmpl.data());
  pid_t self = getpid(); (void) self;
  signal(SIGINT, onSignal); signal(SIGTERM, onSignal); signal(SIGPIPE, SIG_IGN);
  if (chdir(gScratch.c_str()) != 0) return 2;
  sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) { std::cerr << "mmap failed\n"; return 2; }
  if (!replay.empty()) { int rc = replayFile(replay); cleanup(); return rc; }

  const char *seedEnv = getenv("VERIF_SEED"), *tierEnv = getenv("VERIF_TIER");
  uint64_t seed = seedEnv ? strtoull(seedEnv, nullptr, 10) : 1;
  bool thorough = tierEnv && std::string(tierEnv) == "thorough";
  if (cap < 0) cap = thorough ? 560 : 90;
  std::vector<Sub> S; for (auto &s : subs()) if (s.property == property && (onlySub.empty() || s.name == onlySub)) S.push_back(s);
  if (S.empty()) { std::cerr << "no properties for '" << property << "'\n"; cleanup(); return 2; }
  if (S.size() > kMaxSubs) { std::cerr << "too many subs\n"; return 2; }
  double t0 = now();
  int nw = 8; if (const char *e = getenv("VERIF_JOBS")) nw = std::max(1, std::min(kMaxWorkers, atoi(e)));
  std::map<pid_t, int> alive; std::vector<uint64_t> lastTick(nw, 0); std::vector<double> lastSeen(nw, now()); std::vector<IdleWatch> watch((size_t) nw); std::set<int> stuck;
  auto spawn = [&](int w, int sub, uint64_t idx) {
    fflush(stdout); std::cout.flush();
    pid_t p = fork();
    if (p == 0) { signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); setpgid(0, 0); workerMain(w, nw, sub, idx, S, seed, thorough, t0, cap, scale); }
    setpgid(p, p);
    alive[p] = w; lastSeen[w] = now();
  };
  for (int w = 0; w < nw; w++) spawn(w, 0, w);
  std::map<int, std::string> died; // sub -> how
  while (!alive.empty()) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0 && alive.count(p)) {
      int w = alive[p]; alive.erase(p); kill(-p, SIGKILL);
      if (!sh->w[w].finished.load()) {
        int k = sh->w[w].sub.load(); int zero = 0;
        if (sh->failed[k].compare_exchange_strong(zero, 1)) { sh->failIdx[k] = sh->w[w].idx.load(); copyText(sh->failMsg[k], 4096, stuck.count(w) ? "stuck: waits without ever going on (deadlock)" : WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "process ended with code " + std::to_string(WEXITSTATUS(st))); }
        if (k + 1 < (int) S.size()) spawn(w, k + 1, w);
      }
      continue;
    }
    for (auto &a : alive) {
      uint64_t t = sh->w[a.second].ticks.load();
      if (t != lastTick[a.second]) { lastTick[a.second] = t; lastSeen[a.second] = now(); watch[(size_t) a.second].reset(); }
      else if (watch[(size_t) a.second].stuck(a.first) || now() - lastSeen[a.second] > 150) { stuck.insert(a.second); kill(-a.first, SIGKILL); kill(a.first, SIGKILL); lastSeen[a.second] = now(); }
    }
    usleep(2000);
  }
  double sweepEnd = now();

  // gather
  uint64_t evals = 0, nontrivial = 0, discards = 0, capped = 0; std::unordered_set<uint64_t> distinct; std::vector<std::string> samples; std::map<std::string, std::map<std::string, uint64_t>> labels; std::map<std::string, uint64_t> perSub;
  for (int w = 0; w < nw; w++) {
    Worker &x = sh->w[w];
    for (size_t k = 0; k < S.size(); k++) {
      evals += x.evals[k]; nontrivial += x.nontrivial[k]; discards += x.discards[k]; perSub[S[k].name] += x.evals[k];
      capped += x.labels[k][kMaxLabels - 1].count;
      for (int j = 0; j < kMaxLabels - 1; j++) if (x.labels[k][j].count) labels[S[k].name][x.labels[k][j].name] += x.labels[k][j].count;
    }
    for (uint64_t i = 0; i < x.nhashes.load(); i++) distinct.insert(x.hashes[i]);
  }
  for (size_t k = 0; k < S.size(); k++) { size_t got = 0; for (int w = 0; w < nw && got < 2; w++) for (uint32_t j = 0; j < sh->w[w].nsamples[k] && got < 2; j++) { samples.push_back(S[k].name + ": " + sh->w[w].samples[k][j]); got++; } }

  int violations = 0; std::vector<std::string> findingLines, unreproduced, violationNotes; bool diskNote = false; (void) diskNote;
  // known findings
  auto known = knownFindings(property);
  for (auto &p : probes()) if (p.property == property && onlySub.empty()) {
    // run in a child
    Capture &capt = sh->cap; capt.finished = 0; capt.message[0] = 0;
    pid_t pid = fork();
    if (pid == 0) { muteOutput(gScratch + "/stderr.txt"); armCpuTimer(kCaseCpuSeconds); std::string m; try { m = p.fn(); } catch (const std::exception &e) { m = std::string("exception: ") + e.what(); } copyText(capt.message, kText, m); capt.finished = 1; _exit(0); }
    int st; IdleWatch pw; double ps = now(); while (waitpid(pid, &st, WNOHANG) == 0) { if (pw.stuck(pid) || now() - ps > 150) kill(pid, SIGKILL); usleep(2000); }
    std::string what = capt.finished ? capt.message : "process died: " + tailOfFile(gScratch + "/stderr.txt", 400);
    if (what.empty()) continue;
    if (known.count(p.finding)) { std::string l = "KNOWN-FINDING: property=" + property + " " + p.finding + " " + what; std::replace(l.begin(), l.end(), '\n', ' '); findingLines.push_back(l); }
    else {
      RunResult r; r.message = what; r.log = "probe " + p.finding;
      Sub fake{property, "probe_" + p.finding, 0, 0, 0, nullptr};
      std::string path = writeReplay(fake, r, "fixed reproduction (no choices)");
      std::cout << "VIOLATION property=" << property << " replay=" << path << "\n"; violations++;
    }
  }
  for (size_t k = 0; k < S.size(); k++) if (sh->failed[k].load()) {
    const Sub &s = S[k]; uint64_t idx = sh->failIdx[k];
    uint64_t cs = mix(mix(seed, hash64(s.name)), idx);
    std::cout << "failure in " << s.name << " (case " << idx << "): " << sh->failMsg[k] << std::endl;
    int tries = (s.flags & kConcurrent) ? 60 : 3, fails = 0; RunResult best; bool have = false;
    double rt = now();
    for (int t = 0; t < tries && (t < 3 || now() - rt < 60); t++) { RunResult r = runForked(s, true, cs, {}); if (r.fails) { fails++; best = r; have = true; if (fails >= 3 || r.slow) break; } }
    if (!have) {
      if (s.flags & kConcurrent) {
        // the oracle is sound for every schedule: the recorded history is the evidence
        Source src(cs); best.fails = true; best.message = sh->failMsg[k]; best.log = sh->failLog[k]; best.choices = {};
        RunResult again = runForked(s, true, cs, {}); best.choices = again.choices;
        std::string path = writeReplay(s, best, "schedule-dependent: seen once, history recorded below, not reproduced in " + std::to_string(tries) + " replays");
        std::cout << "VIOLATION property=" << property << " replay=" << path << "\n"; violations++; violationNotes.push_back(s.name + ": " + best.message);
        continue;
      }
      unreproduced.push_back(s.name + " case " + std::to_string(idx) + ": " + sh->failMsg[k]);
      std::cout << "  not reproduced in " << tries << " replays; recorded as unreproduced, not reported" << std::endl;
      continue;
    }
    int attempts = 0; size_t before = best.choices.size();
    RunResult small = shrink(s, best, now() - t0 > 300 ? 0 : thorough ? 90 : 40, attempts);
    // replay the shrunk case three times
    int again = 0; int rtries = (s.flags & kConcurrent) ? 60 : 3;
    for (int t = 0; t < rtries && again < 3; t++) { RunResult r = runForked(s, false, 0, small.choices); if (r.fails) { again++; small.message = r.message; small.log = r.log; if (r.slow) break; } }
    if (!again) small = best; else traceKilled(s, small);
    std::string path = writeReplay(s, small, "shrunk from " + std::to_string(before) + " to " + std::to_string(small.choices.size()) + " choices in " + std::to_string(attempts) + " attempts; replayed " + std::to_string(again) + "/3; seed " + std::to_string(seed) + " case " + std::to_string(idx));
    std::cout << "  " << small.message << "\n" << small.log;
    std::cout << "VIOLATION property=" << property << " replay=" << path << std::endl; violations++; violationNotes.push_back(s.name + ": " + small.message);
  }
  for (auto &l : findingLines) std::cout << l << "\n";

  // evidence
  std::filesystem::create_directories(verifDir() + "/evidence");
  std::ofstream o(verifDir() + "/evidence/" + property + ".json");
  double wall = now() - t0; if (const char *b = getenv("VERIF_BUILD_S")) wall += atof(b);
  const char *lvl = getenv("VERIF_LEVEL");
  o << "{\n \"property\": " << jsonStr(property) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": " << jsonStr(lvl ? lvl : "exploration") << ",\n \"coverage\": {\n";
  o << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jsonStr(rules()[property]) << ",\n";
  o << "  \"discarded\": " << discards << ",\n  \"sweep_seconds\": " << (sweepEnd - t0) << ",\n  \"cut_short_by_wall_cap\": " << (capped ? "true" : "false") << ",\n  \"cases_per_check\": {";
  { bool f = true; for (auto &p : perSub) { o << (f ? "" : ", ") << jsonStr(p.first) << ": " << p.second; f = false; } }
  o << "},\n  \"classification\": {";
  { bool f = true; for (auto &p : labels) { o << (f ? "\n   " : ",\n   ") << jsonStr(p.first) << ": {"; bool g = true; for (auto &q : p.second) { o << (g ? "" : ", ") << jsonStr(q.first) << ": " << q.second; g = false; } o << "}"; f = false; } }
  o << "},\n  \"known_findings_seen\": " << findingLines.size() << ",\n  \"unreproduced\": [";
  for (size_t i = 0; i < unreproduced.size(); i++) o << (i ? ", " : "") << jsonStr(unreproduced[i]);
  o << "],\n  \"violation_messages\": [";
  for (size_t i = 0; i < violationNotes.size(); i++) o << (i ? ", " : "") << jsonStr(violationNotes[i]);
  o << "],\n  \"samples\": [\n";
  for (size_t i = 0; i < samples.size(); i++) o << "   " << jsonStr(samples[i]) << (i + 1 < samples.size() ? ",\n" : "\n");
  o << "  ]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  o.close();
  std::cout << property << ": " << evals << " cases, " << distinct.size() << " distinct non-trivial, " << violations << " violations, " << findingLines.size() << " known findings, " << (now() - t0) << " s" << std::endl;
  cleanup();
  return violations ? 1 : 0;
}
}  // namespace vf

int main(int argc, char **argv) { return vf::main(argc, argv); }
// The storage engine preallocates each of its log files (74 MB); on the memory file system that means zeroing them.
extern "C" int fallocate(int, int, off_t, off_t) { return 0; }
extern "C" int fallocate64(int, int, off64_t, off64_t) { return 0; }
