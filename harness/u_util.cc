// U01, U02, U04..U09: configuration, files, histories, statistics, health, clocks, text and memory utilities.
#include "common.hh"
#include "resp.hh"
#include "Configuration.hh"
#include "Formatter.hh"
#include "RedisRequest.hh"
#include "Timekeeper.hh"
#include "Utils.hh"
#include "config/ConfigurationReader.hh"
#include "health/HealthIndicator.hh"
#include "memory/RingAllocator.hh"
#include "raft/RaftCommon.hh"
#include "redis/Transaction.hh"
#include "storage/ParanoidManifestChecker.hh"
#include "utils/AssistedThread.hh"
#include "utils/ClockWrapper.hh"
#include "utils/CommandParsing.hh"
#include "utils/DirectoryIterator.hh"
#include "utils/FileUtils.hh"
#include "utils/InFlightTracker.hh"
#include "utils/IntToBinaryString.hh"
#include "utils/ParseUtils.hh"
#include "utils/RequestCounter.hh"
#include "utils/Resilvering.hh"
#include "utils/ScopedAdder.hh"
#include "utils/SmartBuffer.hh"
#include "utils/StaticBuffer.hh"
#include "utils/Statistics.hh"
#include "utils/StringUtils.hh"
#include "utils/Synchronized.hh"
#include "utils/TimeFormatting.hh"
#include "utils/Uuid.hh"
#include "utils/VectorUtils.hh"
#include <algorithm>
#include <deque>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <optional>
#include <sched.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
using namespace quarkdb;
using vf::quote;

// ---------------------------------------------------------------- a monotonic clock under the harness' control
static std::atomic<bool> gFakeClock{false};
static std::atomic<int64_t> gClockNs{0};
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) __THROW {
  if (gFakeClock && id == CLOCK_MONOTONIC) { int64_t n = gClockNs; ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
  return (int) syscall(SYS_clock_gettime, id, ts);
}

static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spew(const std::string &p, std::string_view d) { std::ofstream f(p, std::ios::binary); f.write(d.data(), d.size()); }
template <typename F> static bool throws(F f) { try { f(); return false; } catch (const FatalException &) { return true; } }
static bool space(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }

// ---------------------------------------------------------------- reference parsers
static bool refInt(std::string_view s, int64_t &out) {
  size_t i = 0; bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  if (i == s.size()) return false;
  __int128 v = 0;
  for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > ((__int128) 1 << 70)) v = (__int128) 1 << 70; }
  if (neg) v = -v;
  if (v < INT64_MIN || v > INT64_MAX) return false;
  out = (int64_t) v; return true;
}
static std::vector<std::string> refSplit(std::string_view s, std::string_view sep) {
  std::vector<std::string> r; size_t p = 0;
  for (;;) { size_t q = s.find(sep, p); if (q == s.npos) { r.emplace_back(s.substr(p)); return r; } r.emplace_back(s.substr(p, q - p)); p = q + sep.size(); }
}
static bool refServer(std::string_view s, RaftServer &out) {
  auto p = refSplit(s, ":"); int64_t port;
  if (p.size() != 2 || p[0].empty() || p[0].find_first_of(",|") != p[0].npos || !refInt(p[1], port) || port < INT32_MIN || port > INT32_MAX) return false;
  out.hostname = p[0]; out.port = (int) port; return true;
}

// ================================================================ U01
struct RefConfig {
  bool ok = false; std::string why; int mode = 0, trace = 3; bool wal = true, local = false;
  std::string db, cert, key, pwfile, pw; RaftServer me;
};
static RefConfig refConfig(const std::string &text) {
  RefConfig r; static const std::map<std::string, int> traces = {{"off", 0}, {"error", 1}, {"warn", 2}, {"warning", 2}, {"info", 3}, {"debug", 4}, {"all", 4}};
  static const std::map<std::string, int> modes = {{"standalone", 0}, {"raft", 1}, {"bulkload", 2}};
  auto boolean = [](const std::string &v, bool &o) { if (v == "true") o = true; else if (v == "false") o = false; else return false; return true; };
  for (auto &line : refSplit(text, "\n")) {
    std::vector<std::string> w; for (size_t i = 0; i < line.size();) { while (i < line.size() && space(line[i])) i++; size_t b = i; while (i < line.size() && !space(line[i])) i++; if (i > b) w.push_back(line.substr(b, i - b)); }
    if (w.empty() || w[0].rfind("redis.", 0) != 0) continue;
    std::string n = w[0].substr(6);
    if (w.size() < 2) { r.why = "no value for " + n; return r; }
    const std::string &v = w[1]; bool good = true;
    if (n == "mode") { good = modes.count(v); if (good) r.mode = modes.at(v); }
    else if (n == "database") r.db = v;
    else if (n == "myself") good = refServer(v, r.me);
    else if (n == "trace") { good = traces.count(v); if (good) r.trace = traces.at(v); }
    else if (n == "certificate") r.cert = v;
    else if (n == "certificate_key") r.key = v;
    else if (n == "write_ahead_log") good = boolean(v, r.wal);
    else if (n == "password_file") r.pwfile = v;
    else if (n == "password") r.pw = v;
    else if (n == "require_password_for_localhost") good = boolean(v, r.local);
    else { r.why = "unknown option " + n; return r; }
    if (!good) { r.why = "bad value " + v + " for " + n; return r; }
  }
  if (r.db.empty()) r.why = "no database"; else if (r.db.back() == '/') r.why = "trailing slash";
  else if ((r.mode == 1) != !r.me.hostname.empty()) r.why = "myself if and only if raft";
  else if (r.cert.empty() != r.key.empty()) r.why = "certificate without key or the reverse";
  else if (!r.pw.empty() && !r.pwfile.empty()) r.why = "password and password file";
  else if (r.local && r.pw.empty() && r.pwfile.empty()) r.why = "no password to require";
  else r.ok = true;
  return r;
}
static std::string genConfig(vf::Source &src) {
  static const std::vector<std::string> ws = {" ", "\t", "  ", " \t ", "\v", "\r", "\f"};
  auto value = [&](const std::string &n) -> std::string {
    if (src.chance(1, 14)) return src.over("ab/:_0", 6);
    if (n == "mode") return std::vector<std::string>{"standalone", "raft", "bulkload", "Raft", "rocksdb", "raf", "raft2"}[src.weighted({6, 8, 4, 1, 1, 1, 1})];
    if (n == "database") return std::vector<std::string>{"/var/db", "/x y", "db", "/a/b/", "/", "/" + src.over("ab-.\xc3\xa9", 8)}[src.weighted({8, 1, 3, 1, 1, 4})];
    if (n == "myself") return std::vector<std::string>{"server1:2345", "s:1", "host", "host:", ":77", "a:b:3", "h:99999999999", "h:2147483648", "h:+5", "a,b:3", "h:12x"}[src.weighted({10, 6, 1, 1, 1, 1, 1, 1, 1, 1, 1})];
    if (n == "trace") return std::vector<std::string>{"off", "error", "warn", "warning", "info", "debug", "all", "verbose", "inf", "ALL"}[src.weighted({4, 4, 4, 4, 4, 4, 4, 1, 1, 1})];
    if (n == "write_ahead_log" || n == "require_password_for_localhost") return std::vector<std::string>{"true", "false", "yes", "TRUE", "1", "tru"}[src.weighted({8, 8, 1, 1, 1, 1})];
    return std::vector<std::string>{"/etc/x.pem", "secret", "#secret", "\"quoted", "redis.mode"}[src.weighted({4, 4, 1, 1, 1})];
  };
  static const std::vector<std::string> names = {"mode", "database", "myself", "trace", "certificate", "certificate_key", "write_ahead_log", "password_file", "password", "require_password_for_localhost"};
  std::vector<std::string> lines;
  auto option = [&](const std::string &n) {
    std::string l;
    while (src.chance(1, 6)) l += src.pick(ws);
    l += "redis." + n;
    if (!src.chance(1, 40)) { l += src.pick(ws); while (src.chance(1, 5)) l += src.pick(ws); l += value(n); }
    if (src.chance(1, 6)) { l += src.pick(ws); if (src.flip()) l += src.pick(std::vector<std::string>{"extra", "# comment", "redis.database /other", "true"}); }
    if (src.chance(1, 30)) l = src.pick(std::vector<std::string>{"#", "x", "Redis.", "redis"}) + l;
    lines.push_back(l);
  };
  if (!src.chance(1, 12)) option("database");
  if (src.chance(1, 2)) { lines.push_back("redis.mode raft"); if (!src.chance(1, 6)) lines.push_back("redis.myself " + value("myself")); }
  if (src.chance(1, 4)) { option("certificate"); if (!src.chance(1, 5)) option("certificate_key"); }
  if (src.chance(1, 3)) { option(src.flip() ? "password" : "password_file"); if (src.flip()) option("require_password_for_localhost"); }
  while (src.more(2)) switch (src.weighted({6, 2, 2, 1})) {
    case 0: option(src.pick(names)); break;
    case 1: lines.push_back(src.pick(std::vector<std::string>{"", "   ", "\t", "# redis.mode raft", "#", "all.export /", "xrd.port 1234", "redis", "redi", "r"})); break;
    case 2: lines.push_back(src.over("ab#. \t\r", 12)); break;
    default: option(src.pick(std::vector<std::string>{"databas", "databases", "mode_", "certificate_", "certificate_keys", "passwordfile", "password_files", "", "Mode", "trace.level", "myself2"}));
  }
  for (size_t i = lines.size(); i > 1; i--) if (src.chance(1, 2)) std::swap(lines[i - 1], lines[src.draw(i)]);
  std::string text; while (src.chance(1, 8)) text += src.pick(std::vector<std::string>{"\n", " ", "\t\n"});
  for (size_t i = 0; i < lines.size(); i++) { text += lines[i]; if (i + 1 < lines.size() || !src.chance(1, 4)) text += "\n"; while (src.chance(1, 10)) text += "\n"; }
  return text;
}
VF_RULE(U01, "Configuration texts of valid, nearly valid and foreign lines in any order with random white space, compared with an independent line-by-line reader; password files with generated permissions. Non-trivial: the text holds at least three options, or is refused.");
VF_PROP(U01, accepted_exactly_when_valid, 250000, 6000000, vf::kNone) {
  std::string text = genConfig(src); c.note("text " + quote(text, 600));
  RefConfig r = refConfig(text); c.note(r.ok ? "expected: accepted" : "expected: refused, " + r.why);
  size_t n = 0; for (size_t p = 0; (p = text.find("redis.", p)) != text.npos; p++) n++;
  c.nontrivial(n >= 3 || !r.ok); c.label(r.ok ? "accepted" : "refused: " + r.why.substr(0, r.why.find(" for ") != r.why.npos ? 9 : r.why.find("option") != r.why.npos ? 14 : 40));
  Configuration cfg; bool got;
  if (src.chance(1, 50)) {
    std::string f = c.scratch() + "/cfg"; spew(f, text); got = Configuration::fromFile(f, cfg);
    Configuration none; c.require(!Configuration::fromFile(f + "x", none), "a missing configuration file is accepted");
  } else got = Configuration::fromString(text, cfg);
  c.equal(got, r.ok, "accepted");
  if (!r.ok) return;
  c.equal((int) cfg.getMode(), r.mode, "mode"); c.equal((int) cfg.getTraceLevel(), r.trace, "trace level"); c.equal(cfg.getDatabase(), r.db, "database");
  c.equal(cfg.getMyself().hostname, r.me.hostname, "myself"); c.equal(cfg.getMyself().port, r.me.port, "port");
  c.equal(cfg.getCertificatePath(), r.cert, "certificate"); c.equal(cfg.getCertificateKeyPath(), r.key, "certificate_key"); c.equal(cfg.getWriteAheadLog(), r.wal, "write_ahead_log");
  c.equal(cfg.getPasswordFilePath(), r.pwfile, "password_file"); c.equal(cfg.getPassword(), r.pw, "password"); c.equal(cfg.getRequirePasswordForLocalhost(), r.local, "require_password_for_localhost");
  c.require(cfg.isValid(), "an accepted configuration calls itself invalid");
  if (r.pwfile.empty()) c.equal(cfg.extractPasswordOrDie(), r.pw, "extracted password");
}
// the reader on its own: words and lines
VF_PROP(U01, reader_walks_words_and_lines, 150000, 3000000, vf::kNone) {
  std::string text = src.flip() ? src.over("ab \n\t", 24) : src.over("a\n", 10) + src.over("a b\r\n", 16); c.note("text " + quote(text));
  struct W { std::string w; size_t line; }; std::vector<W> words; size_t line = 0;
  for (size_t i = 0; i < text.size();) { while (i < text.size() && space(text[i])) line += text[i++] == '\n'; size_t b = i; while (i < text.size() && !space(text[i])) i++; if (i > b) words.push_back({text.substr(b, i - b), line}); }
  ConfigurationReader rd(text); size_t at = 0;
  // a text that is nothing but white space is skipped only by the first step
  c.nontrivial(words.size() >= 3 && line >= 1);
  auto check = [&](const char *when) { c.require(rd.eof() == (at >= words.size()), std::string("end of file is wrong ") + when); c.equal(rd.getCurrentWord(), at < words.size() ? words[at].w : std::string(), std::string("current word ") + when); };
  check("at the start");
  for (int i = 0; i < 12 && at < words.size(); i++) switch (src.draw(3)) {
    case 0: rd.advanceWord(); at++; check("after advancing a word"); break;
    case 1: { bool same = at + 1 < words.size() && words[at + 1].line == words[at].line; c.equal(rd.advanceWordOnSameLine(), same, "advance on the same line"); if (same) at++; check("after advancing on the line"); break; }
    default: { size_t l = words[at].line; while (at < words.size() && words[at].line == l) at++; rd.advanceLine(); check("after advancing a line"); }
  }
}
VF_PROP(U01, passwords_from_files, 6000, 60000, vf::kNone) {
  std::string dir = c.scratch(), f = dir + "/pw", body = src.chance(1, 3) ? src.bytes(40) : src.over("ab \t\n", 12), tail = src.over(" \t\n\r\f\v", 5);
  static const std::vector<unsigned> modes = {0400, 0400, 0400, 0600, 0440, 0404, 0000, 0200, 0500, 0700, 0401, 0410, 04400};
  unsigned mode = src.chance(1, 4) ? (unsigned) src.draw(01000) : src.pick(modes); bool missing = src.chance(1, 12);
  if (!missing) { spew(f, body + tail); chmod(f.c_str(), mode); }
  c.note("file " + quote(body + tail) + " mode " + std::to_string(mode) + (missing ? " missing" : ""));
  Configuration cfg; c.require(Configuration::fromString("redis.database /x\nredis.password_file " + f + "\n", cfg), "not accepted");
  std::string want = body + tail; while (!want.empty() && space(want.back())) want.pop_back();
  bool ok = !missing && (mode & 0777) == 0400;
  c.nontrivial(!ok || want.size() != body.size() + tail.size()); c.label(ok ? "secure" : "insecure or missing");
  std::string got, direct; bool t = throws([&] { got = cfg.extractPasswordOrDie(); });
  c.equal(t, !ok, "refused to extract the password"); if (ok) c.equal(got, want, "password");
  c.equal(readPasswordFile(f, direct), ok, "password file read"); if (ok) c.equal(direct, want, "password");
}

// ================================================================ U02
VF_RULE(U02, "Random contents around buffer boundaries written and read back, writes to full devices and past a file size limit, random trees, paths and permissions. Non-trivial: the content spans a read buffer, the operation must fail, or the tree has depth.");
static std::string genContent(vf::Source &src) {
  switch (src.draw(4)) {
    case 0: return src.bytes(60);
    case 1: return "";
    case 2: return std::string((size_t) std::max<int64_t>(0, 1024 * src.range(1, 5) + src.range(-1, 1)), (char) ('a' + src.draw(3)));
    default: { std::string s((size_t) src.range(0, 20000), 0); uint64_t x = src.raw64(); for (auto &ch : s) { x = x * 6364136223846793005ull + 1; ch = (char) (x >> 56); } return s; }
  }
}
VF_PROP(U02, write_then_read, 12000, 200000, vf::kNone) {
  std::string dir = c.scratch(), f = dir + "/" + (src.chance(1, 4) ? "a b'c" : "f"), a = genContent(src), b = genContent(src), err, got;
  c.note("sizes " + std::to_string(a.size()) + " then " + std::to_string(b.size()));
  c.nontrivial(a.size() >= 1024 || b.size() >= 1024);
  c.require(write_file(f, a, err), "writing failed: " + err); c.require(slurp(f) == a, "the file does not hold what was written");
  c.require(readFile(f, got) && got == a, "reading back differs: " + std::to_string(got.size()) + " bytes of " + std::to_string(a.size()));
  if (src.flip()) write_file_or_die(f, b); else c.require(write_file(f, b, err), "overwriting failed");
  c.require(slurp(f) == b, "the overwritten file does not hold what was written"); got = "left-over"; c.require(readFile(f, got) && got == b, "reading back differs");
  FILE *in = fopen(f.c_str(), "rb"); got = "left-over"; bool ok = readFile(in, got); fclose(in); c.require(ok && got == b, "reading from a stream differs");
  c.require(fileExists(f, err) && !fileExists(dir, err) && !fileExists(f + "x", err), "fileExists is wrong");
  c.require(directoryExists(dir, err) && !directoryExists(f, err) && !directoryExists(f + "x", err), "directoryExists is wrong");
}
VF_PROP(U02, failures_are_reported, 6000, 60000, vf::kNone) {
  std::string dir = c.scratch(), data = genContent(src), err; c.nontrivial(); c.note(std::to_string(data.size()) + " bytes");
  switch (src.draw(6)) {
    case 0: c.label("full device"); c.equal(write_file("/dev/full", data, err), data.empty(), "write to a full device reported as success"); if (!data.empty()) c.require(throws([&] { write_file_or_die("/dev/full", data); }), "write_file_or_die survived a full device"); break;
    case 1: { // file size limit
      c.label("size limit"); rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = src.draw(24000); auto h = signal(SIGXFSZ, SIG_IGN);
      c.note("limit " + std::to_string(lim.rlim_cur)); setrlimit(RLIMIT_FSIZE, &lim); bool ok = write_file(dir + "/f", data, err); setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, h);
      c.equal(ok, data.size() <= lim.rlim_cur, "success reported by a write cut short"); if (ok) c.require(slurp(dir + "/f") == data, "reported as written, but is not"); break;
    }
    case 2: c.label("missing directory"); c.require(!write_file(dir + "/none/f", data, err) && !err.empty(), "write into a missing directory succeeded"); c.require(throws([&] { write_file_or_die(dir + "/none/f", data); }), "write_file_or_die survived"); break;
    case 3: c.label("directory as file"); c.require(!write_file(dir, data, err), "wrote to a directory"); { std::string got; c.require(!readFile(dir, got), "read a directory as a file"); } break;
    case 4: c.label("missing file"); { std::string got; c.require(!readFile(dir + "/none", got) && !readPasswordFile(dir + "/none", got), "read a missing file"); } break;
    default: {
      c.label("rename"); mkdir((dir + "/a").c_str(), 0755); spew(dir + "/a/x", data); bool busy = src.flip(), file = src.chance(1, 4); if (busy) { mkdir((dir + "/b").c_str(), 0755); spew(dir + "/b/y", "y"); }
      if (file) { c.require(throws([&] { rename_directory_or_die(dir + "/a/x", dir + "/c"); }), "renamed a file as a directory"); break; }
      c.require(throws([&] { rename_directory_or_die(dir + "/none", dir + "/c"); }), "renamed a missing directory");
      bool t = throws([&] { rename_directory_or_die(dir + "/a", dir + "/b"); }); c.equal(t, busy, "renaming onto a non-empty directory refused");
      c.require(slurp(dir + (busy ? "/a/x" : "/b/x")) == data, "the renamed directory lost its contents"); c.require(busy ? slurp(dir + "/b/y") == "y" : access((dir + "/a").c_str(), F_OK) != 0, "rename left the wrong things behind");
      c.require(ensureSameFilesystem(dir, dir + "/b").ok() && !ensureSameFilesystem(dir, dir + "/nope").ok() && !ensureSameFilesystem(dir + "/nope", dir).ok(), "ensureSameFilesystem is wrong");
      c.require(!ensureSameFilesystem(dir, "/proc").ok() && !ensureSameFilesystem("/proc", dir).ok(), "two file systems taken for one");
    }
  }
}
VF_PROP(U02, mkpath_creates_the_path, 20000, 300000, vf::kNone) {
  std::string base = c.scratch(); bool relative = src.flip();
  std::string here; { char b[4096]; here = getcwd(b, sizeof b); }
  auto dirAt = [](const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); };
  auto there = [](const std::string &p) { struct stat s; return lstat(p.c_str(), &s) == 0; };
  // what is there already
  static const std::vector<std::string> names = {"a", "b", "c", ".d", "e f"};
  std::vector<std::string> pre; size_t np = src.draw(3); std::string at = base;
  std::vector<std::string> comps; size_t n = (size_t) src.range(1, 5); for (size_t i = 0; i < n; i++) comps.push_back(src.chance(1, 20) ? std::string(300, 'x') : src.pick(names));
  std::string file;
  for (size_t i = 0; i < np && i < comps.size(); i++) { at += "/" + comps[i]; if (i + 1 == np && src.chance(1, 3)) { spew(at, "data"); if (there(at)) file = at; } else if (mkdir(at.c_str(), 0755) != 0) break; }
  std::string path = relative ? "" : base + "/";
  for (size_t i = 0; i < comps.size(); i++) { path += comps[i]; if (i + 1 < comps.size()) path += src.chance(1, 8) ? "//" : "/"; }
  if (src.chance(1, 2)) path += "/";
  mode_t mode = src.pick(std::vector<mode_t>{0755, 0700, 0750, 0777});
  c.note("mkpath " + quote(path) + " with " + std::to_string(np) + " components there" + (file.empty() ? "" : ", file " + quote(file)));
  bool want = true; std::vector<std::string> must; std::vector<bool> was;
  { std::string p = base; size_t cnt = path.back() == '/' ? comps.size() : comps.size() - 1; for (size_t i = 0; i < cnt; i++) { p += "/" + comps[i]; must.push_back(p); was.push_back(there(p)); if (comps[i].size() > 255 || (there(p) && !dirAt(p))) { want = false; } } }
  c.nontrivial(comps.size() >= 3 || !want); c.label(want ? "creatable" : "blocked");
  if (relative && chdir(base.c_str()) != 0) c.discard();
  std::string err; bool ok = mkpath(path, mode, err); bool t = ok && throws([&] { mkpath_or_die(path, mode); });
  if (relative) (void) !chdir(here.c_str());
  c.equal(ok, want, "mkpath reported success (" + err + ")"); if (!ok) c.require(!err.empty(), "no error message");
  c.require(!t, "creating the same path again failed");
  if (ok) for (size_t i = 0; i < must.size(); i++) { c.require(dirAt(must[i]), "component missing: " + must[i]); struct stat s; stat(must[i].c_str(), &s); mode_t u = umask(0); umask(u); if (!was[i]) c.equal((unsigned) (s.st_mode & 0777), (unsigned) (mode & ~u), "permissions of a created directory"); }
  if (ok && path.back() != '/' && np < comps.size() && (must.empty() || dirAt(must.back()))) c.require(!there((must.empty() ? base : must.back()) + "/" + comps.back()), "created what comes after the last slash");
  if (!file.empty()) c.equal(slurp(file), std::string("data"), "an existing file");
}
VF_PROP(U02, directories_are_listed_completely, 8000, 80000, vf::kNone) {
  std::string dir = c.scratch(); size_t files = 0, depth = 0;
  std::function<void(const std::string &, size_t)> fill = [&](const std::string &d, size_t lvl) {
    depth = std::max(depth, lvl); size_t n = src.draw(lvl == 0 && src.chance(1, 20) ? 400 : 6);
    std::set<std::string> names{".", ".."};
    for (size_t i = 0; i < n; i++) {
      std::string nm = src.pick(std::vector<std::string>{"f", ".hidden", "..x", "...", "a b", "\xff\x01"}) + std::to_string(i); names.insert(nm); std::string p = d + "/" + nm;
      switch (src.weighted({6, 3, 1, 1})) { case 0: spew(p, "x"); files++; break; case 1: if (lvl < 3) { mkdir(p.c_str(), 0755); fill(p, lvl + 1); } else mkdir(p.c_str(), 0755); break; case 2: (void) !symlink("..", p.c_str()); files++; break; default: mkfifo(p.c_str(), 0600); files++; }
    }
    DirectoryIterator it(d); std::multiset<std::string> got; c.require(it.ok(), "error before the start"); while (struct dirent *e = it.next()) { c.require(!it.eof(), "end of directory reported before the end"); got.insert(e->d_name); }
    c.require(it.ok() && it.err().empty(), "listing ended in an error: " + it.err()); c.require(it.eof() && !it.next(), "end of directory not reported");
    c.equal(std::vector<std::string>(got.begin(), got.end()), std::vector<std::string>(names.begin(), names.end()), "names in " + d);
  };
  fill(dir, 0); c.nontrivial(depth >= 1); c.note(std::to_string(files) + " files, depth " + std::to_string(depth));
  std::string err; size_t n = 999999; c.require(countFilesInDirectoryRecursively(dir, err, n), "counting failed: " + err); c.equal(n, files, "number of files below");
  DirectoryIterator bad(src.flip() ? dir + "/missing" : std::string("/dev/null")); c.require(!bad.ok() && !bad.err().empty() && !bad.next(), "a bad directory can be iterated"); c.require(!countFilesInDirectoryRecursively(dir + "/missing", err, n), "counted a missing directory");
}
VF_PROP(U02, paths_and_permissions, 60000, 600000, vf::kNone) {
  std::string a = src.over("a/b", 6), b = src.over("a/b", 6); std::string got = pathJoin(Exact(a), Exact(b)); c.note("join " + quote(a) + " " + quote(b));
  c.equal(got, a.empty() ? "/" + b : b.empty() ? a : a.back() == '/' ? a + b : a + "/" + b, "joined path"); c.nontrivial(!a.empty() && !b.empty());
  mode_t m = (mode_t) src.draw(010000) | (src.flip() ? S_IFREG : 0); c.equal(areFilePermissionsSecure(m), (m & 0777) == 0400, "mode " + std::to_string(m) + " secure");
}

// ================================================================ U04
VF_RULE(U04, "Random histories of events whose identities may contain the separator, serialized and read back; single-byte corruptions and truncations. Non-trivial: two or more events, or a corrupted text.");
static std::string genEventID(vf::Source &src) { std::string s; switch (src.draw(4)) { case 0: s = src.over("a- ", 10); break; case 1: s = src.bytes(24); break; case 2: s = generateUuid(); break; default: s = std::string(src.draw(4), ' ') + "id - " + src.over("0123456789- ", 12); } for (auto &ch : s) if (ch == '\n') ch = '_'; return s; }
static int64_t genTime(vf::Source &src) { switch (src.draw(3)) { case 0: return src.range(0, 2000000000); case 1: return src.range(-3, 3); default: return (int64_t) src.raw64(); } }
VF_PROP(U04, history_reads_back, 60000, 1000000, vf::kNone) {
  ResilveringHistory h; std::vector<std::pair<std::string, int64_t>> model;
  while (src.more(5) && model.size() < 40) { model.emplace_back(genEventID(src), genTime(src)); ResilveringEvent e(model.back().first, model.back().second); h.append(e); ResilveringEvent back; c.require(ResilveringEvent::deserialize(e.serialize(), back) && back == e, "an event does not read back: " + quote(e.serialize())); }
  c.note(std::to_string(model.size()) + " events"); c.nontrivial(model.size() >= 2);
  ResilveringHistory back; for (size_t i = src.draw(3); i; i--) back.append(ResilveringEvent("stale", 1));
  std::string text = h.serialize(); c.require(ResilveringHistory::deserialize(text, back), "own serialization refused: " + quote(text));
  c.equal(back.size(), model.size(), "number of events"); c.equal(h.size(), model.size(), "number of events");
  for (size_t i = 0; i < model.size(); i++) { c.equal(back.at(i).getID(), model[i].first, "event ID"); c.equal((int64_t) back.at(i).getStartTime(), model[i].second, "event time"); c.require(h.at(i) == back.at(i), "event order"); }
  c.require(h == back && back == h, "the histories differ"); c.equal(back.serialize(), text, "serialized again");
  ResilveringHistory other; c.require(ResilveringHistory::deserialize(text, other), "refused"); other.append(ResilveringEvent("x", 1)); c.require(!(other == back), "histories of different length are equal");
  if (!model.empty()) { ResilveringHistory ch; size_t k = src.draw(model.size()); for (size_t i = 0; i < model.size(); i++) ch.append(i == k ? (src.flip() ? ResilveringEvent(model[i].first + "x", model[i].second) : ResilveringEvent(model[i].first, model[i].second ^ 1)) : ResilveringEvent(model[i].first, model[i].second)); c.require(!(ch == back), "a history with another event is equal"); }
  back.clear(); c.require(back.size() == 0 && back.serialize().empty(), "clearing left events");
}
VF_PROP(U04, malformed_is_refused, 60000, 1000000, vf::kNone) {
  std::string text; std::vector<std::pair<std::string, int64_t>> model;
  if (src.chance(2, 3)) { size_t n = (size_t) src.range(1, 4); ResilveringHistory h; for (size_t i = 0; i < n; i++) h.append(ResilveringEvent(genEventID(src), genTime(src))); text = h.serialize(); }
  switch (src.draw(4)) { case 0: if (!text.empty()) text.resize(src.draw(text.size())); break; case 1: text += src.over("a -1\n", 8); break; case 2: if (!text.empty()) text[src.draw(text.size())] = "\n -x\0"[src.draw(5)]; break; default: if (!text.empty()) text.erase(src.draw(text.size()), 1); }
  c.note("text " + quote(text)); c.nontrivial();
  bool want = text.empty() || text.back() == '\n'; auto lines = refSplit(text, "\n");
  for (size_t i = 0; want && i + 1 < lines.size(); i++) { size_t p = lines[i].rfind(" - "); int64_t t; if (p == std::string::npos || !refInt(std::string_view(lines[i]).substr(p + 3), t)) want = false; else model.emplace_back(lines[i].substr(0, p), t); }
  ResilveringHistory h; c.equal(ResilveringHistory::deserialize(text, h), want, "history accepted"); c.label(want ? "still well-formed" : "malformed");
  if (want) { c.equal(h.size(), model.size(), "number of events"); for (size_t i = 0; i < model.size(); i++) c.require(h.at(i).getID() == model[i].first && (int64_t) h.at(i).getStartTime() == model[i].second, "event differs"); }
}

// ================================================================ U05
VF_RULE(U05, "Random commands and blocks counted by one to four threads on random processor sets, with readers in between; random pushes into a bounded history. Non-trivial: more than one thread, a processor subset, or the history overflows.");
struct CmdClass { const char *name; int kind; };   // 0 read 1 write 2 other
static const CmdClass kCmds[] = {{"GET", 0}, {"set", 1}, {"PING", 2}, {"HGET", 0}, {"hset", 1}, {"NONSENSE", 2}, {"scan", 0}, {"DEL", 1}, {"raft-info", 2}, {"deque-len", 0}, {"lease-acquire", 1}, {"exists", 0}, {"vhset", 1}, {"auth", 2}, {"publish", 2}, {"smembers", 0}, {"flushall", 1}};
struct Tally { int64_t r = 0, w = 0, tr = 0, tw = 0; Tally &operator+=(const Tally &o) { r += o.r; w += o.w; tr += o.tr; tw += o.tw; return *this; } };
static std::string tallyStr(int64_t r, int64_t w, int64_t tr, int64_t tw) { return "reads " + std::to_string(r) + " writes " + std::to_string(w) + " txread " + std::to_string(tr) + " txreadwrite " + std::to_string(tw); }
static cpu_set_t gAllCpus; static std::vector<int> cpus() { static bool once = [] { CPU_ZERO(&gAllCpus); sched_getaffinity(0, sizeof gAllCpus, &gAllCpus); return true; }(); (void) once; std::vector<int> v; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &gAllCpus)) v.push_back(i); return v; }
struct Pin { bool on = false; Pin() { cpus(); } void set(vf::Source &src) { auto v = cpus(); cpu_set_t s; CPU_ZERO(&s); size_t k = 1 + src.draw(3); for (size_t i = 0; i < k; i++) CPU_SET(v[v.size() - 1 - src.draw(v.size())], &s); sched_setaffinity(0, sizeof s, &s); on = true; } ~Pin() { if (on) sched_setaffinity(0, sizeof gAllCpus, &gAllCpus); } };
static std::vector<int64_t> nums(vf::Case &c, const std::vector<std::string> &v) {
  static const char *names[] = {"READS ", "WRITES ", "TXREAD ", "TXREADWRITE "}; c.equal(v.size(), (size_t) 4, "number of counters"); std::vector<int64_t> r;
  for (int i = 0; i < 4; i++) { c.require(startsWith(v[i], names[i]), "counter " + quote(v[i]) + " is not " + names[i]); int64_t x; c.require(refInt(v[i].substr(strlen(names[i])), x), "not a number: " + v[i]); r.push_back(x); }
  return r;
}
VF_PROP(U05, every_command_counted_once, 1500, 20000, vf::kConcurrent) {
  Pin pin; if (src.chance(2, 3)) pin.set(src);
  size_t nt = (size_t) src.range(1, 4); struct Op { std::vector<int> cmds; bool tx; };
  std::vector<std::vector<Op>> work(nt); Tally total;
  for (auto &w : work) { size_t n = src.draw(40); for (size_t i = 0; i < n; i++) { Op o; o.tx = src.chance(1, 3); size_t k = o.tx ? (size_t) src.range(0, 4) : 1; for (size_t j = 0; j < k; j++) { int q = (int) src.draw(std::size(kCmds)); if (o.tx && kCmds[q].kind == 2) q = 0; o.cmds.push_back(q); }   /* blocks hold reads and writes only */ w.push_back(o); bool hasW = false; for (int q : o.cmds) { if (kCmds[q].kind == 0) total.r++; if (kCmds[q].kind == 1) { total.w++; hasW = true; } } if (o.tx) (hasW ? total.tw : total.tr)++; } }
  c.note(std::to_string(nt) + " threads, pinned " + (pin.on ? "yes" : "no") + "; " + tallyStr(total.r, total.w, total.tr, total.tw)); c.nontrivial(nt > 1 || pin.on); c.label(pin.on ? "processor subset" : "all processors");
  RequestCounter rc(std::chrono::seconds(3600)); rc.setReportingStatus(src.flip());
  bool spread = pin.on && src.flip();   // threads may run on processors outside the set the counter was sized for
  std::vector<std::thread> th; std::atomic<bool> done{false}, bad{false};
  for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] { if (spread) sched_setaffinity(0, sizeof gAllCpus, &gAllCpus); for (auto &o : work[t]) { if (!o.tx) { RedisRequest r{kCmds[o.cmds[0]].name, "a", "b"}; rc.account(r); } else { Transaction x; for (int q : o.cmds) x.emplace_back(kCmds[q].name, "a"); rc.account(x); } } });
  std::thread reader([&] { int64_t last = 0; while (!done) { Statistics s = rc.getOverallStats(); int64_t n = s.reads + s.writes; if (n < last) bad = true; last = n; } });
  for (auto &t : th) t.join(); done = true; reader.join();
  c.require(!bad, "the counters went backwards");
  Statistics s = rc.getOverallStats(); c.equal(tallyStr(s.reads, s.writes, s.txread, s.txreadwrite), tallyStr(total.r, total.w, total.tr, total.tw), "counted");
  std::vector<std::string> hd{"junk"}; std::vector<std::vector<std::string>> data{{"junk"}}; rc.fillHistorical(hd, data);
  c.require(!hd.empty() && hd[0] == "TOTALS" && hd.size() == data.size(), "history headers do not match"); auto v = nums(c, data[0]); c.equal(tallyStr(v[0], v[1], v[2], v[3]), tallyStr(total.r, total.w, total.tr, total.tw), "reported totals");
}
VF_PROP(U05, differences_add_up, 2500, 30000, vf::kConcurrent) {
  Pin pin; if (src.flip()) pin.set(src);
  size_t nt = (size_t) src.range(1, 3), per = src.draw(300); c.note(std::to_string(nt) + " threads x " + std::to_string(per)); c.nontrivial(nt > 1 && per > 0);
  StatAggregator agg; std::vector<std::thread> th; std::atomic<size_t> running{nt};
  for (size_t t = 0; t < nt; t++) th.emplace_back([&] { for (size_t i = 0; i < per; i++) { Statistics *s = agg.getStats(); s->reads++; if (i % 2) s->writes += 2; if (i % 3 == 0) s->txread++; s->txreadwrite += 3; } running--; });
  Statistics sum; auto take = [&] { Statistics d = agg.getOverallStatsSinceLastTime(); c.require(d.reads >= 0 && d.writes >= 0 && d.txread >= 0 && d.txreadwrite >= 0, "a difference is negative"); sum += d; };
  while (running) take(); for (auto &t : th) t.join(); take();
  int64_t n = nt, p = per; c.equal(tallyStr(sum.reads, sum.writes, sum.txread, sum.txreadwrite), tallyStr(n * p, n * (p / 2) * 2, n * ((p + 2) / 3), n * p * 3), "sum of the differences");
  Statistics all = agg.getOverallStats(); c.equal(tallyStr(all.reads, all.writes, all.txread, all.txreadwrite), tallyStr(sum.reads, sum.writes, sum.txread, sum.txreadwrite), "overall");
  take(); c.equal((int64_t) sum.reads, n * p, "an idle period counted something");
}
VF_PROP(U05, history_keeps_the_latest, 25000, 400000, vf::kNone) {
  size_t limit = (size_t) src.range(0, 12), n = src.draw(30); HistoricalStatistics h(limit); std::deque<std::pair<int64_t, Tally>> model; c.note("limit " + std::to_string(limit) + ", " + std::to_string(n) + " samples"); c.nontrivial(n > limit);
  auto check = [&] {
    std::vector<std::string> hd; std::vector<std::vector<std::string>> data; h.serialize(hd, data); c.equal(hd.size(), model.size(), "number of samples kept"); c.equal(data.size(), model.size(), "number of samples kept");
    for (size_t i = 0; i < model.size(); i++) { c.equal(hd[i], "TIMESTAMP " + std::to_string(model[i].first), "header " + std::to_string(i)); auto v = nums(c, data[i]); c.equal(tallyStr(v[0], v[1], v[2], v[3]), tallyStr(model[i].second.r, model[i].second.w, model[i].second.tr, model[i].second.tw), "sample " + std::to_string(i)); }
    Value v = readOne(c, Formatter::vectorsWithHeaders(hd, data).val, "history reply"); c.equal(v.v.size(), hd.size(), "sections of the reply");
  };
  for (size_t i = 0; i < n; i++) { Statistics s; Tally t{(int64_t) src.draw(100000), (int64_t) src.draw(50), (int64_t) src.draw(9), (int64_t) src.raw64() >> 2}; s.reads = t.r; s.writes = t.w; s.txread = t.tr; s.txreadwrite = t.tw; int64_t sec = src.range(0, 2000000000); h.push(s, std::chrono::system_clock::time_point(std::chrono::seconds(sec) + std::chrono::milliseconds(src.draw(1000)))); model.emplace_front(sec, t); if (model.size() > limit) model.pop_back(); if (src.chance(1, 5)) check(); }
  check();
}

// ================================================================ U06
VF_RULE(U06, "Random indicator lists, statuses and versions; timestamps of manifest and table files around the one-hour boundary, both given and on disk. Non-trivial: two or more indicators of different status, or a boundary case.");
static const char *kHealth[] = {"GREEN", "YELLOW", "RED"};
static std::string genText(vf::Source &src) { std::string s = src.chance(1, 4) ? src.bytes(30) : src.over("abcDEF |>-:/ ", 24); for (auto &ch : s) if (ch == '\r' || ch == '\n') ch = ' '; return s; }
VF_PROP(U06, worst_indicator_and_report, 80000, 1500000, vf::kNone) {
  std::vector<HealthIndicator> ind; std::vector<int> st; int worst = 0; std::set<int> kinds;
  while (src.more(3) && ind.size() < 12) { int s = (int) src.draw(3); st.push_back(s); kinds.insert(s); worst = std::max(worst, s); ind.emplace_back((HealthStatus) s, genText(src), genText(src)); }
  c.nontrivial(kinds.size() >= 2); c.note(std::to_string(ind.size()) + " indicators, worst " + kHealth[worst]);
  c.equal((int) chooseWorstHealth(ind), worst, "worst health"); int a = (int) src.draw(3), b = (int) src.draw(3); c.equal((int) chooseWorstHealth((HealthStatus) a, (HealthStatus) b), std::max(a, b), "worst of two");
  c.equal(healthStatusAsString((HealthStatus) a), std::string(kHealth[a]), "status text");
  std::string ver = genText(src), node = src.flip() ? genText(src) : ""; NodeHealth nh = node.empty() ? NodeHealth(ver, ind) : NodeHealth(ver, node, ind);
  c.equal(nh.getIndicatorsSize(), ind.size(), "number of indicators"); c.equal(nh.getNode(), node, "node"); c.equal(nh.getVersion(), ver, "version");
  std::vector<std::string> want{std::string("NODE-HEALTH ") + kHealth[worst]}; if (!node.empty()) want.push_back("NODE " + node); want.push_back("VERSION " + ver); want.push_back("----------");
  for (size_t i = 0; i < ind.size(); i++) { std::string s = kHealth[st[i]]; s.resize(7, ' '); std::string line = s + ">> " + ind[i].getDescription() + " " + ind[i].getMessage(); c.equal(ind[i].toString(), line, "indicator as text"); c.require((int) nh.getIndicators()[i].getStatus() == st[i], "indicator status"); want.push_back(line); }
  Value v = readOne(c, Formatter::nodeHealth(nh).val, "node health"); c.require(v.t == '*', "not an array"); std::vector<std::string> got; for (auto &x : v.v) got.push_back(x.s); c.equal(got, want, "health report");
}
VF_PROP(U06, manifest_age, 30000, 400000, vf::kNone) {
  auto sec = [&](int64_t base) -> int64_t { switch (src.draw(4)) { case 0: return 0; case 1: return base + src.range(3598, 3602); case 2: return base + src.range(-5, 5); default: return src.range(1, 4000000000ll); } };
  timespec m{}, s{}; m.tv_sec = src.chance(1, 6) ? 0 : src.range(1, 3000000000ll); m.tv_nsec = src.draw(1000000000); s.tv_sec = sec(m.tv_sec); s.tv_nsec = src.draw(1000000000);
  bool bad = m.tv_sec != 0 && s.tv_sec != 0 && s.tv_sec - m.tv_sec >= 3600; c.note("manifest " + std::to_string(m.tv_sec) + " table " + std::to_string(s.tv_sec)); c.nontrivial(m.tv_sec && s.tv_sec && std::llabs((s.tv_sec - m.tv_sec) - 3600) <= 2); c.label(bad ? "suspicious" : "fine");
  if (s.tv_sec < 0) c.discard();
  if (std::llabs(s.tv_sec - m.tv_sec) <= INT32_MAX) c.equal(ParanoidManifestChecker::compareMTimes(m, s).ok(), !bad, "manifest in order");
}
VF_PROP(U06, manifest_age_on_disk, 3000, 30000, vf::kNone) {
  std::string dir = c.scratch(); int64_t newestM = -1, newestS = -1, base = 1600000000; size_t n = src.draw(8); std::string desc;
  for (size_t i = 0; i < n; i++) {
    static const std::vector<std::string> names = {"MANIFEST-0000", "0001.sst", "CURRENT", "OLD-MANIFEST", "x.sst.tmp", "LOG", "sst"}; std::string nm = src.pick(names); size_t k = src.draw(10); bool man = nm[0] == 'M', sst = nm == "0001.sst";
    nm = man ? nm + std::to_string(k) : std::to_string(k) + nm; std::string p = dir + "/" + nm; if (access(p.c_str(), F_OK) == 0) continue; spew(p, "x");
    int64_t at = base + src.pick(std::vector<int64_t>{0, 1, 3599, 3600, 3601, 7200, 10}); timespec ts[2] = {{at, 0}, {at, 0}}; utimensat(AT_FDCWD, p.c_str(), ts, 0); desc += nm + "@" + std::to_string(at - base) + " ";
    if (man) newestM = std::max(newestM, at); if (sst) newestS = std::max(newestS, at);
  }
  bool bad = newestM >= 0 && newestS >= 0 && newestS - newestM >= 3600; c.note(desc); c.nontrivial(newestM >= 0 && newestS >= 0); c.label(bad ? "suspicious" : "fine");
  Status st = ParanoidManifestChecker::checkDB(dir); c.equal(st.ok(), !bad, "directory in order (" + st.getMsg() + ")");
}

// ================================================================ U07
VF_RULE(U07, "Random sequences of clock advances, synchronizations, refused backward synchronizations and resets under an injected monotonic clock; concurrent readers and synchronizers on the real one. Non-trivial: at least two synchronizations with time passing in between.");
VF_PROP(U07, follows_time_and_synchronizations, 60000, 1000000, vf::kNone) {
  gClockNs = src.range(0, 1000000000000ll); gFakeClock = true; struct Off { ~Off() { gFakeClock = false; } } off;
  uint64_t stat = src.raw64() >> src.range(2, 64 - 1); int64_t anchor = gClockNs; Timekeeper tk(stat); size_t syncs = 0; bool moved = false;
  c.note("start at " + std::to_string(stat));
  uint64_t last = 0; auto check = [&](const char *when) { uint64_t got = tk.getDynamicTime(), want = stat + (uint64_t) ((gClockNs - anchor) / 1000000); c.equal(got, want, std::string("clock ") + when); last = got; };
  check("at the start");
  for (size_t i = 0, n = (size_t) src.range(1, 20); i < n; i++) switch (src.weighted({5, 4, 2, 1})) {
    case 0: { int64_t d = src.chance(1, 4) ? src.range(0, 999999) : src.chance(1, 6) ? src.range(0, 4000000000000000ll) : src.range(0, 5000000000ll); gClockNs += d; moved = true; c.note("advance " + std::to_string(d) + " ns"); uint64_t before = last; check("after time passed"); c.require(last >= before, "the clock ran backwards without a synchronization"); break; }
    case 1: { uint64_t v = stat + (src.chance(1, 4) ? 0 : src.draw(10000000)); c.note("synchronize " + std::to_string(v)); tk.synchronize(v); stat = v; anchor = gClockNs; syncs += moved; moved = false; check("after a synchronization"); break; }
    case 2: { if (stat == 0) break; uint64_t v = src.draw(stat); c.note("synchronize backwards " + std::to_string(v)); c.require(throws([&] { tk.synchronize(v); }), "the static clock was set back"); check("after a refused synchronization"); break; }
    default: { stat = src.raw64() >> src.range(2, 63); c.note("reset " + std::to_string(stat)); tk.reset(stat); anchor = gClockNs; check("after a reset"); }
  }
  c.nontrivial(syncs >= 2);
}
VF_PROP(U07, concurrent_observers, 200, 2500, vf::kConcurrent) {
  uint64_t start = src.draw(1000000); size_t n = (size_t) src.range(1, 200), nt = (size_t) src.range(1, 3); bool ahead = src.flip(); c.note("start " + std::to_string(start) + ", " + std::to_string(n) + " synchronizations, " + std::to_string(nt) + " readers"); c.nontrivial(n >= 2);
  auto t0 = std::chrono::steady_clock::now(); Timekeeper tk(start); std::atomic<uint64_t> floor{start}, ceil{start}; std::atomic<bool> done{false}; std::atomic<int> bad{0}; std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++) th.emplace_back([&] { uint64_t last = 0; while (!done) { uint64_t lo = floor, v = tk.getDynamicTime(), hi = ceil + (uint64_t) std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); if (v < lo) bad |= 1; if (v > hi) bad |= 2; if (ahead && v < last) bad |= 4; last = v; } });
  uint64_t v = start; for (size_t i = 0; i < n; i++) { v = ahead ? tk.getDynamicTime() + 100000 + i % 7 : v + i % 3; ceil = std::max<uint64_t>(ceil, v); tk.synchronize(v); floor = v; if (i % 16 == 0) sched_yield(); }
  done = true; for (auto &t : th) t.join();
  c.require(!(bad & 1), "read less than the last synchronized value"); c.require(!(bad & 2), "read more than synchronizations and real time allow"); c.require(!(bad & 4), "the clock ran backwards although every synchronization was ahead of it");
}
VF_PROP(U07, fake_clocks, 60000, 600000, vf::kNone) {
  SteadyClock st(true), real(false); SystemClock sy(true); int64_t a = 0, b = 0; c.require(st.fake() && sy.fake() && !real.fake(), "fake()");
  for (size_t i = 0, n = src.draw(12); i < n; i++) { int64_t d = src.range(0, 1000000); switch (src.draw(4)) { case 0: st.advance(std::chrono::milliseconds(d)); a += d; break; case 1: sy.advance(std::chrono::milliseconds(d)); b += d; break; case 2: sy.set(SystemClock::time_point(std::chrono::milliseconds(d))); b = d; break; default: st.set(SteadyClock::time_point(std::chrono::milliseconds(d))); } c.nontrivial(); 
    c.require(st.now() == SteadyClock::time_point(std::chrono::milliseconds(a)), "fake steady clock is wrong"); c.require(sy.now() == SystemClock::time_point(std::chrono::milliseconds(b)), "fake system clock is wrong"); }
  auto t0 = std::chrono::steady_clock::now(); real.advance(std::chrono::hours(5)); auto t = real.now(); c.require(t >= t0 && t <= std::chrono::steady_clock::now(), "a real clock does not follow the underlying one");
}

// ================================================================ U08
VF_RULE(U08, "Random numbers, lists, addresses, argument lists and byte strings, well-formed and mutated, in heap blocks of exact size, against independent parsers. Non-trivial: the text is at a boundary or malformed, or contains special bytes.");
static std::string genNumber(vf::Source &src) {
  static const std::vector<std::string> edge = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "0", "-0", "+0", "+", "-", "+-5", "-+5", "--1", "++1", "00012", "1e3", "0x10", " 1", "1 ", "1\0", "", "٣", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999999999999999"};
  switch (src.draw(4)) { case 0: return src.pick(edge); case 1: return std::to_string((int64_t) src.raw64() >> src.draw(64)); case 2: { std::string s = std::to_string((int64_t) src.raw64() >> src.draw(64)); switch (src.draw(4)) { case 0: s += std::string(1, "x \0\n5"[src.draw(5)]); break; case 1: s.insert(s.begin(), "+- 0"[src.draw(4)]); break; case 2: s[src.draw(s.size())] = "9a.-"[src.draw(4)]; break; default: s = std::string(src.draw(30), '0') + s; } return s; } default: return src.over("0123456789+-", 22); }
}
VF_PROP(U08, integers, 300000, 6000000, vf::kNone) {
  std::string s = genNumber(src); c.note(quote(s)); int64_t want = 0, got = 77; bool ok = refInt(s, want); c.nontrivial(!ok || s != std::to_string(want)); c.label(ok ? "valid" : "invalid");
  c.equal(ParseUtils::parseInt64(Exact(s), got), ok, "integer accepted"); if (ok) c.equal(got, want, "value");
  int64_t n = (int64_t) src.raw64() >> src.draw(64); c.require(ParseUtils::parseInt64(std::to_string(n), got) && got == n, "a printed integer does not read back");
  c.equal(binaryStringToInt(Exact(intToBinaryString(n))), n, "binary integer"); c.equal(binaryStringToUnsignedInt(Exact(unsignedIntToBinaryString((uint64_t) n))), (uint64_t) n, "binary unsigned integer");
  std::string sep = src.pick(std::vector<std::string>{",", " ", ":", "|x|"}), list; std::vector<int64_t> vals, out{1, 2}; bool lok = true; size_t k = (size_t) src.range(1, 5);
  for (size_t i = 0; i < k; i++) { std::string x = src.chance(1, 6) ? genNumber(src) : std::to_string(src.range(-1000, 1000)); if (i) list += sep; list += x; }
  for (auto &x : refSplit(list, sep)) { int64_t v; if (!refInt(x, v)) { lok = false; break; } vals.push_back(v); }
  c.equal(ParseUtils::parseIntegerList(list, sep, out), lok, "list " + quote(list) + " accepted"); if (lok) c.equal(out, vals, "list");
}
VF_PROP(U08, splitting_and_servers, 200000, 4000000, vf::kNone) {
  std::string text = src.chance(1, 3) ? src.bytes(24) : src.over("ab,:|", 16), sep = src.pick(std::vector<std::string>{",", ":", "|", "ab", "aa", ",,"});
  auto want = refSplit(text, sep); c.equal(split(Exact(text), sep), want, "split " + quote(text) + " at " + sep); c.equal(ParseUtils::split(text, sep), want, "split");
  auto server = [&] { return src.chance(1, 5) ? src.over("ab:,|1-", 8) : src.pick(std::vector<std::string>{"host1", "a.b.c", "x", "h-2", "\xff", "h t"}) + ":" + (src.chance(1, 5) ? genNumber(src) : std::to_string(src.range(-5, 70000))); };
  std::string one = server(); RaftServer w, g("before", 9); bool ok = refServer(one, w); c.note("server " + quote(one)); c.equal(parseServer(Exact(one), g), ok, "server accepted");
  if (ok) { c.require(g == w, "server parsed as " + g.toString()); RaftServer g2; c.require(parseServer(g.toString(), g2) && g2 == g, "a printed server does not read back"); }
  std::string list; std::vector<RaftServer> ref; bool lok = true; size_t k = (size_t) src.range(1, 5);
  for (size_t i = 0; i < k; i++) { if (i) list += ","; list += src.chance(1, 4) && i ? refSplit(list, ",")[0] : server(); }
  for (auto &x : refSplit(list, ",")) { RaftServer r; if (!refServer(x, r)) { lok = false; break; } for (auto &o : ref) if (o.hostname == r.hostname && o.port == r.port) lok = false; ref.push_back(r); }
  std::vector<RaftServer> out(2); c.note("list " + quote(list)); c.nontrivial(!lok || ref.size() >= 2); c.label(lok ? "valid list" : "invalid list"); c.equal(parseServers(Exact(list), out), lok, "list accepted");
  if (lok) { c.require(out == ref, "list parsed as " + serializeNodes(out)); std::vector<RaftServer> back; c.require(parseServers(serializeNodes(out), back) && back == out, "a printed list does not read back"); }
  c.require(serializeNodes({}).empty(), "empty list");
}
VF_PROP(U08, floating_point, 100000, 1500000, vf::kNone) {
  double d; uint64_t bits = src.raw64(); memcpy(&d, &bits, 8); if (src.chance(1, 3)) d = (double) (int64_t) src.raw64() / (double) (1ll << src.draw(60)); char b[64]; double got = 1;
  if (std::isfinite(d)) { snprintf(b, sizeof b, "%.17g", d); c.note(b); c.require(my_strtod(Exact(b), got) && memcmp(&got, &d, 8) == 0, "a printed number does not read back: " + std::string(b)); c.nontrivial(d != (int64_t) 1);
    std::string bad = b; switch (src.draw(5)) { case 0: bad += "x"; break; case 1: bad = " " + bad; break; case 2: bad += " "; break; case 3: bad += std::string(1, '\0'); break; default: bad += "\n"; } c.require(!my_strtod(Exact(bad), got), "accepted " + quote(bad)); }
  for (const char *s : {"", "nan", "NaN", "inf", "-inf", "infinity", "1e999", "-1e999", "abc", ".", "e5", "+", "-", "--1"}) c.require(!my_strtod(Exact(s), got), std::string("accepted ") + s);
  std::string digits = "12345678"; c.require(my_strtod(std::string_view(Exact(digits).view()).substr(0, 3), got) && got == 123, "read past the end of its input");
}
VF_PROP(U08, durations, 100000, 1500000, vf::kNone) {
  int64_t n = src.flip() ? src.range(0, 200000000) : src.pick(std::vector<int64_t>{60, 3600, 86400, 86400 * 30, 86400 * 365, 86400ll * 365 * 900}) * src.range(0, 14) + src.range(-1, 1); if (n < 0) n = 0;
  std::string t = formatTime(std::chrono::seconds(n)); c.note(std::to_string(n) + " -> " + t); static const std::pair<const char *, std::pair<int64_t, int64_t>> units[] = {{"years", {86400 * 365, INT64_MAX}}, {"months", {86400 * 30, 12}}, {"days", {86400, 29}}, {"hours", {3600, 23}}, {"minutes", {60, 59}}, {"seconds", {1, 59}}};
  int64_t sum = 0; size_t u = 0; auto parts = refSplit(t, ", ");
  for (auto &p : parts) { auto w = refSplit(p, " "); int64_t v; c.require(w.size() == 2 && refInt(w[0], v), "malformed duration " + quote(t)); while (u < 6 && w[1] != units[u].first) u++; c.require(u < 6, "units repeated or out of order in " + quote(t)); c.require(v <= units[u].second.second, "carry missing in " + quote(t)); c.require(v > 0 || w[1] == "seconds", "zero unit in " + quote(t)); sum += v * units[u].second.first; u++; }
  c.require(refSplit(parts.back(), " ")[1] == "seconds", "no seconds"); c.equal(sum, n, "duration " + quote(t) + " adds up to"); c.nontrivial(parts.size() >= 3);
}
VF_PROP(U08, byte_strings, 200000, 3000000, vf::kNone) {
  std::string s = src.chance(1, 2) ? src.bytes(20) : src.over("ab\\\0\xff", 10), p = src.flip() ? s.substr(0, src.draw(s.size() + 1)) : src.flip() && !s.empty() ? s.substr(src.draw(s.size())) : src.over("ab\\", 3); if (src.chance(1, 6) && !p.empty()) p[src.draw(p.size())] ^= 1; c.note(quote(s) + " " + quote(p)); c.nontrivial(!p.empty());
  Exact es(s), ep(p); c.equal(StringUtils::startsWith(es, ep), s.substr(0, p.size()) == p, "startsWith"); c.equal(StringUtils::endsWith(es, ep), s.size() >= p.size() && s.substr(s.size() - p.size()) == p, "endsWith"); c.equal(StringUtils::isPrefix(p, s), s.substr(0, p.size()) == p, "isPrefix"); c.equal(StringUtils::isPrefix(p, es.view().data(), s.size()), s.substr(0, p.size()) == p, "isPrefix"); c.equal(quarkdb::startswith(s, p), s.substr(0, p.size()) == p, "startswith");
  char ch = s.empty() ? 'a' : s[src.draw(s.size())]; c.equal(StringUtils::countOccurences(es, ch), (size_t) std::count(s.begin(), s.end(), ch), "occurrences");
  bool pr = true; std::string esc, hex; for (unsigned char x : s) { bool ok = x >= 32 && x < 127; pr &= ok; char b[8]; snprintf(b, 8, "\\x%02X", x); esc += ok ? std::string(1, (char) x) : std::string(b); snprintf(b, 8, "%02x", x); hex += b; }
  c.equal(StringUtils::isPrintable(es), pr, "printable"); c.equal(StringUtils::escapeNonPrintable(es), esc, "escaped"); c.equal(StringUtils::base16Encode(es), hex, "hexadecimal");
  size_t n = src.draw(30); char pad = (char) src.draw(256); std::string want = s; while (want.size() < n) want += pad; c.equal(StringUtils::rightPad(es, n, pad), want, "padded");
  std::string o = s; for (auto &x : o) if (src.chance(1, 3)) { if (x >= 'a' && x <= 'z') x -= 32; else if (src.chance(1, 6)) x ^= 32; } bool eq = o.size() == s.size(); for (size_t i = 0; eq && i < s.size(); i++) { auto low = [](unsigned char x) { return x >= 'A' && x <= 'Z' ? x + 32 : x; }; eq = low(s[i]) == low(o[i]); } c.equal(caseInsensitiveEquals(es, Exact(o)), eq, "equal but for case: " + quote(o)); c.require(!caseInsensitiveEquals(es, Exact(s + "a")), "a prefix is equal");
  std::vector<std::string> v; while (src.more(3) && v.size() < 8) v.push_back(src.over("ab", 1)); std::string x = src.over("ab", 1); size_t cnt = (size_t) std::count(v.begin(), v.end(), x); c.equal(contains(v, x), cnt > 0, "contains"); c.equal(checkUnique(v), std::set<std::string>(v.begin(), v.end()).size() == v.size(), "unique"); c.equal(all_identical(v), std::set<std::string>(v.begin(), v.end()).size() <= 1, "all identical");
  auto v2 = v; c.equal(erase_element(v2, x), cnt > 0, "erased"); auto ref = v; auto it = std::find(ref.begin(), ref.end(), x); if (it != ref.end()) ref.erase(it); c.equal(v2, ref, "vector after erasing one element"); c.equal(VectorUtils::checkEquality(v, v2), v == v2, "vectors equal"); auto v3 = v; VectorUtils::appendToVector(v3, v2); ref = v; ref.insert(ref.end(), v2.begin(), v2.end()); c.equal(v3, ref, "appended");
}
VF_PROP(U08, scan_arguments, 150000, 2500000, vf::kNone) {
  RedisRequest r; std::vector<std::string> a; auto push = [&](const std::string &s) { a.push_back(s); };
  push(src.pick(std::vector<std::string>{"0", "next:", "next:abc", "next:\0x", "next", "1", "", "00", "Next:a", "next:" + src.bytes(6)}));
  while (src.more(2) && a.size() < 9) { std::string k = src.pick(std::vector<std::string>{"COUNT", "count", "MATCH", "Match", "MATCHLOC", "matchloc", "LIMIT", "", "COUN", "MATCHL"}); push(k); if (src.chance(1, 12)) break; push(k.size() && (k[0] == 'c' || k[0] == 'C') ? (src.chance(1, 2) ? genNumber(src) : std::to_string(src.range(1, 300))) : src.pick(std::vector<std::string>{"*", "a*", "", "0", "next:"})); }
  bool sm = !src.chance(1, 4), sl = src.flip(); for (auto &s : a) r.push_back(s);
  std::string desc; for (auto &s : a) desc += quote(s) + " "; c.note(desc + (sm ? "+match " : "") + (sl ? "+matchloc" : ""));
  bool err = false; std::string cur, m, ml; int64_t cnt = 100; auto lower = [](std::string s) { for (auto &x : s) if (x >= 'A' && x <= 'Z') x += 32; return s; };
  if (a[0] == "0") cur = ""; else if (startsWith(a[0], "next:")) cur = a[0].substr(5); else err = true;
  for (size_t i = 1; !err && i < a.size(); i += 2) { if (i + 1 == a.size()) { err = true; break; } std::string k = lower(a[i]); if (k == "count") { int64_t v; if (!refInt(a[i + 1], v) || v <= 0) err = true; else cnt = v; } else if (k == "match" && sm) m = a[i + 1]; else if (k == "matchloc" && sl) ml = a[i + 1]; else err = true; }
  ScanCommandArguments got = parseScanCommand(r.begin(), r.end(), sm, sl); c.nontrivial(a.size() >= 3); c.label(err ? "refused" : "accepted"); c.equal(!got.error.empty(), err, "arguments refused");
  if (!err) { c.equal(got.cursor, cur, "cursor"); c.equal(got.count, cnt, "count"); c.equal(got.match, m, "match"); c.equal(got.matchloc, ml, "matchloc"); }
}
VF_PROP(U08, names_of_policies_and_ids, 30000, 200000, vf::kNone) {
  static const char *names[] = {"always", "sync-important-updates", "async"}; int k = (int) src.draw(3); FsyncPolicy p = (FsyncPolicy) ((k + 1) % 3); c.require(parseFsyncPolicy(Exact(fsyncPolicyToString((FsyncPolicy) k)), p) && (int) p == k, "a printed policy does not read back"); c.equal(fsyncPolicyToString((FsyncPolicy) k), std::string(names[k]), "policy name");
  std::string s = names[k]; switch (src.draw(3)) { case 0: s.pop_back(); break; case 1: s += "x"; break; default: s[src.draw(s.size())] ^= 32; } c.note(s); c.nontrivial(); p = (FsyncPolicy) 0; c.require(!parseFsyncPolicy(Exact(s), p), "accepted " + s);
  std::string u = generateUuid(), u2 = generateUuid(); c.equal(u.size(), (size_t) 36, "length of an identifier"); c.require(u != u2, "identifiers repeat"); for (size_t i = 0; i < 36; i++) c.require((i == 8 || i == 13 || i == 18 || i == 23) ? u[i] == '-' : isxdigit((unsigned char) u[i]) != 0, "malformed identifier " + u);
}

// ================================================================ U09
VF_RULE(U09, "Random operation sequences on buffers against plain strings; random thread schedules of registrations against shutdown, of thread stops against callbacks and waits, of readers against writers. Non-trivial: a buffer crosses its inline size or is shared, or at least two threads race.");
template <int N> static void smartBuffer(vf::Source &src, vf::Case &c) {
  bool sized = src.flip(); size_t n0 = src.draw(3 * N); auto b = sized ? std::make_unique<SmartBuffer<N>>(n0) : std::make_unique<SmartBuffer<N>>(); if (!sized) n0 = N; c.equal(b->size(), n0, "initial size");
  std::string model(n0, 0); auto fill = [&](size_t from) { for (size_t i = from; i < model.size(); i++) { model[i] = (char) src.draw(256); (*b)[i] = model[i]; } }; fill(0); bool crossed = n0 > N;
  for (size_t i = 0, n = src.draw(12); i < n; i++) {
    switch (src.draw(5)) {
      case 0: { size_t m = src.draw(5 * N); c.note("resize " + std::to_string(m)); b->resize(m); model.assign(m, 0); fill(0); crossed |= m > N; break; }
      case 1: { size_t m = src.draw(model.size() + 1); c.note("shrink " + std::to_string(m)); b->shrink(m); model.resize(m); break; }
      case 2: { size_t m = model.size() + src.draw(3 * N); c.note("expand " + std::to_string(m)); size_t old = model.size(); b->expand(m); model.resize(m); fill(old); crossed |= m > N; break; }
      case 3: c.require(throws([&] { b->shrink(model.size() + 1 + src.draw(N)); }), "shrinking to a larger size accepted"); break;
      default: if (!model.empty()) { size_t m = src.draw(model.size()); c.require(throws([&] { b->expand(m); }), "expanding to a smaller size accepted"); }
    }
    c.equal(b->size(), model.size(), "size"); c.require(b->toView() == model && b->toString() == model && std::string(b->data(), b->size()) == model, "contents changed: " + quote(b->toString()) + " instead of " + quote(model));
  }
  c.nontrivial(crossed);
}
VF_PROP(U09, smart_buffers, 60000, 1000000, vf::kNone) { switch (src.draw(3)) { case 0: smartBuffer<1>(src, c); break; case 1: smartBuffer<8>(src, c); break; default: smartBuffer<64>(src, c); }
  StaticBuffer<16> sb; c.equal(sb.size(), (size_t) 16, "size of a static buffer"); std::string m(16, 0); for (size_t i = 0; i < 16; i++) sb[i] = m[i] = (char) src.draw(256); size_t n = src.draw(20); bool t = throws([&] { sb.shrink(n); }); c.equal(t, n > 16, "shrinking a static buffer refused"); if (!t) m.resize(n); c.require(sb.toView() == m, "static buffer contents"); }
VF_PROP(U09, pinned_buffers, 60000, 1000000, vf::kNone) {
  struct Region { std::shared_ptr<MemoryRegion> ptr; std::string mem; size_t used = 0; MemoryRegion *raw; }; struct Buf { PinnedBuffer b; int region; size_t off, len; std::string own; };
  std::vector<Region> rg; std::vector<std::unique_ptr<Buf>> bufs; bool shared = false;
  auto text = [&](const Buf &b) { return b.region < 0 ? b.own : rg[b.region].mem.substr(b.off, b.len); };
  auto pickBuf = [&]() -> Buf & { return *bufs[src.draw(bufs.size())]; };
  for (size_t i = 0, n = (size_t) src.range(2, 30); i < n; i++) {
    switch (src.weighted({2, 5, 3, 3, 4, 3, 2, 2, 2})) {
      case 0: { size_t sz = src.draw(64); Region r{MemoryRegion::Construct(sz), std::string(sz, 0), 0, nullptr}; r.raw = r.ptr.get(); c.equal(r.ptr->size(), sz, "region size"); c.equal((size_t) r.ptr->bytesFree(), sz, "free bytes"); rg.push_back(r); c.note("region of " + std::to_string(sz)); break; }
      case 1: { if (rg.empty()) break; size_t k = src.draw(rg.size()); if (!rg[k].ptr) break; size_t len = src.draw(24); auto o = rg[k].ptr->allocate(len); bool fits = rg[k].used + len <= rg[k].mem.size(); c.equal(o.has_value(), fits, "allocation granted"); c.note("allocate " + std::to_string(len) + " of region " + std::to_string(k) + (fits ? "" : ": refused")); if (o) { auto b = std::make_unique<Buf>(); b->b = *o; b->region = (int) k; b->off = rg[k].used; b->len = len; rg[k].used += len; for (size_t j = 0; j < len; j++) { char ch = (char) src.draw(256); b->b[j] = ch; rg[k].mem[b->off + j] = ch; } bufs.push_back(std::move(b)); } c.equal(rg[k].ptr->bytesConsumed(), rg[k].used, "bytes consumed"); c.equal(rg[k].ptr->bytesFree(), rg[k].mem.size() - rg[k].used, "bytes free"); break; }
      case 2: { auto b = std::make_unique<Buf>(); b->own = src.bytes(30); b->b = PinnedBuffer(std::string_view(Exact(b->own))); b->region = -1; b->off = 0; b->len = b->own.size(); bufs.push_back(std::move(b)); break; }
      case 3: { if (bufs.empty()) break; auto b = std::make_unique<Buf>(pickBuf()); shared = true; c.note("copy"); bufs.push_back(std::move(b)); break; }
      case 4: { if (bufs.empty()) break; Buf &s = pickBuf(); size_t st = src.draw(s.b.size() + 1), len = src.draw(s.b.size() - st + 1); auto b = std::make_unique<Buf>(); b->b = s.b.substr(st, len); b->region = s.region; b->off = s.off + st; b->len = len; if (s.region < 0) b->own = s.own.substr(st, len); shared = true; c.note("substring"); bufs.push_back(std::move(b)); break; }
      case 5: { if (bufs.empty()) break; Buf &b = pickBuf(); if (b.b.empty()) break; size_t at = src.draw(b.b.size()); char ch = (char) src.draw(256); if (src.flip()) b.b[at] = ch; else b.b.data()[at] = ch; if (b.region < 0) b.own[at] = ch; else rg[b.region].mem[b.off + at] = ch; break; }
      case 6: { if (bufs.empty()) break; Buf &b = pickBuf(); size_t k = src.draw(b.b.size() + 1); c.note("drop the last " + std::to_string(k)); b.b.remove_suffix(k); b.len -= k; if (b.region < 0) b.own.resize(b.own.size() - k); break; }
      case 7: { if (bufs.empty()) break; size_t k = src.draw(bufs.size()); if (src.flip()) { auto b = std::make_unique<Buf>(std::move(*bufs[k])); bufs[k] = std::move(b); } else bufs.erase(bufs.begin() + (long) k); break; }
      default: if (!rg.empty()) { size_t k = src.draw(rg.size()); c.note("owner lets go of region " + std::to_string(k)); rg[k].ptr.reset(); }
    }
    for (auto &b : bufs) { std::string want = text(*b); c.equal(b->b.size(), want.size(), "size of a buffer"); c.require(b->b.sv() == want && std::string_view(b->b) == want && b->b == std::string_view(want) && std::string(((const PinnedBuffer &) b->b).data(), b->b.size()) == want, "a buffer changed: " + quote(b->b.sv()) + " instead of " + quote(want)); c.equal(b->b.usingInternalBuffer(), b->region < 0, "internal storage"); c.equal(b->b.empty(), want.empty(), "empty"); }
    for (size_t k = 0; k < rg.size(); k++) if (rg[k].ptr) { long refs = 1; for (auto &b : bufs) refs += b->region == (int) k; c.equal(rg[k].ptr->refcount(), refs, "references to a region"); }
  }
  for (auto &a : bufs) for (auto &b : bufs) c.equal(a->b == b->b, text(*a) == text(*b), "buffers equal");
  c.nontrivial(shared && !rg.empty());
}
VF_PROP(U09, shutdown_waits_for_running_operations, 1200, 15000, vf::kConcurrent) {
  Pin pin; if (src.flip()) pin.set(src);
  size_t nt = (size_t) src.range(1, 4), spin = src.draw(200), delay = src.draw(3000), rounds = (size_t) src.range(1, 4); c.note(std::to_string(nt) + " threads, " + std::to_string(rounds) + " rounds"); c.nontrivial(nt >= 2);
  InFlightTracker tr(src.flip()); std::atomic<int> active{0}, bad{0}; std::atomic<bool> closed{false}, stop{false}; std::atomic<size_t> let{0}; bool spread = src.flip();
  std::vector<std::thread> th; for (size_t t = 0; t < nt; t++) th.emplace_back([&] { if (spread) sched_setaffinity(0, sizeof gAllCpus, &gAllCpus); while (!stop) { bool late = closed; InFlightRegistration reg(tr); if (reg.ok()) { if (late && closed) bad |= 1; active++; for (volatile size_t i = 0; i < spin; i++); active--; let++; } else sched_yield(); } });
  for (size_t r = 0; r < rounds; r++) {
    closed = false; tr.setAcceptingRequests(true); size_t before = let; auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20); while (let == before && std::chrono::steady_clock::now() < until) sched_yield(); if (let == before) bad |= 8;
    for (volatile size_t i = 0; i < delay; i++);
    tr.setAcceptingRequests(false); if (tr.isAcceptingRequests()) bad |= 2; closed = true; tr.spinUntilNoRequestsInFlight(); for (int i = 0; i < 50; i++) if (active != 0) bad |= 4;
  }
  stop = true; for (auto &t : th) t.join();
  c.require(!(bad & 1), "an operation was let in after shutdown was requested"); c.require(!(bad & 2), "still accepting"); c.require(!(bad & 4), "an operation was running after waiting for all of them"); c.require(!(bad & 8), "nothing is let in although operations are accepted");
  c.equal((int64_t) tr.getInFlight(), (int64_t) 0, "operations in flight at the end");
  tr.setAcceptingRequests(true); { InFlightRegistration a(tr), b(tr); c.require(a.ok() && b.ok(), "refused"); c.equal((int64_t) tr.getInFlight(), (int64_t) 2, "operations in flight"); c.require(throws([&] { tr.spinUntilNoRequestsInFlight(); }), "waited while still accepting"); }
  c.equal((int64_t) tr.getInFlight(), (int64_t) 0, "operations in flight at the end");
}
VF_PROP(U09, threads_stop_and_call_back, 600, 6000, vf::kConcurrent) {
  size_t ncb = src.draw(5), late = src.draw(3), kind = src.draw(4); bool again = src.flip(), prop = src.flip(); c.note("kind " + std::to_string(kind) + ", " + std::to_string(ncb) + "+" + std::to_string(late) + " callbacks"); c.nontrivial(ncb + late > 0 || prop);
  std::vector<std::atomic<int>> called(16); for (auto &x : called) x = 0; std::atomic<int> runs{0}; std::atomic<bool> in{false}; auto t0 = std::chrono::steady_clock::now();
  auto body = [&](ThreadAssistant &as) { in = true; switch (kind) { case 0: while (!as.terminationRequested()) as.wait_for(std::chrono::seconds(120)); break; case 1: while (!as.terminationRequested()) as.wait_until(std::chrono::steady_clock::now() + std::chrono::seconds(120)); break; case 2: while (!as.terminationRequested()) as.wait_for(std::chrono::microseconds(50)); break; default: break; } runs++; };
  {
    AssistedThread inner(body), outer; std::unique_ptr<AssistedThread> moved;
    if (prop) { AssistedThread *ip = &inner; outer.reset([ip](ThreadAssistant &as) { as.propagateTerminationSignal(*ip); ip->blockUntilThreadJoins(); }); }
    for (size_t i = 0; i < ncb; i++) inner.registerCallback([&called, i] { called[i]++; });
    if (src.flip()) while (!in) sched_yield();
    if (prop) outer.join(); else if (src.flip()) { inner.stop(); inner.stop(); for (size_t i = 0; i < late; i++) inner.registerCallback([&called, i] { called[8 + i]++; }); inner.join(); for (size_t i = 0; i < late; i++) c.equal((int) called[8 + i], 1, "calls of a callback registered after termination was requested"); } else if (src.flip()) { moved = std::make_unique<AssistedThread>(std::move(inner)); moved->stop(); moved->blockUntilThreadJoins(); } else inner.join();
    c.equal((int) runs, 1, "completed runs"); for (size_t i = 0; i < ncb; i++) if (kind == 3 && prop) c.require(called[i] <= 1, "a termination callback was called twice"); else c.equal((int) called[i], 1, "calls of termination callback " + std::to_string(i));
    if (again && !moved) { inner.reset(body); inner.dropCallbacks(); inner.join(); c.equal((int) runs, 2, "completed runs after a reset"); for (size_t i = 0; i < ncb; i++) c.require(called[i] <= 1, "a dropped callback was called"); }
  }
  auto el = std::chrono::steady_clock::now() - t0; c.require(el < std::chrono::seconds(60), "stopping a waiting thread took " + std::to_string(std::chrono::duration_cast<std::chrono::seconds>(el).count()) + " s");
}
struct Pair { uint64_t a = 0, b = ~0ull; Pair() {} Pair(uint64_t x) : a(x), b(~x) {} };
VF_PROP(U09, synchronized_values_are_never_torn, 400, 4000, vf::kConcurrent) {
  size_t nt = (size_t) src.range(1, 3), n = src.draw(2000); c.note(std::to_string(nt) + " readers, " + std::to_string(n) + " writes"); c.nontrivial(n > 10);
  uint64_t first = src.raw64(); Synchronized<Pair> s{Pair(first)}; Pair f = s.get(); c.equal(f.a, first, "initial value"); Synchronized<std::string> str{"N/A"}; c.equal(str.get(), std::string("N/A"), "initial text"); Synchronized<std::string> none; c.equal(none.get(), std::string(), "initial text"); str.set("other"); c.equal(str.get(), std::string("other"), "text");
  std::atomic<bool> done{false}, torn{false}, back{false}; std::atomic<int64_t> count{0}; s.set(0); std::vector<std::thread> th; for (size_t t = 0; t < nt; t++) th.emplace_back([&] { ScopedAdder<int64_t> add(count); uint64_t last = 0; while (!done) { Pair p = s.get(); if (p.b != ~p.a) torn = true; if (p.a < last) back = true; last = p.a; } });
  for (size_t i = 1; i <= n; i++) s.set(i); if (n) { Pair p = s.get(); c.equal(p.a, (uint64_t) n, "last value"); }
  done = true; for (auto &t : th) t.join(); c.require(!torn, "a half-written value was read"); c.require(!back, "an older value was read after a newer one"); c.equal((int64_t) count, (int64_t) 0, "scoped count");
  { ScopedAdder<int64_t> a(count), b(count, 5); c.equal((int64_t) count, (int64_t) 6, "scoped count inside"); } c.equal((int64_t) count, (int64_t) 0, "scoped count after");
}
