// N01 parsing, N02 formatting, N03 transactions on the wire, N06 command names, N07 filters, N08 publish/subscribe.
#include "store.hh"
#include "BufferedReader.hh"
#include "Formatter.hh"
#include "RedisParser.hh"
#include "auth/AuthenticationDispatcher.hh"
#include "health/HealthIndicator.hh"
#include "pubsub/SimplePatternMatcher.hh"
#include "pubsub/SubscriptionTracker.hh"
#include "pubsub/ThreadSafeMultiMap.hh"
#include "raft/RaftCommon.hh"
#include "redis/ArrayResponseBuilder.hh"
#include "redis/InternalFilter.hh"
#include "redis/LeaseFilter.hh"
#include "utils/Statistics.hh"
#include <atomic>
#include <thread>
using namespace quarkdb;
using vf::quote;

static std::string encode(const Args &a) { std::string s = "*" + std::to_string(a.size()) + "\r\n"; for (auto &x : a) s += "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n"; return s; }
static Args argsOf(const RedisRequest &r) { Args a; for (size_t i = 0; i < r.size(); i++) a.emplace_back(r[i]); return a; }
struct QuietLinks { QuietLinks() { Link::setConnectionLogging(false); } }; static QuietLinks quietLinks;

// ------------------------------------------------------------------------------------------------ N01
enum End { kWaiting, kRejected };
struct Parsed { std::vector<Args> reqs; End end = kWaiting; size_t consumed = 0; };

// feeds the stream in the given pieces; the requests are looked at only after everything has been read
static Parsed parseInPieces(vf::Case &c, const std::string &stream, const std::vector<size_t> &cuts, size_t recvChunk, bool auth) {
  MemLink raw; raw.chunk(recvChunk); Link link(&raw); RedisParser parser(&link);
  std::vector<RedisRequest> keep; Parsed out; RedisRequest req;
  size_t at = 0; auto feedTo = [&](size_t to) -> bool {
    raw.feed(std::string_view(stream).substr(at, to - at)); at = to;
    for (int idle = 0; idle < 2;) {
      int rc = parser.fetch(req, auth);
      if (rc == 1) { keep.push_back(std::move(req)); req = RedisRequest(); idle = 0; continue; }
      if (rc < 0) { out.end = kRejected; return false; }
      c.require(rc == 0, "the parser returned " + std::to_string(rc));
      if (raw.unread() == 0) idle++;
    }
    return true;
  };
  for (size_t cut : cuts) if (cut >= at && cut <= stream.size() && !feedTo(cut)) break;
  if (out.end == kWaiting) feedTo(stream.size());
  for (auto &r : keep) out.reqs.push_back(argsOf(r));
  return out;
}
static std::vector<size_t> genCuts(vf::Source &src, size_t n) {
  std::vector<size_t> cuts; if (n == 0) return cuts;
  switch (src.draw(4)) {
    case 0: break;                                                     // all at once
    case 1: if (n <= 3000) for (size_t i = 1; i < n; i++) cuts.push_back(i); break;   // byte by byte
    case 2: { size_t k = 1 + src.draw(40); for (size_t i = k; i < n; i += k) { cuts.push_back(i); if (cuts.size() > 4000) break; } break; }
    default: while (src.more(6)) cuts.push_back(src.draw(n + 1)); std::sort(cuts.begin(), cuts.end());
  }
  return cuts;
}
static std::string genArg(vf::Source &src) {
  switch (src.weighted({8, 4, 3, 1})) {
    case 0: { std::string s = src.bytes(12); return s.empty() ? "x" : s; }
    case 1: { std::string s = src.over("\r\n$*0123456789ab", 10); return s.empty() ? "\r\n" : s; }
    case 2: { static const std::vector<std::string> w = {"SET", "get", "MULTI", "$5", "*1\r\n$4\r\nPING\r\n", "-1", std::string("\0", 1), "0"}; return src.pick(w); }
    default: { size_t n = 32768 - src.draw(40); if (src.flip()) n = 32768 + src.draw(40000); if (src.chance(1, 8)) n = 1u << 20; std::string s(n, 'a'); for (size_t i = 0; i < 16; i++) s[src.draw(n)] = (char) src.draw(256); return s; }
  }
}
static std::string genSmallArg(vf::Source &src) { std::string s = src.flip() ? src.bytes(10) : src.over("\r\n$*0123456789ab", 10); return s.empty() ? "x" : s; }

VF_PROP(N01, valid_streams_any_fragmentation, 4000, 120000, vf::kNone) {
  std::vector<Args> want; std::string stream; size_t n = 1 + src.draw(6); std::vector<size_t> edges;
  for (size_t i = 0; i < n; i++) {
    VF_SPAN(src); Args a; size_t k = 1 + src.size(src.chance(1, 10) ? 60 : 6); for (size_t j = 0; j < k; j++) a.push_back(genArg(src));
    // now and then make the request end, or an element begin, right at a buffer edge
    if (src.chance(1, 3)) { size_t head = stream.size() + encode(a).size(), pad = (32768 - head % 32768) + (size_t) src.range(-3, 3); if (a.back().size() < 200 && pad > 20 && pad < 40000) a.back() += std::string(pad - 8, 'p'); }
    want.push_back(a); stream += encode(a); edges.push_back(stream.size());
  }
  bool partial = src.chance(1, 4); if (partial) { std::string e = encode({genSmallArg(src), genSmallArg(src)}); stream += e.substr(0, src.draw(e.size())); }
  auto cuts = genCuts(src, stream.size()); size_t chunk = src.flip() ? SIZE_MAX : 1 + src.draw(src.flip() ? 20 : 40000);
  if (chunk < 8 && stream.size() > 20000) chunk = 4096;
  c.note("stream of " + std::to_string(stream.size()) + " bytes, " + std::to_string(n) + " requests, " + std::to_string(cuts.size()) + " cuts, at most " + std::to_string(chunk) + " bytes per read: " + quote(stream, 200));
  Parsed p = parseInPieces(c, stream, cuts, chunk, true);
  for (size_t i = 0; i < std::min(p.reqs.size(), want.size()); i++) {
    if (p.reqs[i] != want[i]) {
      for (size_t j = 0; j < std::min(p.reqs[i].size(), want[i].size()); j++) if (p.reqs[i][j] != want[i][j]) c.fail("request " + std::to_string(i) + " element " + std::to_string(j) + " was read as " + quote(p.reqs[i][j], 80) + " (" + std::to_string(p.reqs[i][j].size()) + " bytes), sent " + quote(want[i][j], 80) + " (" + std::to_string(want[i][j].size()) + " bytes)");
      c.fail("request " + std::to_string(i) + " was read with " + std::to_string(p.reqs[i].size()) + " elements, sent with " + std::to_string(want[i].size()));
    }
  }
  c.require(p.end == kWaiting, "a well-formed stream was rejected after " + std::to_string(p.reqs.size()) + " of " + std::to_string(n) + " requests");
  c.equal(p.reqs.size(), want.size(), "number of requests read");
  c.nontrivial(cuts.size() + (chunk < stream.size()) > 0 && n > 1); if (stream.size() > 32768) c.label("across buffers"); if (partial) c.label("trailing partial request");
}

// What a strict reader of the protocol makes of a stream; "lenient" spellings of numbers may be rejected or taken at face value.
struct Strict { std::vector<Args> reqs; End end = kWaiting; };
static int strictNumber(const std::string &digits, bool lenient, int64_t &out) {   // 1 ok, 0 malformed
  size_t i = 0;
  if (lenient) { while (i < digits.size() && isspace((unsigned char) digits[i])) i++; if (i < digits.size() && digits[i] == '+') i++; }
  if (i == digits.size()) return 0; out = 0;
  if (!lenient && digits[i] == '0' && digits.size() > i + 1) return 0;
  for (; i < digits.size(); i++) { if (digits[i] < '0' || digits[i] > '9') return 0; out = out * 10 + (digits[i] - '0'); if (out > (int64_t) INT32_MAX) return 0; }
  return 1;
}
static Strict strictParse(const std::string &s, bool lenient) {
  Strict r; size_t at = 0;
  auto number = [&](char prefix, int64_t &out) -> int {   // -1 rejected, 0 incomplete
    size_t e = s.find('\n', at); if (e == s.npos) return 0;
    if (s[at] != prefix || e < at + 2 || s[e - 1] != '\r') return -1;
    std::string d = s.substr(at + 1, e - 1 - at - 1); at = e + 1;
    return strictNumber(d, lenient, out) ? 1 : -1;
  };
  while (at < s.size()) {
    int64_t n; int rc = number('*', n); if (rc < 0 || (rc == 1 && n == 0)) { r.end = kRejected; return r; } if (rc == 0) return r;
    Args a; bool empty = false;
    for (int64_t i = 0; i < n; i++) {
      int64_t len; rc = number('$', len); if (rc < 0) { r.end = kRejected; return r; } if (rc == 0) return r;
      if ((int64_t) s.size() - (int64_t) at < len + 2) return r;
      if (s[at + len] != '\r' || s[at + len + 1] != '\n') { r.end = kRejected; return r; }
      a.push_back(s.substr(at, len)); at += len + 2; if (len == 0) empty = true;
    }
    if (empty) { r.end = kRejected; return r; }     // this server refuses empty arguments
    r.reqs.push_back(a);
  }
  return r;
}
VF_PROP(N01, malformed_streams_are_rejected, 12000, 400000, vf::kNone) {
  // a stream built from tokens, some of them wrong
  static const std::vector<std::string> nums = {"0", "-1", "-2", "-0", "+2", " 2", "02", "2 ", "2x", "", "4294967297", "4294967298", "8589934593", "18446744073709551617", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "2147483647", "2147483648", "-2147483648", "300000000", "1e0", "0x1", "1\r", "\r", "\t1", "-4294967295"};
  std::string stream; int wrong = 0; size_t n = 1 + src.draw(3);
  auto num = [&](size_t v) -> std::string { if (!src.chance(1, 6)) return std::to_string(v); wrong++; if (src.chance(1, 8)) return std::to_string(v) + std::string("\0", 1) + (src.flip() ? "7" : ""); if (src.chance(1, 4)) return src.over("0123456789-+ \r", 5); if (src.chance(1, 4)) return std::to_string(v + (size_t) src.range(1, 3)); return src.pick(nums); };
  auto eol = [&]() -> std::string { static const std::vector<std::string> e = {"\n", "\r", "\n\r", "\r\r\n", "", "xx", "\r\n\r\n"}; if (!src.chance(1, 14)) return "\r\n"; wrong++; return src.pick(e); };
  auto tag = [&](char t) -> std::string { static const std::vector<std::string> e = {"", "*", "$", ":", "+", "-", "\r\n", "x", "%"}; if (!src.chance(1, 14)) return std::string(1, t); wrong++; return src.pick(e); };
  for (size_t i = 0; i < n; i++) {
    VF_SPAN(src); size_t k = 1 + src.size(5); stream += tag('*') + num(k) + eol();
    for (size_t j = 0; j < k; j++) { std::string a = src.chance(1, 20) ? "" : genSmallArg(src); stream += tag('$') + num(a.size()) + eol() + a + eol(); }
  }
  while (src.chance(1, 5) && !stream.empty()) { wrong++; size_t p = src.draw(stream.size()); switch (src.draw(3)) { case 0: stream[p] = (char) src.draw(256); break; case 1: stream.erase(p, 1 + src.draw(4)); break; default: stream.insert(p, src.bytes(3)); } }
  if (src.chance(1, 5)) stream.resize(src.draw(stream.size() + 1));
  auto cuts = genCuts(src, stream.size()); size_t chunk = src.flip() ? SIZE_MAX : 1 + src.draw(20);
  c.note("stream: " + quote(stream, 400));
  Parsed whole = parseInPieces(c, stream, {}, SIZE_MAX, true), pieces = parseInPieces(c, stream, cuts, chunk, true);
  auto show = [](const std::vector<Args> &v) { std::string s; for (auto &a : v) s += "[" + showArgs(a) + "] "; return s; };
  if (whole.reqs != pieces.reqs || whole.end != pieces.end) c.fail("read in one piece: " + show(whole.reqs) + (whole.end ? "then rejected" : "") + "; in pieces: " + show(pieces.reqs) + (pieces.end ? "then rejected" : ""));
  Strict a = strictParse(stream, false), b = strictParse(stream, true);
  bool asStrict = whole.reqs == a.reqs && whole.end == a.end, asLenient = whole.reqs == b.reqs && whole.end == b.end;
  // in between: some lenient spellings accepted, others not
  bool between = !asStrict && !asLenient && whole.end == kRejected && whole.reqs.size() >= a.reqs.size() && whole.reqs.size() <= b.reqs.size() && std::equal(whole.reqs.begin(), whole.reqs.end(), b.reqs.begin());
  if (!asStrict && !asLenient && !between) c.fail("stream read as " + show(whole.reqs) + (whole.end ? "then rejected" : "then waiting for more") + "; it means " + show(a.reqs) + (a.end ? "then malformed" : "then incomplete"));
  c.nontrivial(wrong > 0); c.label(a.end ? "malformed" : "well-formed or incomplete"); if (!a.reqs.empty() && a.end) c.label("malformed after good requests");
}
VF_PROP(N01, unauthenticated_limits, 1500, 20000, vf::kNone) {
  // before authentication: at most four elements, each below a mebibyte
  Args a; size_t k = 1 + src.draw(7); for (size_t i = 0; i < k; i++) a.push_back(genSmallArg(src));
  size_t big = SIZE_MAX, size = 0; if (src.chance(1, 3)) { big = src.draw(k); size = (1u << 20) + (size_t) src.range(-3, 3); }
  std::string stream = "*" + std::to_string(k) + "\r\n";
  for (size_t i = 0; i < k; i++) { std::string v = i == big ? std::string(size, 'q') : a[i]; stream += "$" + std::to_string(v.size()) + "\r\n" + v + "\r\n"; }
  bool refuse = k >= 5 || (big != SIZE_MAX && size >= 1048576);
  auto cuts = genCuts(src, stream.size()); c.note(std::to_string(k) + " elements, largest " + std::to_string(size));
  Parsed p = parseInPieces(c, stream, cuts, SIZE_MAX, false);
  c.equal(p.end == kRejected, refuse, "refused before authentication"); c.equal(p.reqs.size(), (size_t) !refuse, "requests read");
  // refused as soon as the announcement is there, without waiting for the payload
  if (refuse) { std::string head = k >= 5 ? "*" + std::to_string(k) + "\r\n" : stream.substr(0, stream.find("$" + std::to_string(size)) + 10); Parsed q = parseInPieces(c, head, {}, SIZE_MAX, false); c.require(q.end == kRejected, "an oversized request is not refused when it is announced"); }
  c.nontrivial(refuse || k == 4);
}
VF_PROP(N01, reader_returns_the_bytes_sent, 3000, 60000, vf::kNone) {
  // the buffered reader itself, with small buffers: nothing lost, repeated or changed, and earlier buffers stay valid
  size_t bs = 1 + src.draw(24); MemLink raw; Link link(&raw); BufferedReader reader(&link, bs); std::string sent, got; std::vector<std::pair<PinnedBuffer, std::string>> pins; int reads = 0;
  while (src.more(30)) {
    VF_SPAN(src);
    if (src.flip()) { std::string s = src.bytes(40); for (auto &ch : s) ch = (char) ('a' + (sent.size() + (&ch - s.data())) % 26); raw.chunk(1 + src.draw(30)); raw.feed(s); sent += s; continue; }
    size_t n = 1 + src.draw(src.flip() ? 2 * bs + 3 : 8), left = sent.size() - got.size(); int rc; std::string v; bool pinned = src.flip(); PinnedBuffer pb;
    for (int tries = 0;; tries++) { rc = pinned ? reader.consume(n, pb) : reader.consume(n, v); if (rc != 0 || raw.unread() == 0 || tries > 200) break; }
    if (rc == 0) rc = pinned ? reader.consume(n, pb) : reader.consume(n, v);
    c.require(rc >= 0, "reading failed with " + std::to_string(rc));
    c.equal(rc > 0, n <= left, "could read " + std::to_string(n) + " of " + std::to_string(left) + " bytes");
    if (rc > 0) { if (pinned) v = std::string(pb.sv()); c.equal(v, sent.substr(got.size(), n), "bytes read"); got += v; reads++; if (pinned) pins.push_back({std::move(pb), v}); }
  }
  for (auto &[p, v] : pins) c.equal(std::string(p.sv()), v, "bytes read earlier");
  raw.end(); c.nontrivial(reads > 4 && got.size() > bs);
}
VF_RULE(N01, "a stream of at least two requests which is fragmented; a stream with at least one wrong token or mutation; a request at or over a limit; more bytes read than one buffer holds");

// ------------------------------------------------------------------------------------------------ N02, formatting
static std::string genText(vf::Source &src) {
  switch (src.weighted({5, 3, 2, 1})) {
    case 0: return src.bytes(20);
    case 1: return src.over("\r\n$*:+-0123 abc", 14);
    case 2: { static const std::vector<std::string> w = {"", "\r\n", "\n", "\r", "x\r\n+OK", "\r\n:1\r\n", "$-1\r\n", std::string("\0", 1), "ok", "a\r\n\r\nb"}; return src.pick(w); }
    default: return std::string(1 + src.draw(70000), (char) ('a' + src.draw(26)));
  }
}
static std::vector<std::string> genTexts(vf::Source &src, size_t max) { std::vector<std::string> v; size_t n = src.size(max); for (size_t i = 0; i < n; i++) v.push_back(genText(src)); return v; }
// text in a line-based reply: framing intact; the text itself up to what a line cannot hold
static bool sameLine(const std::string &got, const std::string &want) {
  size_t e = want.find_first_of("\r\n"); if (e == want.npos) return got == want; return got.compare(0, e, want, 0, e) == 0;
}
static void lineEq(vf::Case &c, const Value &v, char t, const std::string &want, const std::string &what) {
  if (v.t != t || !sameLine(v.s, want)) c.fail(what + ": decodes to " + v.show() + ", expected " + std::string(1, t) + quote(want));
}
VF_PROP(N02, every_shape_decodes_to_the_intended_value, 15000, 400000, vf::kNone) {
  std::string a = genText(src), b = genText(src), d = genText(src); auto vec = genTexts(src, 8);
  static const std::vector<int64_t> ints = {0, 1, -1, 9, 10, INT64_MAX, INT64_MIN, 4294967296ll}; int64_t i64 = src.flip() ? src.pick(ints) : (int64_t) src.raw64(); uint64_t u64 = src.raw64();
  auto one = [&](const RedisEncodedResponse &r, const std::string &what) { return readOne(c, r.val, what); };
  auto eq = [&](const RedisEncodedResponse &r, const Value &want, const std::string &what) { Value v = one(r, what); if (v != want) c.fail(what + " decodes to " + v.show() + ", intended " + want.show()); };
  int shape = (int) src.draw(24); c.note("shape " + std::to_string(shape) + " a=" + quote(a, 80) + " b=" + quote(b, 80) + " vec=" + vf::Case::show(vec)); c.label("shape " + std::to_string(shape));
  RedisRequest req; for (auto &x : vec) req.push_back(x); if (!vec.empty()) req.parseCommand();
  switch (shape) {
    case 0: lineEq(c, one(Formatter::err(a), "err"), '-', "ERR " + a, "err"); break;
    case 1: { Value v = one(Formatter::errArgs(a), "errArgs"); lineEq(c, v, '-', "ERR wrong number of arguments for '" + a + "' command", "errArgs"); break; }
    case 2: eq(Formatter::string(a), vStr(a), "string"); break;
    case 3: lineEq(c, one(Formatter::status(a), "status"), '+', a, "status"); break;
    case 4: eq(Formatter::integer(i64), vInt(i64), "integer"); break;
    case 5: eq(Formatter::vector(vec), vStrs(vec), "vector"); break;
    case 6: { Value v = one(Formatter::statusVector(vec), "statusVector"); c.require(v.t == '*', "statusVector is not an array"); c.equal(v.v.size(), vec.size(), "statusVector length"); for (size_t i = 0; i < vec.size(); i++) lineEq(c, v.v[i], '+', vec[i], "statusVector"); break; }
    case 7: eq(Formatter::scan(a, vec), vArr({vStr(a), vStrs(vec)}), "scan"); break;
    case 8: lineEq(c, one(Formatter::noauth(a), "noauth"), '-', "NOAUTH " + a, "noauth"); break;
    case 9: eq(Formatter::versionedVector(u64, vec), vArr({vUint(u64), vStrs(vec)}), "versionedVector"); break;
    case 10: { std::vector<std::pair<std::string_view, std::string_view>> p; std::vector<std::string> flat; for (size_t i = 0; i + 1 < vec.size(); i += 2) { p.push_back({vec[i], vec[i + 1]}); flat.push_back(vec[i]); flat.push_back(vec[i + 1]); } eq(Formatter::vhashRevision(u64, p), vArr({vUint(u64), vStrs(flat)}), "vhashRevision"); break; }
    case 11: { size_t k = 1 + src.draw(5); auto r = Formatter::multiply(Formatter::string(a), k); RespReader rd(r.val); for (size_t i = 0; i < k; i++) { auto v = rd.read(); if (!v || *v != vStr(a)) c.fail("multiply: reply " + std::to_string(i) + " is wrong"); } c.require(rd.atEnd(), "multiply: trailing bytes"); break; }
    case 12: { std::vector<std::vector<std::string>> data; for (size_t i = 0; i < vec.size(); i++) data.push_back(genTexts(src, 4)); Value v = one(Formatter::vectorsWithHeaders(vec, data), "vectorsWithHeaders"); c.require(v.t == '*', "not an array"); c.equal(v.v.size(), vec.size(), "sections");
      for (size_t i = 0; i < vec.size(); i++) { c.require(v.v[i].t == '*' && v.v[i].v.size() == 2 && v.v[i].v[1].t == '*', "a section is not a header and a list"); lineEq(c, v.v[i].v[0], '+', vec[i], "section header"); c.equal(v.v[i].v[1].v.size(), data[i].size(), "section length"); for (size_t j = 0; j < data[i].size(); j++) lineEq(c, v.v[i].v[1].v[j], '+', data[i][j], "section line"); } break; }
    case 13: { Statistics s; s.reads = (int64_t) src.draw(1000); s.writes = (int64_t) src.draw(1000); s.txread = (int64_t) src.draw(1000); s.txreadwrite = (int64_t) src.draw(1000); Value v = one(Formatter::stats(s), "stats"); c.require(v.t == '*' && v.v.size() == 4, "stats: " + v.show());
      c.equal(v.v[0].s, "TOTAL-READS " + std::to_string(s.reads), "stats"); c.equal(v.v[1].s, "TOTAL-WRITES " + std::to_string(s.writes), "stats"); c.equal(v.v[2].s, "TOTAL-TXREAD " + std::to_string(s.txread), "stats"); c.equal(v.v[3].s, "TOTAL-TXREADWRITE " + std::to_string(s.txreadwrite), "stats"); break; }
    case 14: case 15: case 16: case 17: {
      size_t n = src.draw(100000); bool push = src.flip(); const char *w[] = {"subscribe", "psubscribe", "unsubscribe", "punsubscribe"}; int k = shape - 14;
      auto r = k == 0 ? Formatter::subscribe(push, a, n) : k == 1 ? Formatter::psubscribe(push, a, n) : k == 2 ? Formatter::unsubscribe(push, a, n) : Formatter::punsubscribe(push, a, n);
      eq(r, push ? Value{'>', "", {vStr("pubsub"), vStr(w[k]), vStr(a), vUint(n)}} : vArr({vStr(w[k]), vStr(a), vUint(n)}), w[k]); break; }
    case 18: { bool push = src.flip(); Value want = push ? Value{'>', "", {vStr("pubsub"), vStr("message"), vStr(a), vStr(b)}} : vArr({vStr("message"), vStr(a), vStr(b)}); eq(Formatter::message(push, a, b), want, "message"); break; }
    case 19: { bool push = src.flip(); Value want = push ? Value{'>', "", {vStr("pubsub"), vStr("pmessage"), vStr(a), vStr(b), vStr(d)}} : vArr({vStr("pmessage"), vStr(a), vStr(b), vStr(d)}); eq(Formatter::pmessage(push, a, b, d), want, "pmessage"); break; }
    case 20: { // log entries
      if (vec.empty()) vec.push_back("x"); RaftEntry e; e.term = i64; for (auto &x : vec) e.request.push_back(x); bool raw = src.flip(); bool indexed = src.flip(); LogIndex idx = (LogIndex) src.draw(1000);
      std::vector<Value> w; if (indexed) w.push_back(vStr("INDEX: " + std::to_string(idx))); w.push_back(vStr("TERM: " + std::to_string(i64))); w.push_back(vStrs(vec));
      eq(Formatter::raftEntry(e, raw, indexed ? idx : -1), vArr(w), "raftEntry"); break; }
    case 21: { // a logged transaction, shown unpacked; malformed ones must not break anything
      Transaction tx; size_t k = 1 + src.draw(4); std::vector<Value> w{vStr("")}; for (size_t i = 0; i < k; i++) { Args q = {"SET", genText(src), genText(src)}; tx.push_back(toRequest(q)); w.push_back(vStrs(q)); }
      tx.setPhantom(src.flip()); std::string body = tx.serialize(); bool broken = src.chance(1, 3); RedisRequest r; std::string name = broken && src.flip() ? "TX_READONLY" : "TX_READWRITE"; r.push_back(name); w[0] = vStr(name);
      if (broken) { switch (src.draw(4)) { case 0: break; case 1: body = genText(src); r.push_back(body); break; case 2: body.resize(src.draw(body.size())); r.push_back(body); r.push_back("real"); break; default: r.push_back(body); r.push_back("real"); r.push_back("extra"); } } else { r.push_back(body); r.push_back(src.flip() ? "real" : "phantom"); }
      r.parseCommand(); RaftEntry e; e.term = 3; for (size_t i = 0; i < r.size(); i++) e.request.push_back(r[i]); e.request.parseCommand();
      Value v = one(Formatter::redisRequest(r), "transaction"); Value v2 = one(Formatter::raftEntry(e, false), "entry holding a transaction");
      if (!broken) { if (v != vArr(w)) c.fail("a transaction is shown as " + v.show() + ", expected " + vArr(w).show()); }
      break; }
    case 22: { std::vector<HealthIndicator> ind; size_t k = src.draw(4); for (size_t i = 0; i < k; i++) ind.emplace_back((HealthStatus) src.draw(3), genText(src), genText(src)); NodeHealth nh(src.flip() ? a : "v1", b, ind); Value v = one(Formatter::nodeHealth(nh), "nodeHealth"); c.require(v.t == '*', "nodeHealth is not an array"); c.equal(v.v.size(), 3 + (size_t) !b.empty() + k, "nodeHealth lines"); break; }
    default: { // arrays of replies
      size_t k = 1 + src.draw(6); bool phantom = src.flip(); ArrayResponseBuilder ab(k, phantom); std::vector<Value> w; for (size_t i = 0; i < k; i++) switch (src.draw(4)) { case 0: ab.push_back(Formatter::string(a)); w.push_back(vStr(a)); break; case 1: ab.push_back(Formatter::integer(i64)); w.push_back(vInt(i64)); break; case 2: ab.push_back(Formatter::null()); w.push_back(vNull()); break; default: ab.push_back(Formatter::vector(vec)); w.push_back(vStrs(vec)); }
      std::string wire = ab.buildResponse().val; if (!phantom) { Value v = readOne(c, wire, "array"); if (v != vArr(w)) c.fail("array decodes to " + v.show() + ", intended " + vArr(w).show()); } else { RespReader rd(wire); for (size_t i = 0; i < k; i++) { auto v = rd.read(); if (!v || *v != w[i]) c.fail("pipelined replies: number " + std::to_string(i) + " is wrong"); } c.require(rd.atEnd(), "pipelined replies: trailing bytes"); }
    }
  }
  bool hostile = false; for (auto *s : {&a, &b, &d}) if (s->find_first_of("\r\n") != s->npos) hostile = true; for (auto &s : vec) if (s.find_first_of("\r\n") != s.npos) hostile = true;
  c.nontrivial(hostile || vec.size() > 1);
}

// ------------------------------------------------------------------------------------------------ N03
static const std::vector<std::pair<std::string, bool>> kTxCommands = {{"GET", false}, {"SET", true}, {"HGETALL", false}, {"HMSET", true}, {"DEL", true}, {"sadd", true}, {"vhset", true}, {"LEASE-GET", true}, {"exists", false}, {"FLUSHALL", true}, {"RAW-SCAN", false}, {"timestamped_lease_get", true}};
struct GenTx { std::vector<Args> cmds; bool writes = false, phantom = false; Transaction tx; };
static void genTx(vf::Source &src, GenTx &g, size_t max) {
  size_t n = 1 + src.size(max - 1); g.phantom = src.flip();
  for (size_t i = 0; i < n; i++) { VF_SPAN(src); auto &k = src.pick(kTxCommands); Args a{k.first}; size_t m = src.size(5); for (size_t j = 0; j < m; j++) a.push_back(src.chance(1, 30) ? std::string(src.draw(70000), 'z') : src.bytes(14)); g.writes |= k.second; g.cmds.push_back(a); g.tx.push_back(toRequest(a)); }
  g.tx.setPhantom(g.phantom);
}
static void sameTx(vf::Case &c, Transaction &got, const std::vector<Args> &want, bool writes, bool phantom, const std::string &what) {
  c.equal(got.size(), want.size(), what + ": number of commands");
  for (size_t i = 0; i < want.size(); i++) { Args a = argsOf(got[i]); if (a != want[i]) c.fail(what + ": command " + std::to_string(i) + " became " + showArgs(a) + ", was " + showArgs(want[i])); RedisRequest ref = toRequest(want[i]); c.require(got[i].getCommand() == ref.getCommand() && got[i].getCommandType() == ref.getCommandType(), what + ": command " + std::to_string(i) + " is no longer recognised as " + want[i][0]); }
  c.equal(got.containsWrites(), writes, what + ": contains writes"); c.equal(got.isPhantom(), phantom, what + ": pipelined rather than MULTI");
  c.equal((size_t) got.expectedResponses(), phantom ? want.size() : (size_t) 1, what + ": replies expected");
}
VF_PROP(N03, round_trip, 6000, 150000, vf::kNone) {
  GenTx g; genTx(src, g, src.chance(1, 20) ? 120 : 6); for (auto &a : g.cmds) c.note(showArgs(a)); c.note(g.phantom ? "pipelined" : "MULTI");
  sameTx(c, g.tx, g.cmds, g.writes, g.phantom, "built");
  c.equal(g.tx.getFusedCommand(), std::string(g.writes ? "TX_READWRITE" : "TX_READONLY"), "kind of transaction");
  { Exact wire(g.tx.serialize()); Transaction t; c.require(t.deserialize(PinnedBuffer(wire.view())), "its own encoding is refused"); t.setPhantom(g.phantom); sameTx(c, t, g.cmds, g.writes, g.phantom, "read back"); }
  RedisRequest r = g.tx.toRedisRequest();
  if (g.phantom && g.cmds.size() == 1) { c.equal(argsOf(r), g.cmds[0], "a lone pipelined command as a request"); Transaction t(toRequest(g.cmds[0])); sameTx(c, t, g.cmds, g.writes, true, "a lone command"); }
  else {
    c.equal(r.size(), (size_t) 3, "elements of the request"); c.require(r.getCommandType() == (g.writes ? CommandType::WRITE : CommandType::READ), "the request is not classified like its contents");
    Transaction t; c.require(t.deserialize(r), "its own request is refused"); sameTx(c, t, g.cmds, g.writes, g.phantom, "read back from the request");
    Transaction u; u.fromRedisRequest(r); sameTx(c, u, g.cmds, g.writes, g.phantom, "unpacked from the request");
    // the log stores it, older names included
    RedisRequest old; old.push_back(g.writes ? "multiop_readwrite" : "MULTIOP_READ"); old.push_back(r[1]); old.push_back(r[2]); old.parseCommand(); Transaction w; c.require(w.deserialize(old), "the older name is refused"); sameTx(c, w, g.cmds, g.writes, g.phantom, "read back under the older name");
    RaftEntry e; e.term = 7; e.request = r; std::string stored = e.serialize(); RaftEntry e2; RaftEntry::deserialize(e2, stored); c.equal(e2.term, (RaftTerm) 7, "term of the stored entry"); Transaction x; c.require(x.deserialize(e2.request), "refused after having been logged"); sameTx(c, x, g.cmds, g.writes, g.phantom, "read back from the log");
  }
  // a cleared transaction is reusable
  g.tx.clear(); c.equal(g.tx.size(), (size_t) 0, "commands after clearing"); c.equal(g.tx.containsWrites(), false, "writes after clearing"); c.equal(g.tx.isPhantom(), false, "pipelined after clearing"); g.tx.push_back(toRequest({"GET", "x"})); c.equal(g.tx.getFusedCommand(), std::string("TX_READONLY"), "kind after clearing and reusing");
  c.nontrivial(g.cmds.size() > 1);
}
VF_PROP(N03, corrupted_encodings_are_refused, 12000, 400000, vf::kNone) {
  GenTx g; genTx(src, g, 4); std::string wire = g.tx.serialize(); std::string orig = wire; size_t n = 1 + src.draw(3);
  for (size_t i = 0; i < n && !wire.empty(); i++) {
    size_t p = src.draw(wire.size());
    switch (src.weighted({3, 3, 2, 2, 4})) {
      case 0: wire[p] = (char) (wire[p] ^ (1 << src.draw(8))); break;
      case 1: wire.resize(p); break;
      case 2: wire += src.bytes(9); break;
      case 3: wire.erase(p, 1 + src.draw(9)); break;
      default: { static const std::vector<uint64_t> v = {0, 1, 2, ~0ull, 1ull << 63, (1ull << 63) - 1, 0xffffffffull, 1ull << 32, 1ull << 62, ~0ull - 8}; if (wire.size() >= 8) { size_t q = src.flip() ? 0 : src.draw(wire.size() - 7); wire.replace(q, 8, be8(src.pick(v))); } }
    }
  }
  c.note(quote(wire, 200)); Exact ex(wire); Transaction t; bool ok = t.deserialize(PinnedBuffer(ex.view()));
  // independent reading
  auto ref = [&](std::vector<Args> &out) -> bool {
    size_t at = 0; auto num = [&](uint64_t &v) { if (wire.size() - at < 8) return false; v = unbe8(std::string_view(wire).substr(at, 8)); at += 8; return (v >> 63) == 0; };
    uint64_t k; if (!num(k)) return false;
    for (uint64_t i = 0; i < k; i++) { uint64_t m; if (!num(m) || m == 0) return false; Args a; for (uint64_t j = 0; j < m; j++) { uint64_t len; if (!num(len) || wire.size() - at < len) return false; a.push_back(wire.substr(at, len)); at += len; } RedisRequest r = toRequest(a); if (r.getCommandType() != CommandType::READ && r.getCommandType() != CommandType::WRITE) return false; out.push_back(a); }
    return at == wire.size();
  };
  std::vector<Args> want; bool good = ref(want);
  c.equal(ok, good, "accepted"); if (ok) { c.equal(t.size(), want.size(), "commands"); for (size_t i = 0; i < want.size(); i++) c.equal(argsOf(t[i]), want[i], "command " + std::to_string(i)); } else { c.equal(t.size(), (size_t) 0, "commands left behind by a refused encoding"); c.equal(t.containsWrites(), false, "writes left behind by a refused encoding"); }
  // as a request: also the label and the kind have to fit
  static const std::vector<std::string> labels = {"phantom", "real", "", "Real", "phantomx"}; static const std::vector<std::string> names = {"TX_READWRITE", "TX_READONLY", "tx_readonly", "SET", "TX_READWRIT", "multiop_read"};
  Args q = {src.pick(names), wire, src.pick(labels)}; if (src.chance(1, 8)) q.pop_back(); if (src.chance(1, 12)) q.push_back("x"); RedisRequest r = toRequest(q); Transaction t2; bool ok2 = t2.deserialize(r);
  bool writes = false; for (auto &a : want) writes |= toRequest(a).getCommandType() == CommandType::WRITE; std::string nm = lower(q[0]);
  bool should = good && q.size() == 3 && (q[2] == "phantom" || q[2] == "real") && ((nm == "tx_readwrite" && writes) || ((nm == "tx_readonly" || nm == "multiop_read") && !writes));
  c.equal(ok2, should, "request " + showArgs(q) + " accepted"); if (ok2) c.equal(t2.isPhantom(), q[2] == "phantom", "pipelined");
  // describing it never fails, whatever it holds (it is shown to administrators watching the commands go by)
  r.toPrintableString(); { RaftEntry e; e.term = 1; e.request = r; RedisRequest rr = r; (void) Formatter::redisRequest(rr); }
  c.nontrivial(wire != orig); c.label(good ? "still valid" : "invalid");
}
VF_RULE(N03, "a transaction of at least two commands; an encoding which was changed");

// ------------------------------------------------------------------------------------------------ N06
namespace {
struct Cmd { const char *name; RedisCommand cmd; CommandType type; };
using R = RedisCommand; using T = CommandType;
// the documented names, written down independently of the implementation's table
const std::vector<Cmd> kCommands = {
  {"ping", R::PING, T::CONTROL}, {"debug", R::DEBUG, T::CONTROL}, {"monitor", R::MONITOR, T::CONTROL}, {"client_id", R::CLIENT_ID, T::CONTROL}, {"client", R::CLIENT, T::CONTROL}, {"command_stats", R::COMMAND_STATS, T::CONTROL}, {"activate_push_types", R::ACTIVATE_PUSH_TYPES, T::CONTROL}, {"exec", R::EXEC, T::CONTROL}, {"discard", R::DISCARD, T::CONTROL}, {"multi", R::MULTI, T::CONTROL}, {"convert_string_to_int", R::CONVERT_STRING_TO_INT, T::CONTROL}, {"convert_int_to_string", R::CONVERT_INT_TO_STRING, T::CONTROL},
  {"auth", R::AUTH, T::AUTHENTICATION}, {"hmac_auth_generate_challenge", R::HMAC_AUTH_GENERATE_CHALLENGE, T::AUTHENTICATION}, {"hmac_auth_validate_challenge", R::HMAC_AUTH_VALIDATE_CHALLENGE, T::AUTHENTICATION},
  {"get", R::GET, T::READ}, {"exists", R::EXISTS, T::READ}, {"keys", R::KEYS, T::READ}, {"scan", R::SCAN, T::READ}, {"hget", R::HGET, T::READ}, {"hexists", R::HEXISTS, T::READ}, {"hkeys", R::HKEYS, T::READ}, {"hgetall", R::HGETALL, T::READ}, {"hlen", R::HLEN, T::READ}, {"hvals", R::HVALS, T::READ}, {"hscan", R::HSCAN, T::READ}, {"sismember", R::SISMEMBER, T::READ}, {"smembers", R::SMEMBERS, T::READ}, {"scard", R::SCARD, T::READ}, {"sscan", R::SSCAN, T::READ}, {"deque_len", R::DEQUE_LEN, T::READ}, {"deque_scan_back", R::DEQUE_SCAN_BACK, T::READ}, {"config_get", R::CONFIG_GET, T::READ}, {"config_getall", R::CONFIG_GETALL, T::READ}, {"lhget", R::LHGET, T::READ}, {"lhlen", R::LHLEN, T::READ}, {"lhscan", R::LHSCAN, T::READ}, {"lhget_with_fallback", R::LHGET_WITH_FALLBACK, T::READ}, {"raw_scan", R::RAW_SCAN, T::READ}, {"raw_scan_tombstones", R::RAW_SCAN_TOMBSTONES, T::READ}, {"raw_get_all_versions", R::RAW_GET_ALL_VERSIONS, T::READ}, {"clock_get", R::CLOCK_GET, T::READ}, {"type", R::TYPE, T::READ}, {"vhgetall", R::VHGETALL, T::READ}, {"vhlen", R::VHLEN, T::READ}, {"lease_get_pending_expiration_events", R::LEASE_GET_PENDING_EXPIRATION_EVENTS, T::READ}, {"tx_readonly", R::TX_READONLY, T::READ}, {"multiop_read", R::TX_READONLY, T::READ},
  {"flushall", R::FLUSHALL, T::WRITE}, {"set", R::SET, T::WRITE}, {"del", R::DEL, T::WRITE}, {"hset", R::HSET, T::WRITE}, {"hmset", R::HMSET, T::WRITE}, {"hsetnx", R::HSETNX, T::WRITE}, {"hincrby", R::HINCRBY, T::WRITE}, {"hincrbyfloat", R::HINCRBYFLOAT, T::WRITE}, {"hincrbymulti", R::HINCRBYMULTI, T::WRITE}, {"hdel", R::HDEL, T::WRITE}, {"hclone", R::HCLONE, T::WRITE}, {"sadd", R::SADD, T::WRITE}, {"srem", R::SREM, T::WRITE}, {"smove", R::SMOVE, T::WRITE}, {"deque_push_front", R::DEQUE_PUSH_FRONT, T::WRITE}, {"deque_push_back", R::DEQUE_PUSH_BACK, T::WRITE}, {"deque_pop_front", R::DEQUE_POP_FRONT, T::WRITE}, {"deque_pop_back", R::DEQUE_POP_BACK, T::WRITE}, {"deque_trim_front", R::DEQUE_TRIM_FRONT, T::WRITE}, {"deque_clear", R::DEQUE_CLEAR, T::WRITE}, {"config_set", R::CONFIG_SET, T::WRITE}, {"lhset", R::LHSET, T::WRITE}, {"lhmset", R::LHMSET, T::WRITE}, {"lhdel", R::LHDEL, T::WRITE}, {"lhlocdel", R::LHLOCDEL, T::WRITE}, {"lhset_and_del_fallback", R::LHSET_AND_DEL_FALLBACK, T::WRITE}, {"lhdel_with_fallback", R::LHDEL_WITH_FALLBACK, T::WRITE}, {"convert_hash_field_to_lhash", R::CONVERT_HASH_FIELD_TO_LHASH, T::WRITE}, {"lease_acquire", R::LEASE_ACQUIRE, T::WRITE}, {"lease_get", R::LEASE_GET, T::WRITE}, {"lease_release", R::LEASE_RELEASE, T::WRITE}, {"timestamped_lease_acquire", R::TIMESTAMPED_LEASE_ACQUIRE, T::WRITE}, {"timestamped_lease_get", R::TIMESTAMPED_LEASE_GET, T::WRITE}, {"timestamped_lease_release", R::TIMESTAMPED_LEASE_RELEASE, T::WRITE}, {"vhset", R::VHSET, T::WRITE}, {"vhdel", R::VHDEL, T::WRITE}, {"artificially_slow_write_never_use_this", R::ARTIFICIALLY_SLOW_WRITE_NEVER_USE_THIS, T::WRITE}, {"tx_readwrite", R::TX_READWRITE, T::WRITE}, {"multiop_readwrite", R::TX_READWRITE, T::WRITE},
  {"raft_handshake", R::RAFT_HANDSHAKE, T::RAFT}, {"raft_append_entries", R::RAFT_APPEND_ENTRIES, T::RAFT}, {"raft_info", R::RAFT_INFO, T::RAFT}, {"raft_leader_info", R::RAFT_LEADER_INFO, T::RAFT}, {"raft_request_vote", R::RAFT_REQUEST_VOTE, T::RAFT}, {"raft_request_pre_vote", R::RAFT_REQUEST_PRE_VOTE, T::RAFT}, {"raft_fetch", R::RAFT_FETCH, T::RAFT}, {"raft_fetch_last", R::RAFT_FETCH_LAST, T::RAFT}, {"raft_attempt_coup", R::RAFT_ATTEMPT_COUP, T::RAFT}, {"raft_add_observer", R::RAFT_ADD_OBSERVER, T::RAFT}, {"raft_remove_member", R::RAFT_REMOVE_MEMBER, T::RAFT}, {"raft_promote_observer", R::RAFT_PROMOTE_OBSERVER, T::RAFT}, {"raft_demote_to_observer", R::RAFT_DEMOTE_TO_OBSERVER, T::RAFT}, {"raft_heartbeat", R::RAFT_HEARTBEAT, T::RAFT}, {"raft_journal_scan", R::RAFT_JOURNAL_SCAN, T::RAFT}, {"raft_set_fsync_policy", R::RAFT_SET_FSYNC_POLICY, T::RAFT}, {"raft_observe_term", R::RAFT_OBSERVE_TERM, T::RAFT}, {"raft_journal_manual_compaction", R::RAFT_JOURNAL_MANUAL_COMPACTION, T::RAFT}, {"activate_stale_reads", R::ACTIVATE_STALE_READS, T::RAFT},
  {"quarkdb_info", R::QUARKDB_INFO, T::QUARKDB}, {"quarkdb_detach", R::QUARKDB_DETACH, T::QUARKDB}, {"quarkdb_attach", R::QUARKDB_ATTACH, T::QUARKDB}, {"quarkdb_start_resilvering", R::QUARKDB_START_RESILVERING, T::QUARKDB}, {"quarkdb_finish_resilvering", R::QUARKDB_FINISH_RESILVERING, T::QUARKDB}, {"quarkdb_resilvering_copy_file", R::QUARKDB_RESILVERING_COPY_FILE, T::QUARKDB}, {"quarkdb_cancel_resilvering", R::QUARKDB_CANCEL_RESILVERING, T::QUARKDB}, {"quarkdb_bulkload_finalize", R::QUARKDB_BULKLOAD_FINALIZE, T::QUARKDB}, {"quarkdb_invalid_command", R::QUARKDB_INVALID_COMMAND, T::QUARKDB}, {"quarkdb_manual_compaction", R::QUARKDB_MANUAL_COMPACTION, T::QUARKDB}, {"quarkdb_level_stats", R::QUARKDB_LEVEL_STATS, T::QUARKDB}, {"quarkdb_compression_stats", R::QUARKDB_COMPRESSION_STATS, T::QUARKDB}, {"quarkdb_version", R::QUARKDB_VERSION, T::QUARKDB}, {"quarkdb_checkpoint", R::QUARKDB_CHECKPOINT, T::QUARKDB}, {"raft_checkpoint", R::QUARKDB_CHECKPOINT, T::QUARKDB}, {"quarkdb_health", R::QUARKDB_HEALTH, T::QUARKDB}, {"quarkdb_verify_checksum", R::QUARKDB_VERIFY_CHECKSUM, T::QUARKDB},
  {"recovery_info", R::RECOVERY_INFO, T::RECOVERY}, {"recovery_set", R::RECOVERY_SET, T::RECOVERY}, {"recovery_get", R::RECOVERY_GET, T::RECOVERY}, {"recovery_del", R::RECOVERY_DEL, T::RECOVERY}, {"recovery_force_reconfigure_journal", R::RECOVERY_FORCE_RECONFIGURE_JOURNAL, T::RECOVERY}, {"recovery_scan", R::RECOVERY_SCAN, T::RECOVERY}, {"recovery_get_all_versions", R::RECOVERY_GET_ALL_VERSIONS, T::RECOVERY},
  {"publish", R::PUBLISH, T::PUBSUB}, {"subscribe", R::SUBSCRIBE, T::PUBSUB}, {"psubscribe", R::PSUBSCRIBE, T::PUBSUB}, {"unsubscribe", R::UNSUBSCRIBE, T::PUBSUB}, {"punsubscribe", R::PUNSUBSCRIBE, T::PUBSUB},
};
std::string fold(std::string s) { for (auto &ch : s) { if (ch >= 'A' && ch <= 'Z') ch = (char) (ch + 32); if (ch == '-') ch = '_'; } return s; }
const Cmd *byName(const std::string &s) { static std::map<std::string, const Cmd *> m; if (m.empty()) for (auto &k : kCommands) m[k.name] = &k; auto it = m.find(fold(s)); return it == m.end() ? nullptr : it->second; }
void checkName(vf::Case &c, const std::string &s) {
  Exact e(s); RedisRequest r; r.emplace_back(std::string(s)); const Cmd *want = byName(s);
  auto is = [&](RedisCommand got, CommandType type, const char *how) { if (got != (want ? want->cmd : R::INVALID) || type != (want ? want->type : T::INVALID)) c.fail(quote(s) + (want ? " is not recognised as " + std::string(want->name) : " is taken for a command") + " (" + how + ": command " + std::to_string((int) got) + ", class " + std::to_string((int) type) + ")"); };
  is(r.getCommand(), r.getCommandType(), "as a request");
  RedisRequest q; q.push_back(e.view()); q.push_back("GET"); is(q.getCommand(), q.getCommandType(), "with an argument"); q.invalidate(); q.parseCommand(); is(q.getCommand(), q.getCommandType(), "parsed again");
  auto it = redis_cmd_map.find(e.view()); is(it == redis_cmd_map.end() ? R::INVALID : it->second.first, it == redis_cmd_map.end() ? T::INVALID : it->second.second, "looked up");
}
}
VF_PROP(N06, names_in_any_spelling, 30000, 1000000, vf::kNone) {
  const Cmd &k = src.pick(kCommands); std::string s = k.name; int what = (int) src.draw(8);
  if (what >= 1) for (auto &ch : s) { if (ch >= 'a' && ch <= 'z' && src.flip()) ch = (char) (ch - 32); if (ch == '_' && src.flip()) ch = '-'; }
  switch (what) {
    case 2: s.erase(src.draw(s.size()), 1); break;
    case 3: { static const std::string extra("_- \0\r\nas1", 9); s.insert(src.draw(s.size() + 1), 1, src.flip() ? extra[src.draw(extra.size())] : (char) src.draw(256)); break; }
    case 4: s[src.draw(s.size())] = (char) src.draw(256); break;
    case 5: { size_t p = src.draw(s.size()); s[p] = (char) (s[p] ^ (1 << src.draw(8))); break; }
    case 6: s = s.substr(0, src.draw(s.size() + 1)); break;
    case 7: { const Cmd &o = src.pick(kCommands); size_t p = src.draw(s.size()); s = s.substr(0, p) + std::string(o.name).substr(std::min(p, strlen(o.name))); break; }
    default: break;
  }
  c.note(quote(s)); checkName(c, s); c.label(byName(s) ? "a command" : "not a command"); c.nontrivial(what > 0);
}
VF_PROP(N06, table_is_complete, 8, 16, vf::kNone) {
  // every name the implementation knows is documented, every documented one is known
  (void) src.draw(2); for (auto &k : kCommands) checkName(c, k.name);
  for (auto &[name, v] : redis_cmd_map) if (!byName(name)) c.fail("undocumented command name " + quote(name));
  c.equal(redis_cmd_map.size(), kCommands.size(), "number of command names"); c.nontrivial();
}
VF_PROP(N06, case_insensitive_comparisons, 6000, 100000, vf::kNone) {
  // the comparison used for sub-commands, and the ordering behind the command table
  std::string a = src.flip() ? src.bytes(8) : src.over("aAzZ@[`{-_09", 6), b = src.flip() ? a : src.over("aAzZ@[`{-_09", 6); for (auto &ch : b) if (isalpha((unsigned char) ch) && src.flip()) ch = (char) (ch ^ 32); if (src.chance(1, 4) && !b.empty()) b.pop_back(); if (src.chance(1, 4)) b += src.bytes(1);
  Exact ea(a), eb(b); c.note(quote(a) + " " + quote(b)); bool got = caseInsensitiveEquals(ea.view(), eb.view()); auto asciiFold = [](std::string s) { for (auto &ch : s) if (ch >= 'A' && ch <= 'Z') ch = (char) (ch + 32); return s; };
  bool want = asciiFold(a) == asciiFold(b), wantFolded = fold(a) == fold(b);
  if (got != want && got != wantFolded) c.fail("comparing " + quote(a) + " with " + quote(b) + " gives " + (got ? "equal" : "different"));
  // the ordering is a strict weak order consistent with equality
  CommandComparator lt; std::string d = src.over("aAzZ@[`{-_09", 6); Exact ed(d); bool ab = lt(ea.view(), eb.view()), ba = lt(eb.view(), ea.view()); c.require(!(ab && ba), "both smaller"); c.equal(!ab && !ba, wantFolded, "equivalent in the command table"); if (ab && lt(eb.view(), ed.view())) c.require(lt(ea.view(), ed.view()), "the ordering of names is not transitive");
  c.nontrivial(!a.empty() && !b.empty());
}
VF_RULE(N06, "a name in another spelling or changed; the whole table; two non-empty strings");
