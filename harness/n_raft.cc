// R06 what raft messages mean, R07 what is committed, R08 leases and elections.
#include "store.hh"
#include "Formatter.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftCommon.hh"
#include "raft/RaftContactDetails.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftState.hh"
#include "raft/RaftTalker.hh"
#include "raft/RaftTimeouts.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftVoteRegistry.hh"
#include <qclient/QClient.hh>
#include <algorithm>
#include <filesystem>
using namespace quarkdb;
using vf::quote;
using qclient::redisReplyPtr;

namespace {
// ---------------------------------------------------------------- a network which records what is said
redisReply *rawReply(const Value &v) {
  switch (v.t) {
    case '+': return qclient::makeText(REDIS_REPLY_STATUS, v.s);
    case '-': return qclient::makeText(REDIS_REPLY_ERROR, v.s);
    case '$': return qclient::makeText(REDIS_REPLY_STRING, v.s);
    case ':': return qclient::makeInteger(std::stoll(v.s));
    case '0': return qclient::makeReply(REDIS_REPLY_NIL);
    default: { std::vector<redisReply *> e; for (auto &x : v.v) e.push_back(rawReply(x)); return qclient::makeArray(e); }
  }
}
redisReplyPtr reply(const Value &v) { return qclient::own(rawReply(v)); }
struct Net : qclient::Transport {
  struct Said { std::string host; int port; Args request; };
  std::vector<Said> said; std::vector<Args> handshakes; std::function<std::future<redisReplyPtr>(const Said &)> answer;
  std::vector<std::promise<redisReplyPtr>> kept;   // replies which never come
  struct Ch : qclient::Channel {
    Net &n; std::string host; int port; Ch(Net &n_, std::string h, int p) : n(n_), host(std::move(h)), port(p) {}
    std::future<redisReplyPtr> submit(std::vector<std::string> &&r) override { n.said.push_back({host, port, r}); return n.answer ? n.answer(n.said.back()) : qclient::noReply(); }
  };
  std::unique_ptr<qclient::Channel> connect(const std::string &h, int p, qclient::Options &o) override { for (auto &x : o.handshakes) handshakes.push_back(x->provideHandshake()); return std::make_unique<Ch>(*this, h, p); }
  Net() { qclient::transport() = this; }
  ~Net() { qclient::transport() = nullptr; }
  static std::future<redisReplyPtr> now(redisReplyPtr r) { std::promise<redisReplyPtr> p; p.set_value(std::move(r)); return p.get_future(); }
  std::future<redisReplyPtr> never() { kept.emplace_back(); return kept.back().get_future(); }
};

int64_t genNum(vf::Source &src) {
  switch (src.draw(6)) { case 0: return (int64_t) src.draw(5); case 1: return (int64_t) src.draw(100000); case 2: return -1; case 3: return INT64_MAX - (int64_t) src.draw(3); case 4: return INT64_MIN + (int64_t) src.draw(3); default: return (int64_t) src.raw64(); }
}
RaftServer genServer(vf::Source &src) {
  static const std::vector<std::string> hosts = {"server0", "a.b-c.example.org", "::1", "x", "10.0.0.1", "\xc3\xa9t\xc3\xa9", "a b"}; std::string h = src.pick(hosts); for (auto &ch : h) if (ch == ':') ch = '.';
  static const std::vector<int> ports = {1094, 7777, 0, -1, 65535, INT32_MAX, INT32_MIN}; return RaftServer{h, src.pick(ports)};
}
Args genRequest(vf::Source &src, bool empty = true) {
  Args a; size_t n = (empty ? 0 : 1) + src.size(6); for (size_t i = 0; i < n; i++) a.push_back(src.chance(1, 4) ? "" : src.bytes(src.chance(1, 12) ? 3000 : 12)); return a;
}
RedisRequest req(const Args &a) { RedisRequest r; for (auto &x : a) r.emplace_back(x.data(), x.size()); return r; }
Args args(const RedisRequest &r) { Args a; for (size_t i = 0; i < r.size(); i++) a.emplace_back(r[i]); return a; }
std::string le8(int64_t v) { std::string s(8, 0); memcpy(&s[0], &v, 8); return s; }   // as the machine stores it
std::string packEntry(int64_t term, const Args &a) { std::string s = le8(term); for (auto &x : a) s += le8((int64_t) x.size()) + x; return s; }
// an independent reading of a packed log entry
bool readEntry(std::string_view s, int64_t &term, Args &a) {
  a.clear(); if (s.size() < 8) return false; memcpy(&term, s.data(), 8); s.remove_prefix(8);
  while (!s.empty()) { if (s.size() < 8) return false; int64_t n; memcpy(&n, s.data(), 8); s.remove_prefix(8); if (n < 0 || (uint64_t) n > s.size()) return false; a.emplace_back(s.substr(0, (size_t) n)); s.remove_prefix((size_t) n); }
  return true;
}
bool readNum(const std::string &s, int64_t &v) {   // strict decimal
  size_t i = s.size() && s[0] == '-' ? 1 : 0; if (i == s.size()) return false; for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false;
  errno = 0; v = strtoll(s.c_str(), nullptr, 10); return errno == 0;
}
bool readServer(const std::string &s, RaftServer &r) { auto p = s.find(':'); if (p == s.npos || p == 0 || s.find(':', p + 1) != s.npos || s.find_first_of(",|") != s.npos) return false; int64_t port; if (!readNum(s.substr(p + 1), port) || port < INT32_MIN || port > INT32_MAX) return false; r = RaftServer{s.substr(0, p), (int) port}; return true; }
const RaftContactDetails &contact() { static RaftContactDetails cd("cluster-id", defaultTimeouts, ""); return cd; }
bool sameServer(const RaftServer &a, const RaftServer &b) { return a.hostname == b.hostname && a.port == b.port; }
std::string mutate(vf::Source &src, std::string s) {
  switch (src.draw(6)) {
    case 0: s.resize(src.draw(s.size() + 1)); break;
    case 1: s.insert(src.draw(s.size() + 1), 1 + src.draw(9), (char) src.draw(256)); break;
    case 2: if (!s.empty()) s[src.draw(s.size())] ^= (char) (1 << src.draw(8)); break;
    case 3: if (s.size() >= 8) { size_t at = 8 * src.draw(s.size() / 8); static const std::vector<int64_t> odd = {-1, 0, 1, 8, INT64_MAX, INT64_MIN, INT64_MAX - 7, INT32_MAX, (int64_t) 1 << 32, -8, -16, ((int64_t) 1 << 32) + 1, (int64_t) 1 << 61}; std::string v = src.flip() ? le8(src.pick(odd)) : be8((uint64_t) src.pick(odd)); s.replace(at, 8, v); } break;
    case 4: s = src.bytes(60); break;
    default: if (!s.empty()) s.erase(src.draw(s.size()), 1 + src.draw(8)); break;
  }
  return s;
}
}

// ------------------------------------------------------------------------------------------------ R06
VF_PROP(R06, requests, 30000, 800000, vf::kNone) {
  Net net; RaftServer target{"target", 1234}; RaftTalker talker(target, contact(), "a name"); bool sawHandshake = false;
  for (auto &h : net.handshakes) if (h[0] == "RAFT_HANDSHAKE") { sawHandshake = true; c.require(h.size() == 4 && h[2] == "cluster-id", "handshake " + showArgs(h)); RaftTimeouts t = aggressiveTimeouts; c.require(RaftTimeouts::fromString(t, h[3]) && t == defaultTimeouts, "the timeouts in the handshake read back differently: " + quote(h[3])); }
  c.require(sawHandshake, "no raft handshake");
  RaftServer leader = genServer(src); int64_t term = genNum(src); size_t binary = 0;
  auto last = [&] { c.require(net.said.size() == 1, "not exactly one request sent"); Args a = net.said[0].request; c.require(net.said[0].host == "target" && net.said[0].port == 1234, "sent to another server"); net.said.clear(); return a; };
  auto command = [&](const Args &a, RedisCommand want) { RedisRequest r = req(a); c.require(r.getCommand() == want, "recognized as another command: " + showArgs(a)); return r; };
  switch (src.weighted({6, 2, 2, 1})) {
    case 0: {
      int64_t prevIndex = genNum(src), commit = genNum(src), prevTerm = genNum(src); if (prevTerm > term) std::swap(prevTerm, term);
      std::vector<RaftEntry> entries; std::vector<RaftSerializedEntry> packed; size_t n = src.size(9); if (src.chance(1, 30)) n = 600;
      for (size_t i = 0; i < n; i++) { int64_t t = genNum(src); if (t > term) t = term; Args a = genRequest(src); for (auto &x : a) for (char ch : x) if ((unsigned char) ch < 32) { binary++; break; } RaftEntry e(t, req(a)); c.equal(quote(e.serialize()), quote(packEntry(t, a)), "packed entry"); entries.push_back(e); packed.push_back(e.serialize()); c.equal(RaftEntry::fetchTerm(packed.back()), t, "term of a packed entry"); }
      talker.appendEntries(term, leader, prevIndex, prevTerm, commit, packed); RedisRequest r = command(last(), RedisCommand::RAFT_APPEND_ENTRIES); RaftAppendEntriesRequest d;
      c.require(RaftParser::appendEntries(std::move(r), d), "the receiver cannot read the request"); c.require(sameServer(d.leader, leader), "leader differs: " + d.leader.toString()); c.equal(d.term, term, "term"); c.equal(d.prevIndex, prevIndex, "prevIndex"); c.equal(d.prevTerm, prevTerm, "prevTerm"); c.equal(d.commitIndex, commit, "commitIndex"); c.equal(d.entries.size(), entries.size(), "number of entries");
      for (size_t i = 0; i < entries.size(); i++) { c.equal(d.entries[i].term, entries[i].term, "term of entry " + std::to_string(i)); c.require(args(d.entries[i].request) == args(entries[i].request), "entry " + std::to_string(i) + " reads {" + showArgs(args(d.entries[i].request)) + "}, sent {" + showArgs(args(entries[i].request)) + "}"); }
      c.nontrivial(n > 1 && binary > 0); break; }
    case 1: { talker.heartbeat(term, leader); RedisRequest r = command(last(), RedisCommand::RAFT_HEARTBEAT); RaftHeartbeatRequest d; c.require(RaftParser::heartbeat(r, d), "the receiver cannot read the heartbeat"); c.equal(d.term, term, "term"); c.require(sameServer(d.leader, leader), "leader differs"); c.nontrivial(); break; }
    case 2: { bool pre = src.flip(); RaftVoteRequest v; v.term = term; v.candidate = leader; v.lastIndex = genNum(src); v.lastTerm = genNum(src); talker.requestVote(v, pre); RedisRequest r = command(last(), pre ? RedisCommand::RAFT_REQUEST_PRE_VOTE : RedisCommand::RAFT_REQUEST_VOTE); RaftVoteRequest d; c.require(RaftParser::voteRequest(r, d), "the receiver cannot read the vote request"); c.equal(d.term, term, "term"); c.require(sameServer(d.candidate, leader), "candidate differs"); c.equal(d.lastIndex, v.lastIndex, "lastIndex"); c.equal(d.lastTerm, v.lastTerm, "lastTerm"); c.nontrivial(); break; }
    default: {
      std::string id = src.bytes(20), name = src.bytes(20), data = src.bytes(200); talker.resilveringStart(id); Args a = last(); command(a, RedisCommand::QUARKDB_START_RESILVERING); c.require(a.size() == 2 && a[1] == id, "start of resilvering");
      talker.resilveringCopy(id, name, data); a = last(); command(a, RedisCommand::QUARKDB_RESILVERING_COPY_FILE); c.require(a.size() == 4 && a[1] == id && a[2] == name && a[3] == data, "copied file"); talker.resilveringFinish(id); a = last(); command(a, RedisCommand::QUARKDB_FINISH_RESILVERING); c.require(a.size() == 2 && a[1] == id, "end of resilvering");
      talker.fetch(term); a = last(); command(a, RedisCommand::RAFT_FETCH); c.require(a.size() == 2 && a[1] == std::to_string(term), "fetch"); c.nontrivial(); }
  }
}
VF_PROP(R06, responses, 30000, 800000, vf::kNone) {
  int64_t term = genNum(src), size = genNum(src); bool ok = src.flip(); std::string err = src.bytes(40);
  switch (src.draw(4)) {
    case 0: { RaftAppendEntriesResponse d, s(term, size, ok, err); c.require(RaftParser::appendEntriesResponse(reply(readOne(c, Formatter::vector(s.toVector()).val, "response")), d), "the response cannot be read"); c.equal(d.term, term, "term"); c.equal(d.logSize, size, "log size"); c.equal(d.outcome, ok, "outcome"); c.equal(d.err, err, "error"); break; }
    case 1: { RaftHeartbeatResponse d, s{term, ok, err}; c.require(RaftParser::heartbeatResponse(reply(readOne(c, Formatter::vector(s.toVector()).val, "response")), d), "the response cannot be read"); c.equal(d.term, term, "term"); c.equal(d.nodeRecognizedAsLeader, ok, "recognized"); c.equal(d.err, err, "error"); break; }
    case 2: { static const std::vector<RaftVote> votes = {RaftVote::GRANTED, RaftVote::REFUSED, RaftVote::VETO}; RaftVoteResponse d, s(term, src.pick(votes)); c.require(RaftParser::voteResponse(reply(readOne(c, Formatter::vector(s.toVector()).val, "response")), d), "the response cannot be read"); c.equal(d.term, term, "term"); c.require(d.vote == s.vote, "another vote arrived"); break; }
    default: {
      std::vector<RaftEntry> es; std::vector<Args> reqs; size_t n = src.size(6); bool raw = src.flip();
      for (size_t i = 0; i < n; i++) { Args a = genRequest(src, false); if (lower(a[0]).rfind("tx", 0) == 0) a[0] = "SET"; es.emplace_back(genNum(src), req(a)); reqs.push_back(a); }
      std::vector<RaftEntry> d; c.require(RaftParser::fetchLastResponse(reply(readOne(c, Formatter::raftEntries(es, raw).val, "entries")), d), "the entries cannot be read"); c.equal(d.size(), n, "number of entries"); for (size_t i = 0; i < n; i++) { c.equal(d[i].term, es[i].term, "term"); c.require(args(d[i].request) == reqs[i], "entry " + std::to_string(i) + " differs"); }
      std::vector<RaftEntryWithIndex> wi; std::vector<Value> want; for (size_t i = 0; i < n; i++) { int64_t ix = (int64_t) src.draw(1000); wi.emplace_back(es[i], ix); want.push_back(vArr({vStr("INDEX: " + std::to_string(ix)), vStr("TERM: " + std::to_string(es[i].term)), vStrs(reqs[i])})); } int64_t cur = src.flip() ? 0 : (int64_t) src.draw(1000000); c.equal(readOne(c, Formatter::journalScan(cur, wi).val, "journal scan"), vArr({vStr(cur ? "next:" + std::to_string(cur) : "0"), vArr(want)}), "journal scan"); break; }
  }
  c.nontrivial();
}
// whatever arrives is either read exactly as written or refused
VF_PROP(R06, malformed_requests, 60000, 1500000, vf::kNone) {
  RaftServer leader = genServer(src); int64_t term = genNum(src); Args a; int which = (int) src.weighted({6, 1, 1});
  if (which == 0) { size_t n = src.size(4); a = {"RAFT_APPEND_ENTRIES", leader.toString(), be8((uint64_t) term) + be8((uint64_t) genNum(src)) + be8((uint64_t) genNum(src)) + be8((uint64_t) genNum(src)) + be8(n)}; for (size_t i = 0; i < n; i++) a.push_back(packEntry(genNum(src), genRequest(src))); }
  else if (which == 1) a = {"RAFT_HEARTBEAT", std::to_string(term), leader.toString()}; else a = {"RAFT_REQUEST_VOTE", std::to_string(term), leader.toString(), std::to_string(genNum(src)), std::to_string(genNum(src))};
  size_t k = 1 + src.size(2); for (size_t i = 0; i < k; i++) { VF_SPAN(src); size_t at = 1 + src.draw(a.size() - 1); switch (src.draw(8)) { case 0: a.erase(a.begin() + (long) at); break; case 1: a.insert(a.begin() + (long) at, src.bytes(30)); break; case 2: a[at] = src.over("0123456789:,|-+ x", 12); break; default: a[at] = mutate(src, a[at]); } if (a.size() < 2) break; }
  // strtoll and the like accept a leading blank or plus, on which nothing is promised
  for (size_t i = 1; i < a.size() && which; i++) if (a[i].find_first_of("+ \t\n\v\f\r") != std::string::npos || a[i].find('\0') != std::string::npos) c.discard(); if (a.size() > 1 && (a[1].find_first_of("+ \t\n\v\f\r") != std::string::npos || a[1].find('\0') != std::string::npos)) c.discard();
  bool good = false, got = false; std::vector<std::unique_ptr<Exact>> hold; RaftServer srv; int64_t x, y, z;
  if (which == 0) {
    std::vector<std::pair<int64_t, Args>> es; good = a.size() >= 3 && readServer(a[1], srv) && a[2].size() == 40; auto num = [&](int i) { uint64_t v = 0; for (int b = 0; b < 8; b++) v = v << 8 | (unsigned char) a[2][(size_t) (i * 8 + b)]; return (int64_t) v; };
    if (good && (num(4) < 0 || (uint64_t) num(4) != a.size() - 3)) good = false; for (size_t i = 3; good && i < a.size(); i++) { int64_t t; Args e; good = readEntry(a[i], t, e); es.push_back({t, e}); }
    RaftAppendEntriesRequest d; c.note(showArgs(a)); got = RaftParser::appendEntries(req(a), d);
    if (got && good) { c.require(sameServer(d.leader, srv) && d.term == num(0) && d.prevIndex == num(1) && d.prevTerm == num(2) && d.commitIndex == num(3) && d.entries.size() == es.size(), "the request reads differently from what was sent"); for (size_t i = 0; i < es.size(); i++) c.require(d.entries[i].term == es[i].first && args(d.entries[i].request) == es[i].second, "entry " + std::to_string(i) + " reads differently"); }
  } else if (which == 1) { good = a.size() == 3 && readNum(a[1], x) && readServer(a[2], srv); RaftHeartbeatRequest d; c.note(showArgs(a)); got = RaftParser::heartbeat(req(a), d); if (got && good) c.require(d.term == x && sameServer(d.leader, srv), "the heartbeat reads differently"); }
  else { good = a.size() == 5 && readNum(a[1], x) && readServer(a[2], srv) && readNum(a[3], y) && readNum(a[4], z); RaftVoteRequest d; RedisRequest r = req(a); c.note(showArgs(a)); got = RaftParser::voteRequest(r, d); if (got && good) c.require(d.term == x && sameServer(d.candidate, srv) && d.lastIndex == y && d.lastTerm == z, "the vote request reads differently"); }
  c.equal(got, good, "accepted " + showArgs(a)); c.nontrivial(!good);
}
VF_PROP(R06, malformed_responses, 40000, 800000, vf::kNone) {
  std::function<Value(int)> gen = [&](int depth) -> Value {
    switch (src.weighted({6, 1, 1, 1, 1, 1})) {
      case 0: { static const std::vector<std::string> words = {"0", "1", "2", "-1", "granted", "refused", "veto", "Granted", "", "TERM: 5", "TERM: ", "TERM:5", "TERM: x", "INDEX: 1", "9223372036854775808", "12", "grantedx", "grante"}; return vStr(src.pick(words)); }
      case 1: return vInt(genNum(src)); case 2: return vErr(src.flip() ? "ERR unavailable" : "E"); case 3: return vStatus("OK"); case 4: return vNull();
      default: { std::vector<Value> v; size_t n = depth > 2 ? 0 : src.size(5); for (size_t i = 0; i < n; i++) v.push_back(gen(depth + 1)); return vArr(v); }
    }
  };
  Value v; if (src.chance(1, 5)) v = gen(0); else { std::vector<Value> e; size_t n = 2 + src.draw(4); for (size_t i = 0; i < n; i++) e.push_back(gen(1)); v = vArr(e); } c.note(v.show()); auto p = reply(v);
  auto strs = [&](const Value &x, size_t n) { if (x.t != '*' || x.v.size() != n) return false; for (auto &y : x.v) if (y.t != '$') return false; return true; }; int64_t t, s; bool bit = true;
  auto isBit = [&](const std::string &q) { bit = q == "1"; return q == "0" || q == "1"; };
  { RaftAppendEntriesResponse d; bool good = strs(v, 4) && readNum(v.v[0].s, t) && readNum(v.v[1].s, s) && isBit(v.v[2].s); c.equal(RaftParser::appendEntriesResponse(p, d), good, "accepted as response to append-entries"); if (good) c.require(d.term == t && d.logSize == s && d.outcome == bit && d.err == v.v[3].s, "read differently"); }
  { RaftHeartbeatResponse d; bool good = strs(v, 3) && readNum(v.v[0].s, t) && isBit(v.v[1].s); c.equal(RaftParser::heartbeatResponse(p, d), good, "accepted as response to a heartbeat"); if (good) c.require(d.term == t && d.nodeRecognizedAsLeader == bit && d.err == v.v[2].s, "read differently"); }
  { RaftVoteResponse d; bool good = strs(v, 2) && readNum(v.v[0].s, t) && (v.v[1].s == "granted" || v.v[1].s == "refused" || v.v[1].s == "veto"); c.equal(RaftParser::voteResponse(p, d), good, "accepted as a vote"); if (good) c.require(d.term == t && d.vote == (v.v[1].s == "granted" ? RaftVote::GRANTED : v.v[1].s == "veto" ? RaftVote::VETO : RaftVote::REFUSED), "read as another vote"); }
  auto entry = [&](const Value &x, int64_t &term, Args &a) { a.clear(); if (x.t != '*' || x.v.size() != 2 || x.v[0].t != '$' || x.v[1].t != '*' || x.v[0].s.rfind("TERM: ", 0) != 0 || !readNum(x.v[0].s.substr(6), term)) return false; for (auto &y : x.v[1].v) { if (y.t != '$') return false; a.push_back(y.s); } return true; };
  { RaftEntry d; Args a; bool good = entry(v, t, a); c.equal(RaftParser::fetchResponse(p.get(), d), good, "accepted as a log entry"); if (good) c.require(d.term == t && args(d.request) == a, "read differently"); }
  { std::vector<RaftEntry> d; bool good = v.t == '*'; Args a; if (good) for (auto &x : v.v) good = good && entry(x, t, a); c.equal(RaftParser::fetchLastResponse(p, d), good, "accepted as log entries"); }
  c.require(!RaftParser::appendEntriesResponse(nullptr, *std::make_unique<RaftAppendEntriesResponse>()), "no reply at all was accepted"); c.nontrivial(v.t == '*' && v.v.size() > 1);
}
VF_RULE(R06, "requests with several entries or other messages sent and read back, or a message which is really malformed");

// ------------------------------------------------------------------------------------------------ R07
namespace {
const std::vector<RaftServer> &peers() { static std::vector<RaftServer> v; if (v.empty()) for (int i = 0; i < 9; i++) v.push_back({"server" + std::to_string(i), i}); return v; }
std::vector<RaftServer> subset(vf::Source &src, size_t lo, size_t hi) { std::vector<RaftServer> all = peers(), r; size_t n = lo + src.draw(hi - lo + 1); while (r.size() < n) { size_t i = src.draw(all.size()); r.push_back(all[i]); all.erase(all.begin() + (long) i); } return r; }
std::string names(const std::vector<RaftServer> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x.toString(); return s; }
}
VF_PROP(R07, majority, 2500, 20000, vf::kNone) {
  std::string path = c.scratch() + "/journal"; RaftServer me{"me", 1}; std::vector<RaftServer> initial = subset(src, 1, 6); RaftJournal::ObliterateAndReinitializeJournal(path, "c", initial, 0, FsyncPolicy::kAsync); RaftJournal j(path); LogIndex size = 1;
  auto grow = [&](size_t n) { for (size_t i = 0; i < n; i++) { c.require(j.append(size, RaftEntry(0, "SET", "a", "b")), "append refused"); size++; } }; grow(1 + src.draw(20)); j.setCommitIndex((LogIndex) src.draw((uint64_t) size));
  RaftCommitTracker t(j); std::map<std::string, std::pair<RaftServer, LogIndex>> match; std::vector<RaftServer> targets; bool ever = false; LogIndex commit = j.getCommitIndex(), lazy = commit; int moved = 0, changes = 0, backwards = 0;
  auto majority = [&] { std::vector<LogIndex> v{size - 1}; for (auto &s : targets) { auto it = match.find(s.toString()); v.push_back(it == match.end() ? 0 : it->second.second); } std::sort(v.rbegin(), v.rend()); return v[v.size() / 2]; };   // held by more than half
  auto retarget = [&] { targets = subset(src, 1, 6); c.note("members: me," + names(targets)); t.updateTargets(targets); ever = true; changes++; }; retarget();
  while (src.more(30)) {
    VF_SPAN(src);
    switch (src.weighted({12, 3, 1, 1})) {
      case 0: {
        RaftServer s = src.chance(1, 5) ? src.pick(peers()) : src.pick(targets); auto &m = match[s.toString()]; m.first = s; LogIndex to; if (src.chance(1, 10)) { to = (LogIndex) src.draw((uint64_t) size); if (to < m.second) backwards++; } else to = std::min<LogIndex>(size - 1, m.second + (LogIndex) src.draw(8));
        m.second = to; c.note(s.toString() + " holds entries up to " + std::to_string(to)); t.getHandler(s).update(to); c.equal(t.getHandler(s).get(), to, "match index"); LogIndex now = majority(); if (to > lazy && now > lazy) lazy = now; break; }
      case 1: grow(1 + src.draw(8)); c.note("log grows to " + std::to_string(size)); break;
      case 2: retarget(); break;
      default: { match.clear(); c.note("a new term"); t.reset(); retarget(); }
    }
    LogIndex got = j.getCommitIndex(); c.require(got >= commit, "the commit index went back from " + std::to_string(commit) + " to " + std::to_string(got)); if (got > commit) { moved++; c.require(got <= majority(), "committed up to " + std::to_string(got) + ", but a majority holds only " + std::to_string(majority())); }
    c.require(got < size, "committed beyond the log"); c.require(got >= lazy, "a majority of members holds entries up to " + std::to_string(lazy) + ", but only " + std::to_string(got) + " are committed"); commit = got; lazy = std::max(lazy, got);
  }
  (void) ever; c.nontrivial(moved > 1 && changes > 1); if (backwards) c.label("progress taken back");
}
VF_PROP(R07, alone_and_not_alone, 24, 400, vf::kConcurrent) {
  std::string path = c.scratch() + "/journal"; std::vector<RaftServer> initial = subset(src, 1, 3); RaftJournal::ObliterateAndReinitializeJournal(path, "c", initial, 0, FsyncPolicy::kAsync); RaftJournal j(path); LogIndex size = 1;
  auto grow = [&](size_t n) { for (size_t i = 0; i < n; i++) { c.require(j.append(size, RaftEntry(0, "SET", "a", "b")), "append refused"); size++; } }; RaftCommitTracker t(j); auto at = [&] { return j.getCommitIndex(); };
  auto reaches = [&](LogIndex want) { for (int i = 0; i < 20000 && at() < want; i++) usleep(1000); c.equal(at(), want, "committed by a node alone"); };
  for (int round = 0; round < 2; round++) {
    grow(1 + src.draw(4)); LogIndex before = at(); std::vector<RaftServer> others = subset(src, 1, 3); t.updateTargets(others); before = at(); grow(1 + src.draw(4)); usleep(1000 * src.draw(20)); c.equal(at(), before, "committed without anybody else"); if (others.size() > 2) { t.getHandler(others[0]).update(size - 1); c.equal(at(), before, "committed without a majority"); }
    t.updateTargets({}); reaches(size - 1); grow(1 + src.draw(4)); reaches(size - 1);
  }
  t.updateTargets(subset(src, 1, 3)); LogIndex before = at(); grow(3); usleep(1000 * src.draw(20)); c.equal(at(), before, "committed without anybody else, after having been alone"); c.nontrivial();
}
VF_RULE(R07, "sequences in which the commit index advanced more than once and membership changed; or a cluster which shrank to one and grew again");

// ------------------------------------------------------------------------------------------------ R08
VF_PROP(R08, lease, 20000, 100000, vf::kNone) {
  using TP = std::chrono::steady_clock::time_point; auto ms = [](int64_t x) { return std::chrono::milliseconds(x); }; int64_t dur = (int64_t) src.draw(2000); TP zero = std::chrono::steady_clock::now(); std::vector<RaftServer> targets = subset(src, 0, 7); RaftLease lease(targets, ms(dur)); std::map<std::string, TP> heard; c.note("lease of " + std::to_string(dur) + " ms, members me," + names(targets)); int checks = 0, kinds = 0;
  while (src.more(25)) {
    VF_SPAN(src);
    switch (src.weighted({8, 1})) {
      case 0: { RaftServer s = src.chance(1, 5) || targets.empty() ? src.pick(peers()) : src.pick(targets); TP at = zero + ms((int64_t) src.draw(3000)); if (src.chance(1, 10)) at = TP(); lease.getHandler(s).heartbeat(at); auto &h = heard[s.toString()]; h = std::max(h, at); c.require(lease.getHandler(s).get() == h, "last contact"); c.note(s.toString() + " heard at " + std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(at - zero).count())); break; }
      default: targets = subset(src, 0, 7); lease.updateTargets(targets); c.note("members me," + names(targets)); kinds++; break;
    }
    size_t n = targets.size() + 1, need = n / 2 + 1; std::vector<TP> v; for (auto &s : targets) v.push_back(heard[s.toString()]); std::sort(v.rbegin(), v.rend());
    TP before = std::chrono::steady_clock::now(), d = lease.getDeadline(), sh = lease.getShakyQuorumDeadline(), after = std::chrono::steady_clock::now();
    if (n == 1) { c.require(d >= before + ms(dur) && d <= after + ms(dur), "a node alone has lost its lease"); c.require(sh >= before + ms(dur) && sh <= after + ms(dur), "a node alone is shaky"); continue; }
    // with myself, need-1 others keep the lease
    auto show = [&](TP t) { return std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(t - zero).count()); }; TP want = v[need - 2] + ms(dur); if (d != want) c.fail("the lease of " + std::to_string(n) + " members ends at " + show(d) + ", a majority was last heard until " + show(want));
    TP wantShaky = v[std::min(need, n - 1) - 1] + ms(dur); if (sh != wantShaky) c.fail("the quorum is shaky from " + show(sh) + ", expected " + show(wantShaky)); c.require(sh <= d, "shaky only after the lease is over"); checks++;
  }
  c.nontrivial(checks > 5 && kinds > 0);
}
VF_PROP(R08, elections, 3000, 20000, vf::kNone) {
  std::string path = c.scratch() + "/journal"; RaftServer me{"me", 1}; std::vector<RaftServer> others = subset(src, 0, 6), all = others; all.insert(all.begin() + (long) src.draw(all.size() + 1), me); RaftJournal::ObliterateAndReinitializeJournal(path, "c", all, 0, FsyncPolicy::kAsync); RaftJournal j(path); RaftState st(j, me);
  RaftTimeouts quick(std::chrono::milliseconds(1), std::chrono::milliseconds(2), std::chrono::milliseconds(src.chance(1, 20) ? 1 : 2)); RaftContactDetails cd("c", quick, ""); RaftLease lease(others, std::chrono::seconds(3600)); bool pre = src.flip();
  RaftTerm term = 1 + (RaftTerm) src.draw(100); LogIndex size = 1; size_t extra = src.draw(4); for (size_t i = 0; i < extra; i++) { c.require(j.append(size, RaftEntry(0, "SET", "a", "b")), "append"); size++; }
  c.require(st.observed(term, {}), "term not observed"); if (!pre) c.require(st.becomeCandidate(term), "cannot become a candidate");
  // one reply per member
  enum { kGrant, kRefuse, kVeto, kGarbage, kNull, kNever }; std::map<std::string, int> plan; RaftTerm highest = term; size_t granted = 1, vetoes = 0, garbage = 0; std::map<std::string, Value> values; bool allowNever = src.chance(1, 6);
  for (auto &s : others) {
    int k = (int) src.weighted({5, 3, 1, 1, 2, allowNever ? 2u : 0u}); plan[s.toString()] = k; RaftTerm their = src.chance(1, 6) ? term + 1 + (RaftTerm) src.draw(3) : term; if (k == kGrant) their = std::min(their, pre ? term + 1 : term);   // nobody grants while in a newer term
    if (k <= kVeto) highest = std::max(highest, their); granted += k == kGrant; vetoes += k == kVeto; garbage += k == kGarbage; static const std::vector<std::string> words = {"granted", "refused", "veto"};
    if (k <= kVeto) values[s.toString()] = vStrs({std::to_string(their), words[(size_t) k]}); else if (k == kGarbage) { static const std::vector<Value> bad = {vErr("ERR unavailable"), vErr("MOVED 0 a:1"), vStrs({"x", "granted"}), vStrs({"5", "grantedd"}), vStatus("OK"), vInt(1), vNull(), vStrs({"5", "granted", "x"})}; values[s.toString()] = src.pick(bad); }
    static const std::vector<std::string> show = {"grants", "refuses", "vetoes", "answers nonsense", "is unreachable", "never answers"}; c.note(s.toString() + " " + show[(size_t) k] + (k <= kVeto ? " in term " + std::to_string(their) : ""));
  }
  Net net; net.answer = [&](const Net::Said &s) { std::string who = s.host + ":" + std::to_string(s.port); auto it = plan.find(who); if (it == plan.end() || it->second == kNull) return Net::now(nullptr); if (it->second == kNever) return net.never(); return Net::now(reply(values[who])); };
  RaftVoteRequest v; v.term = pre ? term + 1 : term; v.lastIndex = size - 1; v.lastTerm = 0; auto t0 = std::chrono::steady_clock::now(); ElectionOutcome got = pre ? RaftElection::performPreVote(v, st, cd) : RaftElection::perform(v, st, lease, cd); auto t1 = std::chrono::steady_clock::now();
  size_t yes = granted + (pre ? garbage : 0), need = (others.size() + 1) / 2 + 1; ElectionOutcome want = vetoes ? ElectionOutcome::kVetoed : yes >= need ? ElectionOutcome::kElected : ElectionOutcome::kNotElected; if (want == ElectionOutcome::kElected && !pre && highest > term) want = ElectionOutcome::kNotElected;
  auto name = [](ElectionOutcome o) { return std::string(o == ElectionOutcome::kElected ? "elected" : o == ElectionOutcome::kVetoed ? "vetoed" : "not elected"); }; c.equal(name(got), name(want), std::string(pre ? "pre-vote" : "election") + " with " + std::to_string(yes) + " of " + std::to_string(others.size() + 1) + " votes, " + std::to_string(vetoes) + " vetoes");
  // whoever was asked
  std::map<std::string, int> asked; for (auto &s : net.said) { asked[s.host + ":" + std::to_string(s.port)]++; c.require(s.request == Args({pre ? "RAFT_REQUEST_PRE_VOTE" : "RAFT_REQUEST_VOTE", std::to_string(v.term), me.toString(), std::to_string(size - 1), "0"}), "asked " + showArgs(s.request)); } c.equal(asked.size(), others.size(), "number of members asked"); for (auto &s : others) c.equal(asked[s.toString()], 1, "times " + s.toString() + " was asked");
  auto snap = st.getSnapshot(); if (pre) { if (want != ElectionOutcome::kElected || highest == term) c.equal(snap->term, highest, "term after a pre-vote"); else c.require(snap->term == term || snap->term == highest, "term after a pre-vote"); c.require(snap->votedFor.empty() && snap->status == RaftStatus::FOLLOWER && j.getLogSize() == size, "a pre-vote changed something"); c.nontrivial(others.size() > 1); return; }
  c.equal(snap->term, highest, "term after the election"); bool won = want == ElectionOutcome::kElected; c.require((snap->status == RaftStatus::LEADER) == won, "leadership does not follow from the election"); c.equal(j.getLogSize(), size + (won ? 1 : 0), "log size after the election"); if (won) { RaftTerm mt; c.require(snap->leader == me && snap->leadershipMarker == size && j.fetch(size, mt).ok() && mt == term, "no leadership marker"); }
  for (auto &s : others) { auto at = lease.getHandler(s).get(); bool fresh = at >= t0 && at <= t1; c.equal(fresh, plan[s.toString()] == kGrant, s.toString() + " counted as in contact"); }
  c.nontrivial(others.size() > 1);
}
VF_PROP(R08, vote_registry, 20000, 100000, vf::kNone) {
  bool pre = src.flip(); RaftVoteRegistry r(5, pre); std::vector<RaftServer> v = subset(src, 0, 9); size_t yes = 1, no = 0, veto = 0, net = 0, bad = 0; std::vector<std::promise<redisReplyPtr>> keep;
  for (auto &s : v) {
    int k = (int) src.draw(5); bool fut = src.flip(); std::future<redisReplyPtr> f; auto now = std::chrono::steady_clock::now(); auto word = [&](const char *w) { f = Net::now(reply(vStrs({"5", w}))); };
    switch (k) {
      case 0: yes++; if (fut) word("granted"); else r.registerVote(s, RaftVoteResponse(5, RaftVote::GRANTED)); break;
      case 1: no++; if (fut) word("refused"); else r.registerVote(s, RaftVoteResponse(5, RaftVote::REFUSED)); break;
      case 2: if (src.chance(2, 3)) { no++; if (fut) word("refused"); else r.registerVote(s, RaftVoteResponse(5, RaftVote::REFUSED)); break; } veto++; if (fut) word("veto"); else r.registerVote(s, RaftVoteResponse(5, RaftVote::VETO)); break;
      case 3: net++; if (!fut) r.registerNetworkError(s); else if (src.flip()) f = Net::now(nullptr); else { keep.emplace_back(); f = keep.back().get_future(); } break;
      default: bad++; if (fut) f = Net::now(reply(vErr("ERR"))); else r.registerParseError(s);
    }
    if (fut) r.registerVote(s, f, now);
    size_t n = 1 + yes - 1 + no + veto + net + bad, count = yes + (pre ? bad : 0); ElectionOutcome want = veto ? ElectionOutcome::kVetoed : count >= n / 2 + 1 ? ElectionOutcome::kElected : ElectionOutcome::kNotElected; c.require(r.determineOutcome() == want, "outcome with " + std::to_string(count) + " of " + std::to_string(n) + " votes and " + std::to_string(veto) + " vetoes");
    c.equal(r.count(RaftVote::GRANTED), yes - 1, "granted"); c.equal(r.count(RaftVote::REFUSED), no, "refused"); c.equal(r.count(RaftVote::VETO), veto, "vetoes"); c.equal(r.countNetworkError(), net, "unreachable"); c.equal(r.countParseError(), bad, "unreadable"); r.describeOutcome();
  }
  c.nontrivial(v.size() > 2);
}
VF_RULE(R08, "lease histories with more than five checks and a membership change, elections with at least two other members");
