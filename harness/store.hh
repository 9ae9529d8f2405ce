// Driving a real StateMachine through the command dispatcher, next to the reference model.
#pragma once
#include "m_model.hh"
#include "Connection.hh"
#include "Dispatcher.hh"
#include "StateMachine.hh"
#include "Utils.hh"
#include "Xrd/XrdLink.hh"
#include "pubsub/Publisher.hh"
#include "redis/Transaction.hh"
#include "storage/StagingArea.hh"
#include "utils/InFlightTracker.hh"
#include <algorithm>
#include <condition_variable>
#include <mutex>

inline quarkdb::RedisRequest toRequest(const Args &a) { quarkdb::RedisRequest r; for (auto &x : a) r.emplace_back(std::string(x)); r.parseCommand(); return r; }

// a link whose two directions are strings
class MemLink : public XrdLink {
public:
  int Recv(char *buf, int len, int) override { std::scoped_lock l(m_); size_t n = std::min<size_t>((size_t) len, std::min(in_.size() - at_, chunk_)); memcpy(buf, in_.data() + at_, n); at_ += n; if (!n && eof_) return -1; return (int) n; }
  int Send(const char *buf, int len) override { std::unique_lock l(m_); cv_.wait(l, [&] { return !gated_; }); if (failSend_) return -1; out_.append(buf, (size_t) len); cv_.notify_all(); return len; }
  int Close(int) override { std::scoped_lock l(m_); closed_ = true; return 0; }
  void feed(std::string_view s) { std::scoped_lock l(m_); in_.append(s); }
  void end() { std::scoped_lock l(m_); eof_ = true; }
  void chunk(size_t n) { std::scoped_lock l(m_); chunk_ = n; }
  void gate(bool on) { std::scoped_lock l(m_); gated_ = on; cv_.notify_all(); }   // holds senders up
  void failSends() { std::scoped_lock l(m_); failSend_ = true; }
  size_t unread() { std::scoped_lock l(m_); return in_.size() - at_; }
  std::string sent() { std::scoped_lock l(m_); return out_; }
  bool waitSent(const std::string &needle, int ms) { std::unique_lock l(m_); return cv_.wait_for(l, std::chrono::milliseconds(ms), [&] { return out_.find(needle) != out_.npos; }); }
  bool closed() { std::scoped_lock l(m_); return closed_; }
private:
  std::mutex m_; std::condition_variable cv_; std::string in_, out_; size_t at_ = 0, chunk_ = SIZE_MAX; bool eof_ = false, failSend_ = false, closed_ = false, gated_ = false;
};

inline bool isWrite(const Args &a) { quarkdb::RedisRequest r = toRequest(a); return r.getCommandType() == quarkdb::CommandType::WRITE; }

class Store {
public:
  std::string path; std::unique_ptr<quarkdb::StateMachine> sm; quarkdb::Publisher pub; std::unique_ptr<quarkdb::RedisDispatcher> disp;
  quarkdb::LogIndex idx = 0; bool indexed;
  Store(vf::Case &c, bool indexed_, bool bulk = false) : path(c.scratch() + "/sm"), indexed(indexed_) { open(bulk); }
  Store(const std::string &p, bool indexed_) : path(p), indexed(indexed_) { open(false); }
  void open(bool bulk = false) { sm.reset(new quarkdb::StateMachine(path, true, bulk)); disp.reset(new quarkdb::RedisDispatcher(*sm, pub)); if (indexed) idx = sm->getLastApplied(); }
  void close() { disp.reset(); sm.reset(); }
  void reopen() { close(); open(); }
  std::string wire(const Args &a) { quarkdb::RedisRequest r = toRequest(a); bool w = r.getCommandType() == quarkdb::CommandType::WRITE; return disp->dispatch(r, w && indexed ? ++idx : 0).val; }
  Value run(vf::Case &c, const Args &a) { std::string w = wire(a); return readOne(c, w, showArgs(a)); }
  std::string wireTx(const std::vector<Args> &block, bool phantom) {
    quarkdb::Transaction tx; for (auto &a : block) tx.push_back(toRequest(a)); tx.setPhantom(phantom);
    return disp->dispatch(tx, tx.containsWrites() && indexed ? ++idx : 0).val;
  }
  std::vector<Value> tx(vf::Case &c, const std::vector<Args> &block, bool phantom) { return split(c, wireTx(block, phantom), block.size(), phantom); }
  static std::vector<Value> split(vf::Case &c, const std::string &w, size_t n, bool phantom) {
    if (!phantom) { Value v = readOne(c, w, "MULTI block"); c.require(v.t == '*' && v.v.size() == n, "a block of " + std::to_string(n) + " commands answered " + v.show()); return v.v; }
    RespReader r(w); std::vector<Value> out;
    for (size_t i = 0; i < n; i++) { auto v = r.read(); if (!v) c.fail("pipelined block: reply " + std::to_string(i) + " of " + std::to_string(n) + " missing or malformed: " + vf::quote(w)); out.push_back(*v); }
    c.require(r.atEnd(), "pipelined block: more replies than commands: " + vf::quote(w)); return out;
  }
  // everything stored
  std::map<std::string, std::string> raw() { std::map<std::string, std::string> m; auto it = sm->getRawIterator(); for (it->SeekToFirst(); it->Valid(); it->Next()) m[it->key().ToString()] = it->value().ToString(); return m; }
};
inline std::string diffMaps(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b, const std::string &na, const std::string &nb) {
  std::string s; int n = 0;
  for (auto &[k, v] : a) { auto it = b.find(k); if (it == b.end()) { if (n++ < 4) s += " only in " + na + ": " + vf::quote(k, 80) + " = " + vf::quote(v, 60) + ";"; } else if (it->second != v && n++ < 4) s += " " + vf::quote(k, 80) + " is " + vf::quote(v, 60) + " in " + na + " but " + vf::quote(it->second, 60) + " in " + nb + ";"; }
  for (auto &[k, v] : b) if (!a.count(k) && n++ < 4) s += " only in " + nb + ": " + vf::quote(k, 80) + " = " + vf::quote(v, 60) + ";";
  return s;
}

// ------------------------------------------------------------------------------------------------ generators
struct Pool { std::vector<std::string> keys, fields, hints, holders; uint64_t now = 0; size_t many = 0; };
inline std::string hostile(vf::Source &src, bool allowEmpty) {
  std::string s;
  switch (src.weighted({8, 4, 1})) {
    case 0: s = src.over(std::string_view("ab#|!_\0:\xff", 9), 4); break;
    case 1: { static const std::vector<std::string> w = {"key", "next:0", "__vhash@k", "_q_", "~mode", "!a", "@aaaaaaaak", "b##", "d", "i", "a##d", "a##i"}; s = src.pick(w); break; }
    default: { size_t n = (size_t) src.range(495, 520); s = std::string(n, "a#"[src.draw(2)]); s[src.draw(n)] = 'b'; }
  }
  if (!s.empty() && s.back() == '|') s.back() = 'z';   // finding S01-ESCAPE: X| and X# are not used together
  if (s.empty() && !allowEmpty) s = "a";
  return s;
}
inline std::vector<std::string> names(vf::Source &src, size_t lo, size_t hi, bool allowEmpty) {
  std::vector<std::string> v; size_t n = (size_t) src.range((int64_t) lo, (int64_t) hi);
  for (size_t i = 0; i < n; i++) {
    std::string s = !v.empty() && src.chance(1, 3) ? src.pick(v) + src.over(std::string_view("a#\0", 3), 2) : hostile(src, allowEmpty);
    if (s.empty() && !allowEmpty) s = "a";
    if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
  }
  return v;
}
inline Pool genPool(vf::Source &src, size_t lo = 2, size_t hi = 6) {
  VF_SPAN(src);
  Pool p; bool empties = src.chance(1, 4);
  p.keys = names(src, lo, hi, empties); p.fields = names(src, 3, 8, empties); p.hints = names(src, 2, 5, empties && src.chance(1, 2)); p.holders = names(src, 2, 3, empties && src.chance(1, 2));
  p.now = src.draw(3) ? src.draw(1000) : 0;
  if (src.chance(1, 24)) { p.many = 9 + (size_t) src.draw(src.flip() ? 30 : 130); for (size_t i = 0; i < p.many; i++) p.fields.push_back("m" + std::to_string(i)); if (src.chance(1, 3)) for (size_t i = 0; i < 30; i++) p.keys.push_back("n" + std::to_string(i)); }   // large collections
  return p;
}
inline std::string genValue(vf::Source &src) {
  static const std::vector<std::string> nums = {"0", "1", "-1", "10", "9223372036854775807", "-9223372036854775808", "9223372036854775806", "3.5", "-2.25", "1e3", "1e308", "abc", "12x", " 5", "007", "+4"};
  switch (src.weighted({4, 3, 2, 3, 1})) {
    case 0: return src.over("xyz", 3); case 1: return src.pick(nums); case 2: return src.bytes(12); case 3: return ""; default: return std::string((size_t) src.range(100, 700), (char) src.draw(256));
  }
}
enum Family { fStr, fHash, fSet, fDeq, fLh, fLhFallback, fVh, fLease, fKeyspace, fConfig, fCount, fFlush, nFamilies };
struct Mix { unsigned w[nFamilies] = {}; Mix(std::initializer_list<std::pair<Family, unsigned>> l) { for (auto &x : l) w[x.first] = x.second; } };

// one command; model tells which keys currently hold which type
inline Args genCommand(vf::Source &src, Pool &p, const Mix &mix, const Model &m) {
  VF_SPAN(src);
  unsigned total = 0; for (auto w : mix.w) total += w;
  unsigned r = (unsigned) src.draw(total); int f = 0; while (r >= mix.w[f]) r -= mix.w[f++];
  auto key = [&](Kind k) -> std::string {
    if (src.chance(3, 4)) { std::vector<std::string> ok; for (auto &x : p.keys) { auto o = m.find(x); if (!o || o->k == k) ok.push_back(x); } if (!ok.empty()) return src.pick(ok); }
    return src.pick(p.keys);
  };
  auto field = [&] { return src.pick(p.fields); };
  auto hint = [&] { return src.pick(p.hints); };
  auto val = [&] { return genValue(src); };
  size_t bulk = p.many && src.chance(1, 4) ? 1 + (size_t) src.draw(p.many) : 0; auto again = [&](const Args &x, size_t cap, size_t stride) { return bulk ? x.size() < 2 + bulk * stride : x.size() < cap && src.flip(); };
  auto some = [&](Args a, auto gen) { a.push_back(gen()); while (again(a, 8, 1)) a.push_back(gen()); return a; };
  Args a;
  switch (f) {
    case fStr: { auto k = key(kStr); if (src.weighted({3, 2}) == 0) a = {"SET", k, val()}; else a = {"GET", k}; break; }
    case fHash: { auto k = key(kHash);
      switch (src.weighted({5, 2, 2, 3, 2, 2, 2, 1, 1, 2, 1})) {
        case 0: a = {"HSET", k, field(), val()}; break;
        case 1: a = {"HSETNX", k, field(), val()}; break;
        case 2: a = {"HMSET", k}; do { a.push_back(field()); a.push_back(val()); } while (again(a, 10, 2)); break;
        case 3: a = some({"HDEL", k}, field); break;
        case 4: a = {"HGET", k, field()}; break;
        case 5: a = {"HGETALL", k}; break;
        case 6: a = {"HLEN", k}; break;
        case 7: a = {"HKEYS", k}; break;
        case 8: a = {"HVALS", k}; break;
        case 9: if (src.flip()) { std::string from = k, to = k; for (auto &x : p.keys) { auto o = m.find(x); if (!o) to = x; else if (o->k == kHash && (from == k || o->h.size() > m.find(from)->h.size())) from = x; } a = {"HCLONE", from, to}; } else a = {"HCLONE", k, key(kHash)}; break;
        default: a = {"HEXISTS", k, field()};
      } break; }
    case fCount: { auto k = key(kHash);
      static const std::vector<std::string> nums = {"1", "-1", "5", "0", "9223372036854775807", "-9223372036854775808", "4611686018427387904", "abc", "", "1.5", " 1", "99999999999999999999"};
      static const std::vector<std::string> fl = {"1", "-0.5", "2.25", "1e10", "1e308", "-1e308", "inf", "nan", "x", "", "0x10", "1.5 "};
      switch (src.weighted({4, 2, 3, 1})) {
        case 0: a = {"HINCRBY", k, field(), src.pick(nums)}; break;
        case 1: a = {"HINCRBYMULTI"}; do { a.push_back(key(kHash)); a.push_back(field()); a.push_back(src.pick(nums)); } while (a.size() < 10 && src.flip()); break;
        case 2: a = {"HINCRBYFLOAT", k, field(), src.pick(fl)}; break;
        default: a = {"HGET", k, field()};
      } break; }
    case fSet: { auto k = key(kSet);
      switch (src.weighted({5, 3, 3, 2, 2, 2})) {
        case 0: a = some({"SADD", k}, field); break;
        case 1: a = some({"SREM", k}, field); break;
        case 2: a = {"SMOVE", k, key(kSet), field()}; break;
        case 3: a = {"SISMEMBER", k, field()}; break;
        case 4: a = {"SMEMBERS", k}; break;
        default: a = {"SCARD", k};
      } break; }
    case fDeq: { auto k = key(kDeq); static const std::vector<std::string> keep = {"0", "1", "2", "3", "5", "9223372036854775807", "-1", "x", ""};
      switch (src.weighted({4, 4, 3, 3, 2, 1, 2})) {
        case 0: a = some({"DEQUE_PUSH_FRONT", k}, val); break;
        case 1: a = some({"DEQUE-PUSH-BACK", k}, val); break;
        case 2: a = {"DEQUE_POP_FRONT", k}; break;
        case 3: a = {"DEQUE_POP_BACK", k}; break;
        case 4: a = {"DEQUE_TRIM_FRONT", k, src.pick(keep)}; break;
        case 5: a = {"DEQUE_CLEAR", k}; break;
        default: a = {"DEQUE_LEN", k};
      } break; }
    case fLh: { auto k = key(kLh);
      switch (src.weighted({5, 3, 3, 2, 3, 1})) {
        case 0: a = {"LHSET", k, field(), hint(), val()}; break;
        case 1: a = {"LHMSET", k}; do { a.push_back(field()); a.push_back(hint()); a.push_back(val()); } while (again(a, 12, 3)); break;
        case 2: a = some({"LHDEL", k}, field); break;
        case 3: a = {"LHLOCDEL", k, field(), hint()}; break;
        case 4: a = {"LHGET", k, field()}; if (src.flip()) a.push_back(hint()); break;
        default: a = {"LHLEN", k};
      } break; }
    case fLhFallback: { auto k = key(kLh), h = key(kHash);
      switch (src.draw(5)) {
        case 0: a = {"LHSET_AND_DEL_FALLBACK", k, field(), hint(), val(), h}; break;
        case 1: a = {"LHDEL_WITH_FALLBACK", k, field(), h}; break;
        case 2: a = {"LHGET_WITH_FALLBACK", k, field()}; if (src.flip()) a.push_back(hint()); a.push_back(h); break;
        case 3: a = {"CONVERT_HASH_FIELD_TO_LHASH", h, field(), k, field(), hint()}; if (src.chance(3, 4)) a[4] = a[2]; break;
        default: a = {"HSET", h, field(), val()};
      } break; }
    case fVh: { auto k = key(kVh);
      switch (src.weighted({5, 3, 2, 1})) {
        case 0: a = {"VHSET", k, field(), val()}; break;
        case 1: a = some({"VHDEL", k}, field); break;
        case 2: a = {"VHGETALL", k}; break;
        default: a = {"VHLEN", k};
      } break; }
    case fLease: { auto k = key(kLease); static const std::vector<std::string> dur = {"1", "5", "10", "50", "1000", "0", "-5", "x", "9000000000000"};
      if (src.chance(2, 3)) p.now += src.draw(src.flip() ? 4 : 40);
      uint64_t t = src.chance(1, 6) ? p.now - std::min<uint64_t>(p.now, src.draw(30)) : p.now;
      switch (src.weighted({5, 3, 2})) {
        case 0: a = {"TIMESTAMPED_LEASE_ACQUIRE", k, src.pick(p.holders), src.pick(dur), be8(t)}; break;
        case 1: a = {"TIMESTAMPED_LEASE_GET", k, be8(t)}; break;
        default: a = {"TIMESTAMPED_LEASE_RELEASE", k, be8(t)};
      } break; }
    case fKeyspace: {
      auto k = [&] { return src.pick(p.keys); };
      switch (src.weighted({3, 2, 2})) { case 0: a = some({"DEL"}, k); break; case 1: a = some({"EXISTS"}, k); break; default: a = {"TYPE", k()}; } break; }
    case fFlush: a = {"FLUSHALL"}; break;
    case fConfig: { static const std::vector<std::string> ck = {"raft.trimming", "x", "", "a"}; switch (src.draw(3)) { case 0: a = {"CONFIG_SET", src.pick(ck), val()}; break; case 1: a = {"CONFIG-GET", src.pick(ck)}; break; default: a = {"CONFIG_GETALL"}; } break; }
  }
  // wrong number of arguments (but timestamps are appended by the server itself)
  if (f != fLease && src.chance(1, 25)) { if (src.flip() && a.size() > 1) a.pop_back(); else a.push_back(val()); }
  if (src.chance(1, 12)) a[0] = lower(a[0]);
  return a;
}

// every read of every key, compared with the model in one atomic block
inline void auditWith(vf::Case &c, const std::function<std::vector<Value>(const std::vector<Args> &)> &tx, Model &m, const Pool &p, const std::string &when) {
  std::set<std::string> ks(p.keys.begin(), p.keys.end()); for (auto &[k, o] : m.keys) ks.insert(k);
  std::vector<Args> q; q.push_back({"KEYS", "*"});
  for (auto &k : ks) {
    q.push_back({"TYPE", k}); q.push_back({"EXISTS", k}); auto o = m.find(k); if (!o) continue;
    switch (o->k) {
      case kStr: q.push_back({"GET", k}); break;
      case kHash: q.push_back({"HGETALL", k}); q.push_back({"HLEN", k}); q.push_back({"HKEYS", k}); q.push_back({"HVALS", k}); break;
      case kSet: q.push_back({"SMEMBERS", k}); q.push_back({"SCARD", k}); break;
      case kDeq: q.push_back({"DEQUE_LEN", k}); q.push_back({"DEQUE_SCAN_BACK", k, "0", "COUNT", "1000000"}); break;
      case kLh: q.push_back({"LHLEN", k}); q.push_back({"LHSCAN", k, "0", "COUNT", "1000000"}); for (auto &[f, hv] : o->lh) { q.push_back({"LHGET", k, f}); q.push_back({"LHGET", k, f, hv.first}); } break;
      case kVh: q.push_back({"VHGETALL", k}); q.push_back({"VHLEN", k}); break;
      default: break;
    }
  }
  q.push_back({"CONFIG_GETALL"});
  auto got = tx(q);
  for (size_t i = 0; i < q.size(); i++) {
    Value want; const std::string &cmd = q[i][0];
    if (cmd == "KEYS") { std::vector<std::string> w; for (auto &[k, o] : m.keys) w.push_back(k); want = vStrs(w); std::sort(got[i].v.begin(), got[i].v.end(), [](auto &x, auto &y) { return x.s < y.s; }); }
    else if (cmd == "DEQUE_SCAN_BACK") { auto &d = m.keys[q[i][1]].d; want = vArr({vStr("0"), vStrs({d.begin(), d.end()})}); }
    else if (cmd == "LHSCAN") {
      std::vector<Args> w, g; for (auto &[f, hv] : m.keys[q[i][1]].lh) w.push_back({hv.first, f, hv.second}); std::sort(w.begin(), w.end());
      if (got[i].v.size() == 2) for (size_t j = 0; j + 2 < got[i].v[1].v.size(); j += 3) g.push_back({got[i].v[1].v[j].s, got[i].v[1].v[j + 1].s, got[i].v[1].v[j + 2].s}); std::sort(g.begin(), g.end());
      if (g != w) c.fail(when + ": LHSCAN " + vf::quote(q[i][1]) + " shows " + got[i].show()); continue;
    }
    else want = m.apply(q[i]);
    if (!Model::agree(got[i], want)) c.fail(when + ": " + showArgs(q[i]) + " answers " + got[i].show() + ", expected " + want.show());
  }
}

inline void audit(vf::Case &c, Store &s, Model &m, const Pool &p, const std::string &when) { auditWith(c, [&](const std::vector<Args> &q) { return s.tx(c, q, false); }, m, p, when); }

// Independent reading of the raw storage; every inconsistency is a failure.
inline void checkRaw(vf::Case &c, const std::map<std::string, std::string> &raw, const std::string &when) {
  struct D { char type; int64_t size; uint64_t start = 0, end = 0; };
  std::map<std::string, D> desc; std::map<std::string, std::set<std::string>> fields[256]; std::map<std::string, std::map<std::string, std::string>> index; std::map<std::string, std::set<std::pair<std::string, std::string>>> data;
  std::map<std::string, std::string> strs, leases; std::map<std::string, uint64_t> events;
  auto fail = [&](const std::string &msg) { c.fail(when + ": stored data inconsistent: " + msg); };
  auto unescape = [&](std::string_view s, size_t from, std::string &out) -> size_t { out.clear(); for (size_t i = from; i < s.size(); i++) { if (s[i] == '|' && i + 1 < s.size() && s[i + 1] == '#') { out += '#'; i++; } else if (s[i] == '#') { if (i + 1 < s.size() && s[i + 1] == '#') return i + 2; return 0; } else out += s[i]; } return 0; };
  for (auto &[k, v] : raw) {
    if (k.empty()) fail("empty storage key");
    char t = k[0]; std::string name;
    switch (t) {
      case '_': case '~': break;
      case '!': {
        if (v.empty() || std::string("abcdefg").find(v[0]) == std::string::npos) fail("descriptor of " + vf::quote(k) + " is " + vf::quote(v));
        size_t want = v[0] == 'd' || v[0] == 'f' ? 25 : v[0] == 'g' ? 17 : 9; if (v.size() != want) fail("descriptor of " + vf::quote(k) + " has " + std::to_string(v.size()) + " bytes");
        D d{v[0], (int64_t) unbe8(std::string_view(v).substr(1))}; if (want >= 17) d.start = unbe8(std::string_view(v).substr(9)); if (want == 25) d.end = unbe8(std::string_view(v).substr(17)); desc[k.substr(1)] = d; break; }
      case '@': { if (k.size() < 9) fail("short expiration event"); std::string lk = k.substr(9); if (events.count(lk)) fail("two expiration events for lease " + vf::quote(lk)); events[lk] = unbe8(std::string_view(k).substr(1)); break; }
      case 'a': strs[k.substr(1)] = v; break;
      case 'f': leases[k.substr(1)] = v; break;
      case 'b': case 'c': case 'd': case 'g': { size_t at = unescape(k, 1, name); if (!at) fail("undecodable key " + vf::quote(k)); fields[(unsigned char) t][name].insert(k.substr(at)); break; }
      case 'e': {
        size_t at = unescape(k, 1, name); if (!at || at >= k.size()) fail("undecodable key " + vf::quote(k));
        if (k[at] == 'i') index[name][k.substr(at + 1)] = v;
        else if (k[at] == 'd') { std::string h; size_t at2 = unescape(k, at + 1, h); if (!at2) fail("undecodable key " + vf::quote(k)); data[name].insert({h, k.substr(at2)}); }
        else fail("undecodable key " + vf::quote(k));
        break; }
      default: fail("unknown record " + vf::quote(k));
    }
  }
  auto q = [](const std::string &s) { return vf::quote(s, 60); };
  auto owned = [&](const std::string &k, char t, const char *what) { auto it = desc.find(k); if (it == desc.end() || it->second.type != t) fail(std::string(what) + " of key " + q(k) + " belongs to no existing key of that type"); };
  for (auto &[k, v] : strs) owned(k, 'a', "value"); for (auto &[k, v] : leases) owned(k, 'f', "lease"); for (auto &[k, t] : events) owned(k, 'f', "expiration event");
  for (char t : {'b', 'c', 'd', 'g'}) for (auto &[k, f] : fields[(unsigned char) t]) owned(k, t, "element");
  for (auto &[k, x] : index) owned(k, 'e', "locality index"); for (auto &[k, x] : data) owned(k, 'e', "locality field");
  for (auto &[k, d] : desc) switch (d.type) {
    case 'a': if (!strs.count(k)) fail("string key " + q(k) + " has no value"); if (d.size != (int64_t) strs[k].size()) fail("string key " + q(k) + " records size " + std::to_string(d.size) + " but holds " + std::to_string(strs[k].size()) + " bytes"); break;
    case 'f': if (!leases.count(k)) fail("lease " + q(k) + " has no holder"); if (d.size != (int64_t) leases[k].size()) fail("lease " + q(k) + " records a wrong size"); if (!events.count(k)) fail("lease " + q(k) + " has no expiration event"); if (events[k] != d.end) fail("lease " + q(k) + " expires at " + std::to_string(d.end) + " but its event is at " + std::to_string(events[k])); if (d.start > d.end) fail("lease ends before it starts"); break;
    case 'e': {
      auto &x = index[k]; auto &y = data[k];
      if (d.size != (int64_t) x.size() || d.size != (int64_t) y.size()) fail("locality hash " + q(k) + " records size " + std::to_string(d.size) + ", has " + std::to_string(y.size()) + " fields and " + std::to_string(x.size()) + " index entries");
      for (auto &[f, h] : x) if (!y.count({h, f})) fail("locality hash " + q(k) + ": index of field " + q(f) + " points to hint " + q(h) + " where it is not stored"); if (d.size == 0) fail("empty locality hash " + q(k) + " exists"); break; }
    default: {
      auto &f = fields[(unsigned char) d.type][k];
      if (d.size != (int64_t) f.size()) fail("key " + q(k) + " of type " + d.type + " records size " + std::to_string(d.size) + " but has " + std::to_string(f.size()) + " elements");
      if (d.size == 0 && d.type != 'g') fail("empty container " + q(k) + " exists");
      if (d.type == 'd') { if (d.end - d.start - 1 != (uint64_t) d.size) fail("deque " + q(k) + " boundaries disagree with its size"); uint64_t i = d.start + 1; for (auto &x : f) if (x.size() != 8 || unbe8(x) != i++) fail("deque " + q(k) + " has a gap in its positions"); }
    }
  }
}

struct HistoryOptions {
  Mix mix; int steps = 40; bool blocks = true; bool reopen = true; bool indexed = true; bool rawChecks = false; bool noMultiVh = false;
  std::function<void(vf::Case &, Store &, Model &, const std::vector<Args> &, const std::vector<Value> &)> after;
};
inline std::vector<Args> genBlock(vf::Source &src, Pool &p, const Mix &mix, Model m, size_t maxLen) {
  std::vector<Args> block; size_t n = 1 + src.size(maxLen - 1);
  m.beginTx();
  for (size_t i = 0; i < n; i++) { block.push_back(genCommand(src, p, mix, m)); m.apply(block.back()); }
  return block;
}
// a random history: every reply compared, all data audited along the way and at the end
inline void history(vf::Source &src, vf::Case &c, const HistoryOptions &o) {
  Store s(c, o.indexed); Model m; Pool p = genPool(src); uint64_t hits = 0, blocks = 0, reopens = 0;
  c.note("keys: " + vf::Case::show(p.keys) + " fields: " + vf::Case::show(p.fields) + " hints: " + vf::Case::show(p.hints));
  for (int step = 0; step < o.steps && src.more((unsigned) o.steps); step++) {
    VF_SPAN(src);
    size_t what = src.weighted({12, o.blocks ? 4u : 0u, o.reopen && reopens < 2 ? 1u : 0u, 2});
    if (what == 2) { c.note("-- reopen"); reopens++; s.reopen(); c.equal(s.sm->getLastApplied(), s.idx, "applied position after reopening"); continue; }
    if (what == 3) { audit(c, s, m, p, "step " + std::to_string(step)); if (o.rawChecks) checkRaw(c, s.raw(), "step " + std::to_string(step)); continue; }
    std::vector<Args> block; bool multi = what == 1, phantom = multi && src.flip();
    if (multi) { block = genBlock(src, p, o.mix, m, src.chance(1, 100) ? 100 : 6); blocks++; c.note(phantom ? "-- pipelined block" : "-- MULTI"); } else block = {genCommand(src, p, o.mix, m)};
    for (auto &a : block) c.note((multi ? "     " : "") + showArgs(a));
    std::vector<Value> got = multi ? s.tx(c, block, phantom) : std::vector<Value>{s.run(c, block[0])};
    m.beginTx();
    for (size_t i = 0; i < block.size(); i++) {
      Value want = m.apply(block[i]);
      if (!Model::agree(got[i], want)) c.fail(showArgs(block[i]) + " answered " + got[i].show() + ", expected " + want.show());
      if (got[i].isErr()) c.label("refused"); else hits++;
      c.label("cmd " + lower(block[i][0]));
    }
    if (o.after) o.after(c, s, m, block, got);
  }
  audit(c, s, m, p, "at the end"); if (o.rawChecks) checkRaw(c, s.raw(), "at the end");
  if (reopens) c.label("reopened"); if (blocks) c.label("with blocks");
  c.nontrivial(hits >= 8);
}
