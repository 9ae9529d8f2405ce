// N07 filters on the way in, N08 publish/subscribe.
#include "store.hh"
#include "pubsub/SimplePatternMatcher.hh"
#include "pubsub/SubscriptionTracker.hh"
#include "pubsub/ThreadSafeMultiMap.hh"
#include "redis/InternalFilter.hh"
#include "redis/LeaseFilter.hh"
#include <atomic>
#include <thread>
using namespace quarkdb;
using vf::quote;

static Args argsOf(const RedisRequest &r) { Args a; for (size_t i = 0; i < r.size(); i++) a.emplace_back(r[i]); return a; }
static std::string respell(vf::Source &src, std::string s) { for (auto &ch : s) { if (isalpha((unsigned char) ch) && src.flip()) ch = (char) (ch ^ 32); if ((ch == '_' || ch == '-') && src.flip()) ch = src.flip() ? '_' : '-'; } return s; }

// ------------------------------------------------------------------------------------------------ N07
static const std::vector<std::string> kInternal = {"TIMESTAMPED_LEASE_GET", "TIMESTAMPED_LEASE_ACQUIRE", "TIMESTAMPED_LEASE_RELEASE"};
static const std::vector<std::string> kLeaseNames = {"LEASE_GET", "LEASE_ACQUIRE", "LEASE_RELEASE"};
static bool isInternal(const Args &a) { std::string s = lower(a[0]); for (auto &ch : s) if (ch == '-') ch = '_'; for (auto &k : kInternal) if (s == lower(k)) return true; return false; }
static int leaseKind(const Args &a) { std::string s = lower(a[0]); for (auto &ch : s) if (ch == '-') ch = '_'; for (size_t i = 0; i < 3; i++) if (s == lower(kLeaseNames[i])) return (int) i; return -1; }
VF_PROP(N07, internal_commands_from_clients, 20000, 600000, vf::kNone) {
  std::vector<std::string> names; for (auto &[n, v] : redis_cmd_map) names.push_back(n); for (int i = 0; i < 20; i++) for (auto &k : kInternal) names.push_back(k);
  Args a = {respell(src, src.pick(names))}; if (src.chance(1, 10)) a[0] = src.flip() ? a[0] + src.bytes(1) : a[0].substr(0, src.draw(a[0].size() + 1)); while (src.more(3)) a.push_back(src.bytes(12)); c.note(showArgs(a));
  RedisRequest r = toRequest(a); auto cmd = r.getCommand(); auto type = r.getCommandType(); InternalFilter::process(r);
  if (isInternal(a)) { c.require(r.getCommand() == RedisCommand::INVALID && r.getCommandType() == CommandType::INVALID, "an internal command passes the filter"); }
  else c.require(r.getCommand() == cmd && r.getCommandType() == type, "the filter changed an ordinary command");
  c.equal(argsOf(r), a, "arguments after the filter");
  c.nontrivial(isInternal(a)); c.label(isInternal(a) ? "internal" : cmd == RedisCommand::INVALID ? "unknown" : "ordinary");
}
VF_PROP(N07, lease_rewriting, 15000, 400000, vf::kNone) {
  std::vector<std::string> names = {"GET", "SET", "HSET", "DEL", "exists", "FLUSHALL", "VHSET", "SCAN", "raw_scan", "TIMESTAMPED_LEASE_GET", "DEQUE-POP-BACK"};
  Transaction tx; std::vector<Args> cmds; size_t n = 1 + src.size(8); int leases = 0;
  for (size_t i = 0; i < n; i++) { Args a = {respell(src, src.flip() ? src.pick(kLeaseNames) : src.pick(names))}; while (src.more(3)) a.push_back(src.bytes(12)); leases += leaseKind(a) >= 0; tx.push_back(toRequest(a)); cmds.push_back(a); c.note(showArgs(a)); }
  bool phantom = src.flip(); tx.setPhantom(phantom); bool writes = tx.containsWrites();
  static const std::vector<uint64_t> clocks = {0, 1, 255, 256, 1ull << 32, ~0ull, 1ull << 63, 0x0102030405060708ull}; uint64_t now = src.flip() ? src.pick(clocks) : src.raw64(); c.note("clock " + std::to_string(now));
  LeaseFilter::transform(tx, now);
  c.equal(tx.size(), cmds.size(), "commands after rewriting"); c.equal(tx.isPhantom(), phantom, "kind of block"); c.equal(tx.containsWrites(), writes, "writes");
  std::string stamp; for (int i = 7; i >= 0; i--) stamp += (char) (now >> (8 * i));
  for (size_t i = 0; i < cmds.size(); i++) {
    Args want = cmds[i]; int k = leaseKind(want); Args got = argsOf(tx[i]);
    if (k >= 0) { want.push_back(stamp); c.require(!got.empty(), "a command lost its name"); c.equal(lower(got[0]), lower(kInternal[(size_t) k]), "name a lease command is rewritten to"); want[0] = got[0]; }
    c.equal(got, want, "command " + std::to_string(i) + " after rewriting"); auto ref = toRequest(want);
    c.require(tx[i].getCommand() == ref.getCommand() && tx[i].getCommandType() == ref.getCommandType(), "command " + std::to_string(i) + " is not recognised as " + quote(want[0]) + " after rewriting");
  }
  // what ends up in the log reads back as the same
  Transaction back; RedisRequest logged = tx.toRedisRequest(); if (logged.getCommand() == RedisCommand::TX_READWRITE || logged.getCommand() == RedisCommand::TX_READONLY) { c.require(back.deserialize(logged), "a rewritten block cannot be read back"); c.equal(back.size(), tx.size(), "commands read back"); for (size_t i = 0; i < tx.size(); i++) c.require(back[i] == tx[i] && back[i].getCommand() == tx[i].getCommand(), "command read back differs"); }
  c.nontrivial(leases > 0 && n > 1);
}
VF_PROP(N07, single_lease_command, 6000, 100000, vf::kNone) {
  size_t k = src.draw(3); Args a = {respell(src, kLeaseNames[k])}; while (src.more(4)) a.push_back(src.bytes(12)); uint64_t now = src.raw64(); RedisRequest r = toRequest(a); LeaseFilter::transform(r, now);
  std::string stamp; for (int i = 7; i >= 0; i--) stamp += (char) (now >> (8 * i)); Args got = argsOf(r), want = a; want.push_back(stamp); want[0] = kInternal[k]; c.note(showArgs(a)); got[0] = lower(got[0]); want[0] = lower(want[0]); c.equal(got, want, "rewritten command");
  c.require(r.getCommand() == toRequest({kInternal[k]}).getCommand(), "not recognised after rewriting"); c.nontrivial(a.size() > 1);
}

// ------------------------------------------------------------------------------------------------ N08
static bool glob(std::string_view p, std::string_view s) {
  if (p.empty()) return s.empty();
  if (p[0] == '*') return glob(p.substr(1), s) || (!s.empty() && glob(p, s.substr(1)));
  if (s.empty()) return false;
  if (p[0] == '?') return glob(p.substr(1), s.substr(1));
  if (p[0] == '\\' && p.size() > 1) return p[1] == s[0] && glob(p.substr(2), s.substr(1));
  return p[0] == s[0] && glob(p.substr(1), s.substr(1));
}
using Mm = ThreadSafeMultiMap<std::string, int>;
// the containers: every combination of iterating and modifying; what stays is seen exactly once, what is not there is never seen
VF_PROP(N08, multimap_under_modification, 6000, 200000, vf::kNone) {
  Mm m; std::set<std::pair<std::string, int>> model; size_t nk = 1 + src.draw(src.flip() ? 3 : 12), nv = 1 + src.draw(src.flip() ? 4 : 14);
  auto key = [&] { return std::string(1, (char) ('a' + src.draw(nk))); }; auto val = [&] { return (int) src.draw(nv); };
  auto modify = [&](std::set<std::pair<std::string, int>> *gone, std::set<std::pair<std::string, int>> *come) {
    auto p = std::make_pair(key(), val());
    if (src.chance(2, 5)) { bool got = m.erase(p.first, p.second); c.equal(got, model.count(p) > 0, "erase reports"); model.erase(p); if (gone && got) gone->insert(p); }
    else { bool got = m.insert(p.first, p.second); c.equal(got, model.count(p) == 0, "insert reports"); model.insert(p); if (come && got) come->insert(p); }
  };
  int walks = 0, during = 0; int density = (int) src.draw(60); for (int i = 0; i < density; i++) modify(nullptr, nullptr);
  while (src.more(8)) {
    VF_SPAN(src);
    int n = (int) src.draw(10); for (int i = 0; i < n; i++) modify(nullptr, nullptr);
    c.equal(m.size(), model.size(), "entries");
    auto before = model; std::set<std::pair<std::string, int>> gone, come, seen; size_t ks = 1 + src.draw(4), vs = 1 + src.draw(4); int kind = (int) src.draw(3); bool mod = src.flip(); std::string k = key(); size_t guard = 0;
    auto visit = [&](const std::pair<std::string, int> &p) { c.require(before.count(p) || come.count(p), "an entry is listed which was never there: " + p.first + std::to_string(p.second)); if (!gone.count(p) && !come.count(p)) c.require(!seen.count(p), "an entry is listed twice: " + p.first + std::to_string(p.second)); seen.insert(p); c.require(++guard < 2000, "iterating does not end"); };
    auto change = [&]() { if (!mod) return; for (int i = (int) src.draw(4); i > 0; i--) { during++; modify(&gone, &come); } };
    c.note("walk kind " + std::to_string(kind) + " stages " + std::to_string(ks) + "," + std::to_string(vs) + (mod ? " modified meanwhile" : ""));
    bool erases = src.chance(1, 4);
    auto eraseOne = [&](auto &it, const std::pair<std::string, int> &p) { if (!erases || !src.flip()) return; bool got = it.erase(); c.equal(got, model.count(p) > 0, "erasing through an iterator reports"); model.erase(p); gone.insert(p); };
    if (kind == 0) { std::set<std::string> keys; for (auto it = m.getKeyIterator(ks); it.valid(); it.next()) { c.require(++guard < 2000, "iterating does not end"); std::string x = it.getKey(); c.require(keys.insert(x).second, "a key is listed twice"); change(); }
      std::set<std::string> always; for (auto &p : before) { bool stays = false; for (auto &q : before) if (q.first == p.first && !gone.count(q)) stays = true; if (stays) always.insert(p.first); } for (auto &x : always) c.require(keys.count(x), "a key present throughout is missing: " + x);
      for (auto &x : keys) { bool ok = false; for (auto &p : before) ok |= p.first == x; for (auto &p : come) ok |= p.first == x; c.require(ok, "a key is listed which was never there"); } }
    else if (kind == 1) { for (auto it = m.findMatching(k, vs); it.valid(); it.next()) { c.equal(it.getKey(), k, "key"); auto p = std::make_pair(k, it.getValue()); visit(p); eraseOne(it, p); change(); } for (auto &p : before) if (p.first == k && !gone.count(p)) c.require(seen.count(p), "an entry present throughout is missing: " + p.first + std::to_string(p.second)); }
    else { for (auto it = m.getFullIterator(ks, vs); it.valid(); it.next()) { auto p = std::make_pair(it.getKey(), it.getValue()); visit(p); eraseOne(it, p); change(); } for (auto &p : before) if (!gone.count(p)) c.require(seen.count(p), "an entry present throughout is missing: " + p.first + std::to_string(p.second)); }
    walks += seen.size() > 1; c.equal(m.size(), model.size(), "entries after walking");
  }
  c.nontrivial(walks > 0 && during > 0);
}
static std::string genPattern(vf::Source &src) { std::string p; while (src.more(3)) switch (src.draw(5)) { case 0: p += '*'; break; case 1: p += '?'; break; case 2: p += std::string("\\") + "ab*?\\"[src.draw(5)]; break; default: p += "ab*"[src.draw(2)]; } if (p.empty()) p = "*"; return p; }
VF_PROP(N08, pattern_matcher, 6000, 200000, vf::kNone) {
  SimplePatternMatcher<int> m; std::set<std::pair<std::string, int>> model; std::vector<std::string> pats; for (size_t i = 0, n = 1 + src.draw(8); i < n; i++) pats.push_back(genPattern(src)); int many = src.chance(1, 12) ? 150 : 0; int hits = 0;
  for (int i = 0; i < many; i++) { std::string p = "a*" + std::to_string(i); m.insert(p, 1); model.insert({p, 1}); if (i < 140) { m.insert("*", 100 + i); model.insert({"*", 100 + i}); } }
  while (src.more(25)) {
    VF_SPAN(src); std::string p = src.pick(pats); int v = (int) src.draw(4);
    switch (src.weighted({4, 2, 3})) {
      case 0: c.equal(m.insert(p, v), model.insert({p, v}).second, "insert reports"); break;
      case 1: c.equal(m.erase(p, v), model.erase({p, v}) > 0, "erase reports"); break;
      default: {
        std::string key = src.flip() ? src.over("ab", 5) : src.over("ab*?\\", 4); bool erase = src.chance(1, 5); std::multiset<std::pair<std::string, int>> got, want; for (auto &q : model) if (glob(q.first, key)) want.insert(q);
        for (auto it = m.find(key); it.valid(); it.next()) { std::pair<std::string, int> q{it.getPattern(), it.getValue()}; got.insert(q); if (erase && src.flip()) { c.equal(it.erase(), model.erase(q) > 0, "erasing through an iterator reports"); } c.require(got.size() < 1000, "iterating does not end"); }
        auto show = [](const auto &s) { std::string r; for (auto &q : s) r += quote(q.first) + "->" + std::to_string(q.second) + " "; return r; }; c.note("find " + quote(key)); if (got != want) c.fail("matching " + quote(key) + " finds " + show(got) + ", expected " + show(want)); hits += want.size() > 1;
      }
    }
    c.equal(m.size(), model.size(), "entries");
  }
  c.nontrivial(hits > 0);
}
VF_PROP(N08, tracker, 6000, 100000, vf::kNone) {
  SubscriptionTracker t; std::set<std::string> ch, pt; int ops = 0; std::vector<std::string> names = {"", "a", "b", "a*", std::string("a\0b", 3), std::string("a\0c", 3), "*", "A"};
  while (src.more(30)) { VF_SPAN(src); std::string n = src.pick(names); ops++; switch (src.draw(4)) { case 0: c.equal(t.addChannel(n), ch.insert(n).second, "adding a channel reports"); break; case 1: c.equal(t.addPattern(n), pt.insert(n).second, "adding a pattern reports"); break; case 2: c.equal(t.removeChannel(n), ch.erase(n) > 0, "removing a channel reports"); break; default: c.equal(t.removePattern(n), pt.erase(n) > 0, "removing a pattern reports"); } for (auto &x : names) { c.equal(t.hasChannel(x), ch.count(x) > 0, "channel " + quote(x)); c.equal(t.hasPattern(x), pt.count(x) > 0, "pattern " + quote(x)); } }
  c.nontrivial(ops > 8);
}
namespace {
struct Client {
  MemLink raw; Link link; std::unique_ptr<Connection> conn; std::set<std::string> channels, patterns; bool push = false; std::string expect; size_t read = 0;
  Client() : link(&raw), conn(new Connection(&link)) {}
};
std::string bulk(const std::string &s) { return "$" + std::to_string(s.size()) + "\r\n" + s + "\r\n"; }
}
VF_PROP(N08, histories, 8000, 250000, vf::kNone) {
  std::vector<std::string> channels = {"a", "b", "ab", "aa", "ba", std::string("a\0", 2), "*", "A", "a\r\nb"}, patterns; for (size_t i = 0, n = 2 + src.draw(4); i < n; i++) patterns.push_back(genPattern(src)); patterns.push_back("a"); patterns.push_back("*");
  std::unique_ptr<Publisher> pub(new Publisher); std::vector<std::unique_ptr<Client>> cl; size_t n = 1 + src.draw(5); for (size_t i = 0; i < n; i++) cl.emplace_back(new Client);
  int deliveries = 0, changes = 0;
  // patterns are visited in order, then the order within one pattern is up to the implementation: compare deliveries as a multiset per client and step
  auto check = [&](const std::string &what, const std::vector<std::vector<Value>> &want) {
    for (size_t i = 0; i < cl.size(); i++) if (cl[i]) {
      std::string out = cl[i]->raw.sent(), fresh = out.substr(cl[i]->read); cl[i]->read = out.size(); RespReader r(fresh); std::vector<std::string> got, exp; while (!r.atEnd()) { auto v = r.read(); if (!v) c.fail(what + ": client " + std::to_string(i) + " received malformed data: " + r.error + " in " + quote(fresh)); got.push_back(v->show()); }
      for (auto &v : want[i]) exp.push_back(v.show()); auto g = got, e = exp; std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end());
      if (g != e) c.fail(what + ": client " + std::to_string(i) + " received " + vf::Case::show(got) + ", expected " + vf::Case::show(exp));
    }
  };
  auto msg = [](Client &k, std::vector<Value> v) { if (k.push) v.insert(v.begin(), vStr("pubsub")); Value a = vArr(v); if (k.push) a.t = '>'; return a; };
  while (src.more(30)) {
    VF_SPAN(src); size_t who = src.draw(cl.size()); std::vector<std::vector<Value>> want(cl.size()); if (!cl[who]) { cl[who].reset(new Client); c.note("client " + std::to_string(who) + " connects"); } Client &k = *cl[who]; std::string me = "client " + std::to_string(who) + " ";
    auto deliver = [&](const std::string &ch, const std::string &payload) { int hits = 0; for (size_t i = 0; i < cl.size(); i++) if (cl[i]) { if (cl[i]->channels.count(ch)) { hits++; want[i].push_back(msg(*cl[i], {vStr("message"), vStr(ch), vStr(payload)})); } for (auto &p : cl[i]->patterns) if (glob(p, ch)) { hits++; want[i].push_back(msg(*cl[i], {vStr("pmessage"), vStr(p), vStr(ch), vStr(payload)})); } } deliveries += hits; return hits; };
    switch (src.weighted({6, 6, 3, 3, 10, 2, 1, 2, 1})) {
      case 0: case 1: case 2: case 3: {
        bool pattern = src.flip(), un = src.chance(1, 3); Args a = {pattern ? (un ? "PUNSUBSCRIBE" : "psubscribe") : (un ? "unsubscribe" : "SUBSCRIBE")}; size_t m = src.chance(1, 15) ? 0 : 1 + src.draw(3); auto &mine = pattern ? k.patterns : k.channels; std::vector<Value> w;
        for (size_t i = 0; i < m; i++) { std::string name = pattern ? src.pick(patterns) : src.pick(channels); a.push_back(name); if (un) mine.erase(name); else mine.insert(name); w.push_back(msg(k, {vStr(lower(a[0])), vStr(name), vUint(k.channels.size() + k.patterns.size())})); }
        c.note(me + showArgs(a)); RedisRequest r = toRequest(a); { Connection::FlushGuard fg(k.conn.get()); pub->dispatch(k.conn.get(), r); } changes++;
        if (m == 0) { std::string out = k.raw.sent(); Value v = readOne(c, out.substr(k.read), showArgs(a)); k.read = out.size(); c.require(v.isErr(), "no arguments, yet the answer is " + v.show()); break; }
        if (k.push) { Value ok; ok.t = '+'; ok.s = "OK"; w.push_back(ok); } want[who] = w; break; }
      case 4: { std::string ch = src.pick(channels), payload = src.bytes(10); c.note(me + "publishes to " + quote(ch)); int hits = deliver(ch, payload); RedisRequest r = toRequest({"PUBLISH", ch, payload}); { Connection::FlushGuard fg(k.conn.get()); pub->dispatch(k.conn.get(), r); } want[who].push_back(vInt(hits)); break; }
      case 5: { std::string ch = src.pick(channels), payload = src.bytes(10); c.note("published internally to " + quote(ch)); int hits = deliver(ch, payload); c.equal(pub->publish(ch, payload), hits, "receivers"); break; }
      case 6: if (!k.push) { k.conn->activatePushTypes(); k.push = true; c.note(me + "activates push types"); } break;
      case 7: { c.note(me + "disconnects"); check(me + "before disconnecting", want); cl[who].reset(); changes++; break; }
      default: { c.note("listeners purged"); for (size_t i = 0; i < cl.size(); i++) if (cl[i]) { Value e; e.t = '-'; e.s = "ERR unavailable"; for (size_t j = 0; j < cl[i]->channels.size() + cl[i]->patterns.size(); j++) want[i].push_back(e); cl[i]->channels.clear(); cl[i]->patterns.clear(); } pub->purgeListeners(Formatter::err("unavailable")); changes++; }
    }
    check("after this", want);
  }
  c.nontrivial(deliveries > 2 && changes > 2);
}
VF_PROP(N08, concurrent_subscription_changes, 160, 3000, vf::kConcurrent) {
  auto pub = std::make_unique<Publisher>(); size_t steady = 1 + src.draw(4), churn = 1 + src.draw(3), pubs = 1 + src.draw(2), per = 30 + src.draw(120); bool purges = false; std::vector<std::string> ch = {"c0", "c1", "d0"}, pat = {"c*", "*0", "?1"};
  struct Sub { Client k; size_t total = 0; }; std::vector<std::unique_ptr<Client>> st; for (size_t i = 0; i < steady; i++) { st.emplace_back(new Client); for (auto &x : ch) if (src.flip()) { pub->subscribe(st[i]->conn->getQueue(), x); st[i]->channels.insert(x); } for (auto &x : pat) if (src.flip()) { pub->psubscribe(st[i]->conn->getQueue(), x); st[i]->patterns.insert(x); } }
  // many idle subscribers, so that walking takes several rounds
  size_t idle = src.flip() ? 0 : 150; std::vector<std::unique_ptr<Client>> id; for (size_t i = 0; i < idle; i++) { id.emplace_back(new Client); pub->subscribe(id[i]->conn->getQueue(), "c0"); pub->psubscribe(id[i]->conn->getQueue(), "c*"); id[i]->channels.insert("c0"); id[i]->patterns.insert("c*"); }
  std::vector<std::vector<std::pair<int, size_t>>> script(churn); for (auto &s : script) for (int i = 0; i < 60; i++) s.push_back({(int) src.draw(7), src.draw(3)}); std::vector<std::vector<size_t>> plan(pubs); for (auto &p : plan) for (size_t i = 0; i < per; i++) p.push_back(src.draw(3));
  c.note(std::to_string(steady) + " steady, " + std::to_string(idle) + " idle, " + std::to_string(churn) + " changing subscribers, " + std::to_string(pubs) + " publishers of " + std::to_string(per)); (void) purges;
  std::atomic<bool> go{false}, done{false}; std::vector<std::thread> th, pt; std::mutex fm; std::string failure; auto failed = [&](const std::string &s) { std::scoped_lock l(fm); if (failure.empty()) failure = s; };
  std::vector<std::vector<std::string>> streams(churn);
  for (size_t t = 0; t < churn; t++) th.emplace_back([&, t] {
    while (!go) std::this_thread::yield(); auto k = std::make_unique<Client>();
    for (size_t i = 0; !done || i < script[t].size(); i++) { auto [op, x] = script[t][i % script[t].size()]; if (i > 20000) break;
      Args a; switch (op) { case 0: case 1: a = {"SUBSCRIBE", ch[x]}; break; case 2: a = {"PSUBSCRIBE", pat[x]}; break; case 3: case 4: a = {"UNSUBSCRIBE", ch[x]}; break; case 5: a = {"PUNSUBSCRIBE", pat[x]}; break; default: break; }
      if (a.empty()) { k->conn.reset(); streams[t].push_back(k->raw.sent()); k = std::make_unique<Client>(); continue; }
      RedisRequest r = toRequest(a); { Connection::FlushGuard fg(k->conn.get()); pub->dispatch(k->conn.get(), r); } }
    k->conn.reset(); streams[t].push_back(k->raw.sent());
  });
  for (size_t p = 0; p < pubs; p++) pt.emplace_back([&, p] { while (!go) std::this_thread::yield(); for (size_t i = 0; i < plan[p].size(); i++) {
    const std::string &target = ch[plan[p][i]]; int least = 0; for (auto *v : {&st, &id}) for (auto &k : *v) { least += (int) k->channels.count(target); for (auto &x : k->patterns) least += glob(x, target); }
    int hits = pub->publish(target, std::to_string(p) + ":" + std::to_string(i)); if (hits < least) failed("a message to " + target + " is reported to have " + std::to_string(hits) + " receivers; " + std::to_string(least) + " were subscribed all along"); } });
  go = true; for (auto &t : pt) t.join(); done = true; for (auto &t : th) t.join();
  if (!failure.empty()) c.fail(failure);
  for (auto *v : {&st, &id}) for (auto &k : *v) {
    std::string all = k->raw.sent(); RespReader r(all); std::map<std::string, std::vector<size_t>> last; size_t count = 0; std::map<std::string, std::map<size_t, std::vector<size_t>>> seen;   // subscription -> publisher -> sequence
    while (!r.atEnd()) { auto m = r.read(); if (!m || m->t != '*' || m->v.size() < 3) c.fail("a subscriber received malformed data: " + r.error); bool pm = m->v[0].s == "pmessage"; std::string sub = (pm ? "p" : "c") + m->v[1].s, target = m->v[pm ? 2 : 1].s, payload = m->v[pm ? 3 : 2].s; count++;
      if (pm ? !k->patterns.count(m->v[1].s) || !glob(m->v[1].s, target) : !k->channels.count(target)) c.fail("a subscriber received a message it is not subscribed to: " + m->show());
      size_t p = strtoul(payload.c_str(), nullptr, 10), i = strtoul(payload.c_str() + payload.find(':') + 1, nullptr, 10); if (p >= pubs || i >= per || ch[plan[p][i]] != target) c.fail("a message arrived on the wrong channel: " + m->show()); seen[sub][p].push_back(i); }
    auto expect = [&](const std::string &sub, auto matches) { for (size_t p = 0; p < pubs; p++) { std::vector<size_t> want; for (size_t i = 0; i < per; i++) if (matches(ch[plan[p][i]])) want.push_back(i); if (seen[sub][p] != want) c.fail("subscription " + sub + " received " + std::to_string(seen[sub][p].size()) + " messages of publisher " + std::to_string(p) + (seen[sub][p].size() == want.size() ? ", out of order" : ", " + std::to_string(want.size()) + " were sent")); } };
    for (auto &x : k->channels) expect("c" + x, [&](const std::string &t) { return t == x; }); for (auto &x : k->patterns) expect("p" + x, [&](const std::string &t) { return glob(x, t); });
  }
  size_t churned = 0;
  for (auto &ss : streams) for (auto &s : ss) {   // changing subscribers: a well-formed stream, nothing after unsubscribing, nothing twice, exact counts
    RespReader r(s); std::set<std::string> on, early; std::set<std::string> seen;
    while (!r.atEnd()) { auto m = r.read(); if (!m || m->t != '*' || m->v.size() < 3) c.fail("a changing subscriber received malformed data: " + r.error); std::string kind = m->v[0].s, sub = (kind == "pmessage" || kind == "psubscribe" || kind == "punsubscribe" ? "p" : "c") + m->v[1].s;
      if (kind == "message" || kind == "pmessage") { churned++; if (!on.count(sub)) early.insert(sub); if (!seen.insert(sub + " " + m->v.back().s).second) c.fail("a subscriber received a message twice: " + m->show()); }
      else { if (kind == "subscribe" || kind == "psubscribe") { on.insert(sub); early.erase(sub); } else { on.erase(sub); if (early.count(sub)) c.fail("a message arrived on " + sub + " although it was not subscribed to"); } c.equal(m->v[2].s, std::to_string(on.size()), "subscriptions reported"); } }
    if (!early.empty()) c.fail("a message arrived on " + *early.begin() + " although it was not subscribed to any more");
  }
  c.nontrivial(churned > 0);
}
VF_RULE(N07, "an internal command; a block of several commands with a lease command among them");
VF_RULE(N08, "walks over several entries with modifications meanwhile; a channel matched by several patterns; histories with deliveries and subscription changes; concurrent runs in which a changing subscriber received messages");
