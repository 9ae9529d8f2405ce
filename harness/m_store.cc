// M01..M10: the data model, transactions, applying the log, stored data, bulk loading.
#include "store.hh"
#include "redis/LeaseFilter.hh"
#include <atomic>
#include <filesystem>
#include <fstream>
#include <thread>
using namespace quarkdb;
using vf::quote;
namespace fs = std::filesystem;

// ------------------------------------------------------------------------------------------------ M01
VF_RULE(M01, "Random command histories (single commands, MULTI blocks, pipelined blocks, reopen) over 2-6 hostile keys through the dispatcher, every reply and a full read-back compared with an in-memory model. Non-trivial: at least 8 accepted commands.");
VF_PROP(M01, strings_hashes_sets, 6000, 200000, vf::kNone) { HistoryOptions o{Mix{{fStr, 3}, {fHash, 8}, {fSet, 6}, {fKeyspace, 2}, {fCount, 2}}}; history(src, c, o); }
VF_PROP(M01, counters, 3000, 100000, vf::kNone) { HistoryOptions o{Mix{{fCount, 10}, {fHash, 3}, {fKeyspace, 1}}}; history(src, c, o); }
VF_PROP(M01, sets, 3000, 100000, vf::kNone) { HistoryOptions o{Mix{{fSet, 12}, {fStr, 1}, {fKeyspace, 1}}}; history(src, c, o); }

// ------------------------------------------------------------------------------------------------ M02
VF_RULE(M02, "Random histories on deques and locality hashes (hints moving between fields, hash fallbacks, conversions) with blocks and reopen, every reply and a full read-back (with and without hints) compared with an in-memory model. Non-trivial: at least 8 accepted commands.");
VF_PROP(M02, deques, 4000, 130000, vf::kNone) { HistoryOptions o{Mix{{fDeq, 12}, {fStr, 1}, {fKeyspace, 1}}}; o.steps = 60; history(src, c, o); }
VF_PROP(M02, locality_hashes, 4000, 130000, vf::kNone) { HistoryOptions o{Mix{{fLh, 12}, {fStr, 1}, {fKeyspace, 1}}}; history(src, c, o); }
VF_PROP(M02, fallbacks, 3000, 100000, vf::kNone) { HistoryOptions o{Mix{{fLh, 4}, {fLhFallback, 8}, {fHash, 2}, {fKeyspace, 1}}}; history(src, c, o); }

// ------------------------------------------------------------------------------------------------ M03
VF_RULE(M03, "Random VHSET/VHDEL/DEL/VHGETALL histories over 1-4 keys in transactions, with a subscriber to the revision channels: versions, contents, every published revision (version, changes in order) against the model, and a replica built from a snapshot plus later revisions. Non-trivial: at least 3 revisions published.");
struct Subscriber {
  MemLink *wire; std::unique_ptr<quarkdb::Link> link; std::unique_ptr<quarkdb::Connection> conn;
  Subscriber() : wire(new MemLink), link(new quarkdb::Link(wire)), conn(new quarkdb::Connection(link.get())) {}
  ~Subscriber() { conn.reset(); link.reset(); delete wire; }
};
VF_PROP(M03, versions_and_revisions, 12000, 120000, vf::kNone) {
  Store s(c, true); Model m; Pool p = genPool(src, 1, 4); Mix w{{fVh, 42}, {fKeyspace, 3}, {fHash, 3}, {fFlush, 1}};
  c.note("keys: " + vf::Case::show(p.keys) + " fields: " + vf::Case::show(p.fields));
  Subscriber sub; for (auto &k : p.keys) s.pub.subscribe(sub.conn->getQueue(), "__vhash@" + k); s.pub.subscribe(sub.conn->getQueue(), "__vhash@_sentinel_");
  bool gate = src.flip(); if (gate) { c.label("publishing held up"); sub.wire->gate(true); }
  struct Pub { std::string key; uint64_t version; std::vector<std::pair<std::string, std::string>> updates; bool operator==(const Pub &o) const { return key == o.key && version == o.version && updates == o.updates; } };
  auto showPub = [](const Pub &x) { std::string r = quote(x.key) + " version " + std::to_string(x.version) + ":"; for (auto &[f, v] : x.updates) r += " " + quote(f, 30) + "=" + quote(v, 30); return r; };
  std::vector<Pub> want; std::map<std::string, std::map<std::string, std::string>> replica; std::map<std::string, uint64_t> at; std::map<std::string, size_t> joined;
  int steps = 30; uint64_t reopens = 0; bool late = false;
  for (int step = 0; step < steps && src.more((unsigned) steps); step++) {
    VF_SPAN(src);
    if (reopens < 1 && src.chance(1, 25)) { reopens++; c.note("-- reopen"); s.reopen(); continue; }
    std::vector<Args> block = genBlock(src, p, w, m, src.flip() ? (src.chance(1, 60) ? 150 : 6) : 1); bool phantom = src.flip(); c.note("-- block");
    for (auto &a : block) c.note("     " + showArgs(a));
    auto got = s.tx(c, block, phantom); m.beginTx(); std::map<std::string, std::vector<std::pair<std::string, std::string>>> order;
    for (size_t i = 0; i < block.size(); i++) {
      auto before = m.revision; Value v = m.apply(block[i]); if (!Model::agree(got[i], v)) c.fail(showArgs(block[i]) + " answered " + got[i].show() + ", expected " + v.show());
      c.label("cmd " + lower(block[i][0]));
    }
    for (auto &r : m.endTx()) { Pub x{r.key, r.version, {}}; for (auto &u : r.updates) x.updates.push_back(u); want.push_back(x); }
    if (!late && src.chance(1, 4)) { late = true; // join late: snapshot now, revisions later
      for (auto &k : p.keys) { Value v = s.run(c, {"VHGETALL", k}); if (v.isErr() || v.v.size() != 2) continue; at[k] = strtoull(v.v[0].s.c_str(), nullptr, 10); auto &r = replica[k]; joined[k] = want.size(); for (size_t j = 0; j + 1 < v.v[1].v.size(); j += 2) r[v.v[1].v[j].s] = v.v[1].v[j + 1].s; }
    }
  }
  audit(c, s, m, p, "at the end");
  { std::string f = "f", v = "the end"; VersionedHashRevisionTracker t; t.forKey("_sentinel_").setRevisionNumber(1); t.forKey("_sentinel_").addUpdate(f, v); s.pub.schedulePublishing(std::move(t)); sub.wire->gate(false); c.require(sub.wire->waitSent("the end", 20000), "published revisions never arrive"); }
  std::string out = sub.wire->sent(); RespReader r(out); std::vector<Pub> got;
  while (!r.atEnd()) {
    auto v = r.read(); if (!v) c.fail("the subscriber received a malformed message: " + r.error + " in " + quote(out));
    c.require(v->t == '*' && v->v.size() == 3 && v->v[0].s == "message" && startsWith(v->v[1].s, "__vhash@"), "unexpected message " + v->show());
    Value rev = readOne(c, v->v[2].s, "revision"); c.require(rev.t == '*' && rev.v.size() == 2 && rev.v[0].t == ':' && rev.v[1].v.size() % 2 == 0, "malformed revision " + rev.show());
    Pub x{v->v[1].s.substr(8), strtoull(rev.v[0].s.c_str(), nullptr, 10), {}}; std::map<std::string, std::string> eff; for (size_t j = 0; j < rev.v[1].v.size(); j += 2) eff[rev.v[1].v[j].s] = rev.v[1].v[j + 1].s;
    for (auto &u : eff) x.updates.push_back(u); if (x.key != "_sentinel_") got.push_back(x);
  }
  for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
    if (i >= got.size()) c.fail("revision never published: " + showPub(want[i])); if (i >= want.size()) c.fail("revision published without a change: " + showPub(got[i]));
    if (!(got[i] == want[i])) c.fail("published " + showPub(got[i]) + ", the change was " + showPub(want[i]));
  }
  // a late joiner that applies every revision beyond its snapshot ends up with the contents (an empty value and a deletion look alike in a revision)
  for (auto &[k, rep] : replica) {
    bool recreated = false; uint64_t v = at[k];
    for (size_t i = joined[k]; i < got.size(); i++) if (got[i].key == k) { if (got[i].version != v + 1) recreated = true; v = got[i].version; for (auto &[f, x] : got[i].updates) rep[f] = x; }
    auto o = m.find(k); if (recreated || (o && o->k != kVh) || (!o && v) || (o && o->version != v)) continue;
    std::map<std::string, std::string> a, b; for (auto &[f, x] : rep) if (!x.empty()) a[f] = x; if (o) for (auto &[f, x] : o->h) if (!x.empty()) b[f] = x;
    c.equal(a, b, "replica of " + quote(k) + " at version " + std::to_string(v)); c.label("replica compared");
  }
  c.nontrivial(want.size() >= 3);
}

// ------------------------------------------------------------------------------------------------ M06 / M09
VF_RULE(M06, "Mixed-type histories with hostile names, DEL/FLUSHALL/EXISTS/TYPE/KEYS/SCAN with patterns, configuration and internal records; replies, key listings and raw storage compared with the model. Non-trivial: at least 8 accepted commands.");
static const Mix kEverything{{fStr, 3}, {fHash, 4}, {fSet, 4}, {fDeq, 4}, {fLh, 4}, {fLhFallback, 2}, {fVh, 3}, {fLease, 4}, {fKeyspace, 3}, {fConfig, 1}, {fCount, 1}, {fFlush, 1}};
static bool glob(std::string_view p, std::string_view s) {
  if (p.empty()) return s.empty();
  if (p[0] == '*') return glob(p.substr(1), s) || (!s.empty() && glob(p, s.substr(1)));
  if (s.empty()) return false;
  if (p[0] == '?') return glob(p.substr(1), s.substr(1));
  if (p[0] == '\\' && p.size() > 1) return p[1] == s[0] && glob(p.substr(2), s.substr(1));
  return p[0] == s[0] && glob(p.substr(1), s.substr(1));
}
static std::string genGlob(vf::Source &src, const std::vector<std::string> &names) {
  std::string s = src.chance(3, 4) && !names.empty() ? src.pick(names) : src.over("ab#", 3);
  if (s.size() > 20) s.resize(20);
  std::string out; for (char ch : s) { if (ch == '[' || ch == ']' || ch == '\\' || ch == '*' || ch == '?') out += '\\'; out += ch; }
  switch (src.draw(6)) {
    case 0: return out; case 1: return "*"; case 2: return out + "*"; case 3: return "*" + out;
    case 4: { s.resize(s.size() / 2); return (s.find_first_of("[]\\*?") == s.npos ? s : std::string()) + "*"; }
    default: if (!out.empty() && out.find('\\') == out.npos) out[src.draw(out.size())] = '?'; return out + (src.flip() ? "*" : "");
  }
}
VF_PROP(M06, key_space, 5000, 160000, vf::kNone) {
  HistoryOptions o{kEverything}; o.steps = 40;
  o.after = [&](vf::Case &c, Store &s, Model &m, const std::vector<Args> &, const std::vector<Value> &) {
    if (!src.chance(1, 6)) return;
    std::vector<std::string> all; for (auto &[k, x] : m.keys) all.push_back(k);
    std::string pat = genGlob(src, all); std::vector<std::string> want; for (auto &k : all) if (pat.empty() || glob(pat, k)) want   // an empty pattern means no pattern here
     .push_back(k);
    Value v = s.run(c, {"KEYS", pat}); std::vector<std::string> got; for (auto &x : v.v) got.push_back(x.s); std::sort(got.begin(), got.end());
    c.require(v.t == '*', "KEYS answers " + v.show()); c.equal(got, want, "KEYS " + quote(pat)); c.label("KEYS pattern");
    auto raw = s.raw(); size_t desc = 0, internal = 0, conf = 0; for (auto &[k, x] : raw) { desc += k[0] == '!'; internal += k[0] == '_'; conf += k[0] == '~'; }
    c.equal(desc, m.keys.size(), "number of stored keys"); c.equal(conf, m.config.size(), "number of configuration records"); c.require(internal >= 4, "internal records were removed");
  };
  history(src, c, o);
}
// every type: fill some keys next to near-neighbours, delete one, nothing else may change
VF_PROP(M06, delete_is_exact, 3000, 100000, vf::kNone) {
  Store s(c, true); Model m; Pool p = genPool(src, 4, 7); Mix w{{fStr, 2}, {fHash, 4}, {fSet, 4}, {fDeq, 3}, {fLh, 4}, {fVh, 3}, {fLease, 2}, {fConfig, 1}};
  size_t n = 10 + src.draw(40);
  for (size_t i = 0; i < n; i++) { Args a = genCommand(src, p, w, m); c.note(showArgs(a)); s.run(c, a); m.beginTx(); m.apply(a); }
  auto before = s.raw(); if (m.keys.empty()) { audit(c, s, m, p, "empty"); return; }
  std::vector<std::string> live; for (auto &[k, o] : m.keys) live.push_back(k);
  std::string victim = src.pick(live); bool flush = src.chance(1, 8); const Obj o = *m.find(victim); c.label(std::string("delete ") + typeName(o.k)); c.nontrivial(m.keys.size() > 1);
  Args del = flush ? Args{"FLUSHALL"} : Args{"DEL", victim}; c.note(showArgs(del)); m.beginTx();
  Value want = m.apply(del), got = src.flip() ? s.run(c, del) : s.tx(c, {del}, src.flip())[0]; c.require(got == want, showArgs(del) + " answered " + got.show());
  auto after = s.raw(); checkRaw(c, after, "after " + showArgs(del)); audit(c, s, m, p, "after " + showArgs(del));
  // the survivors' records are untouched, byte for byte; configuration and internal records survive
  for (auto &[k, v] : after) { if (k == "__last-applied") continue; auto it = before.find(k); c.require(it != before.end() && it->second == v, "record " + quote(k) + " changed by " + showArgs(del)); }
  for (auto &[k, v] : before) if (k[0] == '_' || k[0] == '~') c.require(after.count(k), "internal record " + quote(k) + " removed by " + showArgs(del));
  size_t gone = before.size() - after.size(), expect = 0;
  auto weight = [](const Obj &x) -> size_t { switch (x.k) { case kStr: return 2; case kLease: return 3; case kDeq: return 1 + x.d.size(); case kLh: return 1 + 2 * x.lh.size(); default: return 1 + x.h.size(); } };
  if (flush) { for (auto &k : live) expect += 1; c.require(m.keys.empty(), "model"); for (auto &[k, v] : after) c.require(k[0] == '_' || k[0] == '~', "FLUSHALL left " + quote(k)); }
  else c.equal(gone, weight(o), "number of records removed");
}
VF_RULE(M09, "Mixed histories over all types (type changes, deletions, moves, failed commands, blocks, reopen, expiry); the raw storage is read independently and every descriptor, element, index and expiration event cross-checked along the way. Non-trivial: at least 8 accepted commands.");
VF_PROP(M09, mixed, 5000, 160000, vf::kNone) { HistoryOptions o{kEverything}; o.rawChecks = true; o.steps = 50; history(src, c, o); }
VF_PROP(M09, containers, 3000, 100000, vf::kNone) { HistoryOptions o{Mix{{fHash, 5}, {fSet, 6}, {fDeq, 5}, {fLh, 6}, {fLhFallback, 3}, {fCount, 2}, {fKeyspace, 1}}}; o.rawChecks = true; history(src, c, o); }
VF_PROP(M09, leases, 2000, 60000, vf::kNone) { HistoryOptions o{Mix{{fLease, 12}, {fKeyspace, 1}, {fStr, 1}, {fFlush, 1}}}; o.rawChecks = true; history(src, c, o); }

// ------------------------------------------------------------------------------------------------ M04
VF_RULE(M04, "Lease histories (acquire, renew, get, release, DEL, FLUSHALL, time moving forwards, standing still and lagging, reopen) with every reply, the clock, the pending expirations and the stored data compared with the model; client lease commands of any arity through the timestamping filter; a ledger of who holds what built from the replies alone. Non-trivial: at least 8 accepted commands.");
static void clockAndEvents(vf::Case &c, Store &s, Model &m) {
  Value v = s.run(c, {"CLOCK_GET"}); c.require(v.t == '*' && v.v.size() == 2 && v.v[0].s == "STATIC-CLOCK: " + std::to_string(m.clock), "CLOCK_GET answers " + v.show() + ", the clock stands at " + std::to_string(m.clock));
  v = s.run(c, {"LEASE-GET-PENDING-EXPIRATION-EVENTS"}); std::vector<std::string> got, want; c.require(v.t == '*' && v.v.size() >= 2, "pending expirations: " + v.show());
  c.equal(v.v[0].s, "STATIC-CLOCK: " + std::to_string(m.clock), "clock in the pending expirations"); uint64_t last = 0;
  for (size_t i = 2; i < v.v.size(); i++) { got.push_back(v.v[i].s); uint64_t d = strtoull(v.v[i].s.c_str(), nullptr, 10); c.require(d >= last, "pending expirations out of order: " + v.show()); last = d; c.require(d > m.clock, "lease past its deadline still pending: " + v.show()); }
  for (auto &[k, o] : m.keys) if (o.k == kLease) want.push_back(std::to_string(o.end) + ": " + k);
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); c.equal(got, want, "pending expirations");
  for (auto &[k, o] : m.keys) if (o.k == kLease) {   // holder, last renewal and deadline as the state machine reports them
    quarkdb::StagingArea area(*s.sm); quarkdb::LeaseInfo info; bool ok = s.sm->lease_get(area, k, m.clock, info).ok(); c.require(ok, "lease " + quote(k) + " cannot be read");
    c.equal(std::string(info.getValue()), o.str, "holder of " + quote(k)); c.equal(info.getLastRenewal(), o.start, "last renewal of " + quote(k)); c.equal(info.getDeadline(), o.end, "deadline of " + quote(k));
  }
}
VF_PROP(M04, histories, 6000, 200000, vf::kNone) {
  HistoryOptions o{Mix{{fLease, 16}, {fKeyspace, 2}, {fStr, 1}, {fHash, 1}, {fFlush, 1}}}; o.rawChecks = true; o.steps = 50;
  o.after = [&](vf::Case &c, Store &s, Model &m, const std::vector<Args> &, const std::vector<Value> &) { if (src.chance(1, 5)) clockAndEvents(c, s, m); };
  history(src, c, o);
}
VF_PROP(M04, client_commands, 4000, 120000, vf::kNone) {
  Store s(c, true); Model m; Pool p = genPool(src, 2, 4); uint64_t ok = 0;
  struct Held { std::string holder; uint64_t until; }; std::map<std::string, Held> ledger; uint64_t clock = 0;
  for (int step = 0; step < 50 && src.more(50); step++) {
    VF_SPAN(src);
    if (src.chance(1, 30)) { c.note("-- reopen"); s.reopen(); }
    static const std::vector<std::string> dur = {"1", "3", "10", "60", "0", "-1", "x", ""};
    auto one = [&]() -> Args {
      Args a; auto k = src.pick(p.keys);
      switch (src.weighted({5, 3, 2, 1, 1})) { case 0: a = {"LEASE-ACQUIRE", k, src.pick(p.holders), src.pick(dur)}; break; case 1: a = {"LEASE_GET", k}; break; case 2: a = {"lease-release", k}; break; case 3: a = {"DEL", k}; break; default: a = {"SET", k, "x"}; }
      if (src.chance(1, 8)) { size_t keep = 1 + src.draw(a.size()); a.resize(std::min(keep, a.size())); }
      if (src.chance(1, 10)) { size_t add = 1 + src.draw(3); while (add--) a.push_back(src.flip() ? be8(src.draw(100)) : src.pick(p.holders)); }
      return a;
    };
    p.now += src.chance(1, 3) ? 0 : src.draw(src.flip() ? 5 : 50); uint64_t t = src.chance(1, 8) ? p.now - std::min<uint64_t>(p.now, src.draw(20)) : p.now;
    size_t n = src.chance(1, 3) ? 1 + src.draw(5) : 1; std::vector<Args> block; for (size_t i = 0; i < n; i++) block.push_back(one());
    Transaction tx; for (auto &a : block) tx.push_back(toRequest(a)); tx.setPhantom(false);
    c.note("-- at " + std::to_string(t)); for (auto &a : block) c.note("     " + showArgs(a));
    LeaseFilter::transform(tx, t);
    for (size_t i = 0; i < n; i++) { std::string w = lower(block[i][0]); if (startsWith(w, "lease")) { std::string x = lower(std::string(tx[i][0])); for (auto &ch : w) if (ch == '-') ch = '_'; c.equal(x, "timestamped_" + w, "filtered command"); c.equal(tx[i].size(), block[i].size() + 1, "arguments of the filtered command"); c.require(std::string(tx[i][tx[i].size() - 1]) == be8(t), "timestamp is not the last argument"); c.require(tx[i].getCommandType() == CommandType::WRITE, "filtered lease command is not a write"); } else { Args x; for (size_t j = 0; j < tx[i].size(); j++) x.push_back(std::string(tx[i][j])); c.equal(x, block[i], "a command that is no lease command was changed"); } }
    auto got = Store::split(c, s.disp->dispatch(tx, ++s.idx).val, n, false); m.beginTx();
    for (size_t i = 0; i < n; i++) {
      Args a = block[i]; std::string w = lower(a[0]); bool lease = startsWith(w, "lease"); if (lease) { for (auto &ch : w) if (ch == '-') ch = '_'; a[0] = "timestamped_" + w; a.push_back(be8(t)); }
      Value want = m.apply(a); if (!Model::agree(got[i], want)) c.fail(showArgs(block[i]) + " at " + std::to_string(t) + " answered " + got[i].show() + ", expected " + want.show());
      if (!got[i].isErr()) ok++;
      // the ledger knows only replies
      bool touched = lease && !(got[i].isErr() && a.size() != (w == "lease_acquire" ? 5u : 3u)); if (touched && !(got[i].isErr() && got[i].s.find("lease held") == std::string::npos && got[i].s.find("WRONGTYPE") == std::string::npos)) clock = std::max(clock, t);
      auto it = a.size() > 1 ? ledger.find(a[1]) : ledger.end(); if (it != ledger.end() && it->second.until <= clock) { ledger.erase(it); it = ledger.end(); }
      if (got[i].t == '+' && got[i].s == "ACQUIRED") { c.require(it == ledger.end(), "lease " + quote(a[1]) + " acquired by " + quote(a[2]) + " while held by " + quote(it == ledger.end() ? "" : it->second.holder)); int64_t d; parseI(a[3], d); ledger[a[1]] = {a[2], clock + (uint64_t) d}; c.label("acquired"); }
      else if (got[i].t == '+' && got[i].s == "RENEWED") { c.require(it != ledger.end() && it->second.holder == a[2], "lease " + quote(a[1]) + " renewed by " + quote(a[2]) + " who does not hold it"); int64_t d; parseI(a[3], d); it->second.until = clock + (uint64_t) d; c.label("renewed"); }
      else if (w == "lease_acquire" && got[i].isErr() && got[i].s.find("lease held") != std::string::npos) { c.require(it != ledger.end() && it->second.holder != a[2], "lease " + quote(a[1]) + " refused to " + quote(a[2]) + " though free"); c.label("refused"); }
      else if (w == "lease_release" && got[i].t == '+') { c.require(it != ledger.end(), "released lease " + quote(a[1]) + " was not held"); ledger.erase(a[1]); }
      else if (w == "lease_get" && got[i].t == '0') c.require(it == ledger.end(), "lease " + quote(a[1]) + " disappeared before its deadline");
      else if (w == "del") for (size_t j = 1; j < a.size(); j++) ledger.erase(a[j]);
    }
    if (src.chance(1, 6)) clockAndEvents(c, s, m);
  }
  audit(c, s, m, p, "at the end"); checkRaw(c, s.raw(), "at the end"); clockAndEvents(c, s, m); c.nontrivial(ok >= 8);
}
VF_PROP(M04, clock_never_goes_back, 1500, 40000, vf::kNone) {
  Store s(c, false); uint64_t now = 0; bool moved = false;
  for (int i = 0; i < 20 && src.more(20); i++) {
    uint64_t t = src.chance(1, 12) ? UINT64_MAX / 2 + src.draw(10) : src.chance(1, 3) ? now + src.draw(3) - std::min<uint64_t>(now, 1) : src.draw(300);
    c.note("advance to " + std::to_string(t)); bool threw = false; try { s.sm->advanceClock(t); } catch (const FatalException &) { threw = true; }
    c.require(threw == (t < now), t < now ? "the clock was set back from " + std::to_string(now) + " to " + std::to_string(t) : "the clock refuses to advance");
    if (t > now) { now = t; moved = true; }
    if (src.chance(1, 5)) { s.reopen(); c.require(s.sm->getDynamicClock() >= now, "after reopening, the running clock lags the stored one"); }
    ClockValue v; s.sm->getClock(v); c.equal(v, now, "stored clock");
    if (src.chance(1, 4)) { s.sm->hardSynchronizeDynamicClock(); ClockValue a = s.sm->getDynamicClock(), b = s.sm->getDynamicClock(); c.require(a >= now, "synchronized running clock lags the stored one"); c.require(b >= a, "running clock went back"); c.require(a < now + 60000, "running clock jumped ahead"); }
  }
  c.nontrivial(moved);
}

// ------------------------------------------------------------------------------------------------ M05
VF_RULE(M05, "Cursor walks over keys, hashes, sets, deques and locality hashes with random page sizes per page, MATCH/MATCHLOC patterns and modifications between pages: elements present throughout seen exactly once, nothing else ever seen that never existed, no page larger than asked; malformed and forged cursors. Non-trivial: the walk took at least two pages.");
struct Walk { std::vector<Args> seen; size_t pages = 0; };
// one page: the elements as tuples of the given width
static Walk walk(vf::Source &src, vf::Case &c, Store &s, const Args &head, const Args &tail, size_t width, std::string cursor, const std::function<void()> &between) {
  Walk w; static const std::vector<std::string> sizes = {"1", "2", "3", "4", "7", "100", "9223372036854775807", ""};
  while (true) {
    if (++w.pages > 400) c.fail("cursor walk does not end: " + showArgs(head) + " at " + quote(cursor));
    Args a = head; a.push_back(cursor); std::string n = src.pick(sizes); size_t limit = n.empty() ? 100 : strtoull(n.c_str(), nullptr, 10);
    bool first = src.flip(); if (!n.empty() && first) { a.push_back("COUNT"); a.push_back(n); } for (auto &t : tail) a.push_back(t); if (!n.empty() && !first) { a.push_back("count"); a.push_back(n); }
    Value v = s.run(c, a); c.note(showArgs(a) + " -> " + v.show());
    c.require(v.t == '*' && v.v.size() == 2 && v.v[0].t == '$' && v.v[1].t == '*' && v.v[1].v.size() % width == 0, showArgs(a) + " answers " + v.show());
    size_t got = v.v[1].v.size() / width; c.require(got <= limit, showArgs(a) + " answers a page of " + std::to_string(got));
    for (size_t i = 0; i < got; i++) { Args e; for (size_t j = 0; j < width; j++) e.push_back(v.v[1].v[i * width + j].s); w.seen.push_back(e); }
    cursor = v.v[0].s; if (cursor == "0") return w;
    c.require(startsWith(cursor, "next:"), "cursor " + quote(cursor)); between();
  }
}
VF_PROP(M05, walks, 8000, 250000, vf::kNone) {
  Store s(c, false); Model m; Pool p = genPool(src, 2, 5); int what = (int) src.draw(5); std::string key = src.pick(p.keys); if (what == 4 && key.empty()) key = "k";
  for (auto &f : p.fields) if (f.empty() && what == 4) f = "ee"; for (auto &h : p.hints) if (h.empty()) h = "hh";
  for (int i = 0; i < 12; i++) { std::string x = src.flip() ? src.pick(p.fields) + src.over("ab#", 2) : hostile(src, what < 3); if (std::find(p.fields.begin(), p.fields.end(), x) == p.fields.end() && !(what == 4 && x.empty())) p.fields.push_back(x); }
  uint64_t serial = 0; std::string other = key + "#"; if (what) for (const char *cmd : {"SET", "HSET", "SADD"}) { Args a = cmd == std::string("SET") ? Args{cmd, other, "v"} : cmd == std::string("HSET") ? Args{cmd, other + "h", "f", "v"} : Args{cmd, other + "s", "f"}; s.run(c, a); m.apply(a); }
  auto act = [&](const Args &a) { c.note(showArgs(a)); Value v = s.run(c, a); m.beginTx(); Value w = m.apply(a); if (!Model::agree(v, w)) c.fail(showArgs(a) + " answers " + v.show() + ", expected " + w.show()); };
  static const char *names[] = {"SCAN", "HSCAN", "SSCAN", "DEQUE_SCAN_BACK", "LHSCAN"}; static const size_t widths[] = {1, 2, 1, 1, 3}; c.label(names[what]);
  auto add = [&] { auto f = src.pick(p.fields); switch (what) {
    case 0: { static const std::vector<std::string> t = {"SET", "HSET", "SADD"}; if (m.find(f)) return; act(src.flip() ? Args{"SET", f, "v"} : Args{"SADD", f, "x"}); return; }
    case 1: act({"HSET", key, f, genValue(src)}); return; case 2: act({"SADD", key, f}); return;
    case 3: act({src.flip() ? "DEQUE_PUSH_BACK" : "DEQUE_PUSH_FRONT", key, "v" + std::to_string(serial++)}); return;
    default: act({"LHSET", key, f, src.pick(p.hints), genValue(src)}); } };
  auto drop = [&] { auto f = src.pick(p.fields); switch (what) {
    case 0: act({"DEL", f}); return; case 1: act({"HDEL", key, f}); return; case 2: act({"SREM", key, f}); return;
    case 3: act({src.flip() ? "DEQUE_POP_BACK" : "DEQUE_POP_FRONT", key}); return; default: act({"LHDEL", key, f}); } };
  size_t n = src.size(24); for (size_t i = 0; i < n; i++) add();
  auto elements = [&] { std::set<Args> e; const Obj *o = m.find(key); switch (what) {
    case 0: for (auto &[k, x] : m.keys) e.insert({k}); break; case 1: if (o) for (auto &[f, v] : o->h) e.insert({f, v}); break; case 2: if (o) for (auto &[f, v] : o->h) e.insert({f}); break;
    case 3: if (o) for (auto &v : o->d) e.insert({v}); break; default: if (o) for (auto &[f, hv] : o->lh) e.insert({hv.first, f, hv.second}); } return e; };
  Args head = {names[what]}, tail; if (what) head.push_back(key); std::string pattern;
  if ((what == 0 || what == 4) && src.flip()) { std::vector<std::string> all; for (auto &e : elements()) all.push_back(e[0]); pattern = genGlob(src, all); tail = {what ? "MATCHLOC" : "match", pattern}; c.label("pattern"); }
  auto fits = [&](const Args &e) { return tail.empty() || pattern.empty() || glob(pattern, e[0]); };
  std::set<Args> ever = elements(), throughout = ever; bool busy = src.flip();
  Walk w = walk(src, c, s, head, tail, widths[what], "0", [&] { if (!busy || !src.chance(2, 3)) return; size_t k = 1 + src.draw(3); while (k--) { if (src.flip()) add(); else drop(); auto now = elements(); for (auto &e : now) ever.insert(e); for (auto it = throughout.begin(); it != throughout.end();) if (now.count(*it)) ++it; else it = throughout.erase(it); } });
  std::map<Args, int> count; for (auto &e : w.seen) { count[e]++; c.require(ever.count(e), "the walk shows " + showArgs(e) + " which never existed"); c.require(fits(e), "the walk shows " + showArgs(e) + " which does not match " + quote(pattern)); }
  for (auto &e : throughout) if (fits(e)) c.require(count[e] == 1, showArgs(e) + " was there throughout and seen " + std::to_string(count[e]) + " times");
  if (!busy) for (auto &[e, k] : count) c.require(k <= 1, showArgs(e) + " seen twice"); else c.label("modified between pages");
  c.nontrivial(w.pages > 1);
}
VF_PROP(M05, cursors_and_arguments, 6000, 200000, vf::kNone) {
  Store s(c, false); Model m; Pool p = genPool(src, 1, 1); int what = (int) src.draw(5); std::string key = p.keys[0].empty() ? "k" : p.keys[0];
  size_t n = src.size(10); std::set<Args> have; uint64_t serial = 0; static const char *names[] = {"SCAN", "HSCAN", "SSCAN", "DEQUE_SCAN_BACK", "LHSCAN"}; static const size_t widths[] = {1, 2, 1, 1, 3};
  for (size_t i = 0; i < n; i++) { std::string f = hostile(src, false), h = hostile(src, false), v = "v" + std::to_string(serial++);
    switch (what) { case 0: s.run(c, {"SET", f, v}); have.insert({f}); break; case 1: if (s.run(c, {"HSETNX", key, f, v}) == vInt(1)) have.insert({f, v}); break; case 2: s.run(c, {"SADD", key, f}); have.insert({f}); break; case 3: s.run(c, {src.flip() ? "DEQUE_PUSH_BACK" : "DEQUE_PUSH_FRONT", key, v}); have.insert({v}); break; default: if (s.run(c, {"LHGET", key, f}).t == '0') { s.run(c, {"LHSET", key, f, h, v}); have.insert({h, f, v}); } } }
  if (what == 3) { while (!have.empty() && src.flip()) { Value v = s.run(c, {src.flip() ? "DEQUE_POP_FRONT" : "DEQUE_POP_BACK", key}); have.erase({v.s}); } }
  Args head = {names[what]}; if (what) head.push_back(key); c.label(names[what]);
  std::string cur; bool next = src.chance(3, 4); std::string body;
  switch (src.draw(6)) { case 0: body = src.bytes(12); break; case 1: body = src.over("#|a0", 8); break; case 2: body = be8(src.draw(1000)); break; case 3: body = be8((uint64_t) -1 - src.draw(4)); break; case 4: body = be8((1ull << 63) + src.draw(40) - 20); break; default: if (!have.empty()) { auto e = *have.begin(); body = what == 4 ? e[0] + "##" + e[1] : e[0]; } }
  cur = next ? "next:" + body : src.chance(1, 4) ? std::string("Next:") + body : src.pick(std::vector<std::string>{"", "00", "next", "-1", "1", "0 ", "NEXT:a", " 0"});
  static const std::vector<std::string> counts = {"1", "2", "5", "9223372036854775807", "6148914691236517206", "4611686018427387904", "0", "00", "-1", "+0", "", "x", "9223372036854775808", "+3"};
  std::string cnt = src.pick(counts); int64_t k = 0; bool cntOk = parseI(cnt, k) && k > 0, withCount = src.flip(), extra = src.chance(1, 10);
  Args a = head; a.push_back(cur); if (withCount) { a.push_back("COUNT"); a.push_back(cnt); } if (extra) a.push_back(src.flip() ? "COUNT" : "x");
  Value v = s.run(c, a); c.note(showArgs(a) + " -> " + v.show());
  if (!next || (withCount && !cntOk) || extra) { c.require(v.isErr(), showArgs(a) + " accepted: " + v.show()); c.label("refused"); c.nontrivial(); return; }
  if (what == 3 && !have.empty() && body.size() != 8 && !body.empty()) { c.require(v.isErr(), "malformed cursor accepted: " + showArgs(a)); c.label("refused"); c.nontrivial(); return; }
  if (what == 4 && !body.empty()) { // the hint must be complete
    size_t at = body.find("##", 1); bool bad = body.size() < 3 || at == body.npos, lone = false; for (size_t i = 0; !bad && i < at; i++) { if (body[i] == '|' && i + 1 < body.size() && body[i + 1] == '#') i++; else if (body[i] == '#') lone = true; }
    if (bad) { c.require(v.isErr(), "malformed cursor accepted: " + showArgs(a) + " -> " + v.show()); c.label("refused"); c.nontrivial(); return; }
    if (v.isErr()) { c.label("refused"); c.nontrivial(lone); return; } }   // a stray # may or may not be tolerated
  c.require(v.t == '*' && v.v.size() == 2, showArgs(a) + " answers " + v.show());
  // a forged cursor may start anywhere, but what it shows exists, and the walk ends
  Walk w = walk(src, c, s, head, {}, widths[what], cur, [] {}); std::set<Args> seen; for (auto &e : w.seen) { c.require(have.count(e), "forged cursor shows " + showArgs(e) + " which does not exist"); c.require(seen.insert(e).second, "forged cursor shows " + showArgs(e) + " twice"); }
  c.label("walked from a forged cursor"); c.nontrivial();
}

// ------------------------------------------------------------------------------------------------ M07
VF_RULE(M07, "One command sequence over all types run one by one on one store and cut into random blocks (MULTI and pipelined) on another: same replies, same stored records (versions of versioned hashes aside). Threads reading in blocks and single commands while another writes in blocks never see half of one. Non-trivial: some block holds at least two commands, or a reader saw at least two different states.");
static std::map<std::string, std::string> maskVersions(std::map<std::string, std::string> raw) { raw.erase("__last-applied"); for (auto &[k, v] : raw) if (k[0] == '!' && v.size() == 17 && v[0] == 'g') v.resize(9); return raw; }
VF_PROP(M07, blocks_equal_singles, 5000, 150000, vf::kNone) {
  Store one(c, true); Store two(c.scratch() + "/two", true); Model m; Pool p = genPool(src); size_t total = 1 + src.size(45), longest = 0, at = 0; std::vector<Args> all; Mix w = kEverything;
  for (size_t i = 0; i < total; i++) { all.push_back(genCommand(src, p, w, m)); m.beginTx(); m.apply(all.back()); }
  while (at < total) {
    VF_SPAN(src); size_t n = std::min<size_t>(total - at, src.chance(1, 4) ? 1 : 1 + src.draw(9)); bool phantom = src.flip(); std::vector<Args> block(all.begin() + (long) at, all.begin() + (long) (at + n)); at += n; longest = std::max(longest, n);
    c.note(phantom ? "-- pipelined" : "-- MULTI"); for (auto &a : block) c.note("     " + showArgs(a));
    auto got = two.tx(c, block, phantom);
    for (size_t i = 0; i < n; i++) {
      Value want = one.run(c, block[i]), have = got[i]; std::string cmd = lower(block[i][0]);
      if (cmd == "vhset" || cmd == "vhdel") { if (want.t == ':') want.s = ""; if (have.t == ':') have.s = ""; } if (cmd == "vhgetall") { if (want.v.size() == 2) want.v[0].s = ""; if (have.v.size() == 2) have.v[0].s = ""; }
      if (want != have) c.fail(showArgs(block[i]) + " answers " + have.show() + " inside the block, " + want.show() + " on its own");
    }
    std::string d = diffMaps(maskVersions(one.raw()), maskVersions(two.raw()), "the single commands' store", "the blocks' store"); if (!d.empty()) c.fail("stored data differ:" + d);
  }
  c.nontrivial(longest >= 2);
}
VF_PROP(M07, never_half_done, 60, 1200, vf::kConcurrent) {
  Store s(c, true); std::atomic<bool> stop{false}; size_t readers = 1 + src.draw(3), rounds = 30 + src.draw(60); std::vector<std::string> errors(readers); std::vector<std::set<std::string>> seen(readers); bool phantom = src.flip(); size_t fields = 2 + src.draw(4);
  auto block = [&](size_t i) { std::string x = std::to_string(i); std::vector<Args> b{{"SET", "s", x}, {"HSET", "h0", "f", x}};
    for (size_t f = 0; f < fields; f++) b.push_back({"HSET", "h", "f" + std::to_string(f), x}); b.push_back({"DEL", "set"}); b.push_back({"SADD", "set", "a" + x, "b" + x}); b.push_back({"DEQUE_CLEAR", "d"}); b.push_back({"DEQUE_PUSH_BACK", "d", x, x, x}); b.push_back({"LHSET", "lh", "f", "hint" + x, x}); b.push_back({"VHSET", "vh", "f", x}); return b; };
  s.wireTx(block(0), false);
  std::vector<std::thread> ts;
  for (size_t r = 0; r < readers; r++) ts.emplace_back([&, r] {
    while (!stop) {
      std::vector<Args> q{{"GET", "s"}, {"HGETALL", "h"}, {"HGET", "h0", "f"}, {"SMEMBERS", "set"}, {"DEQUE_SCAN_BACK", "d", "0"}, {"LHGET", "lh", "f"}, {"LHLEN", "lh"}, {"VHGETALL", "vh"}, {"SCARD", "set"}, {"DEQUE_LEN", "d"}};
      std::string w = s.wireTx(q, r % 2); RespReader rd(w); std::vector<Value> v; if (!(r % 2)) { auto x = rd.read(); if (x) v = x->v; } else while (!rd.atEnd()) { auto x = rd.read(); if (!x) break; v.push_back(*x); }
      if (v.size() != q.size()) { errors[r] = "malformed answer " + vf::quote(w); return; }
      std::string x = v[0].s; std::string want; bool bad = v[2].s != x || v[5].s != x || v[6].s != "1" || v[8].s != "2" || v[9].s != "3" || v[1].v.size() != 2 * fields;
      for (size_t i = 1; i < v[1].v.size(); i += 2) bad |= v[1].v[i].s != x; bad |= v[3].v.size() != 2 || v[3].v[0].s != "a" + x || v[3].v[1].s != "b" + x; bad |= v[4].v.size() != 2 || v[4].v[1].v.size() != 3; if (!bad) for (auto &e : v[4].v[1].v) bad |= e.s != x;
      bad |= v[7].v.size() != 2 || v[7].v[1].v.size() != 2 || v[7].v[1].v[1].s != x || v[7].v[0].s != std::to_string(strtoull(x.c_str(), nullptr, 10) + 1);
      if (bad) { errors[r] = "a block was seen half done:"; for (size_t i = 0; i < q.size(); i++) errors[r] += " " + showArgs(q[i]) + " = " + v[i].show() + ";"; return; }
      // one command alone
      std::string w1 = s.wire({"HGETALL", "h"}); RespReader rd1(w1); auto h = rd1.read(); if (h) for (size_t i = 3; i < h->v.size(); i += 2) if (h->v[i] != h->v[1]) { errors[r] = "HGETALL saw half a block: " + h->show(); return; }
      seen[r].insert(x);
    }
  });
  for (size_t i = 1; i <= rounds; i++) { s.wireTx(block(i), phantom); if (i % 16 == 0) std::this_thread::yield(); }
  stop = true; for (auto &t : ts) t.join();
  size_t states = 0; for (size_t r = 0; r < readers; r++) { if (!errors[r].empty()) c.fail(errors[r]); states = std::max(states, seen[r].size()); }
  c.nontrivial(states >= 2);
}

// ------------------------------------------------------------------------------------------------ M08
VF_RULE(M08, "A random log (single commands, MULTI and pipelined blocks, membership and leadership markers) applied to a store whose on-disk files are copied, the write-ahead log cut at a random byte, and reopened: the data are exactly those recorded at the applied position found; re-applying the rest reaches the same end. The same log applied as transactions, as serialized entries, with restarts and compactions leaves identical records. Out-of-order positions are refused without effect. Non-trivial: at least 3 entries.");
struct Entry { std::vector<Args> cmds; bool phantom = false; std::string marker; };
static std::vector<Entry> genLog(vf::Source &src, vf::Case &c, size_t maxLen, const Mix &mix) {
  std::vector<Entry> log; Model m; Pool p = genPool(src); size_t n = 1 + src.size(maxLen - 1);
  for (size_t i = 0; i < n; i++) {
    VF_SPAN(src); Entry e;
    if (src.chance(1, 10)) { e.marker = src.pick(std::vector<std::string>{"JOURNAL_UPDATE_MEMBERS", "JOURNAL_LEADERSHIP_MARKER", "JOURNAL_X"}); c.note("-- " + e.marker); log.push_back(e); continue; }
    e.phantom = src.flip(); bool writes = false; size_t k = src.flip() ? 1 : 1 + src.draw(5); for (size_t j = 0; j < k; j++) { Args a = genCommand(src, p, mix, m); m.beginTx(); m.apply(a); writes |= isWrite(a); e.cmds.push_back(a); }
    if (!writes) e.cmds.push_back({"SET", src.pick(p.keys), "w"});
    c.note("-- entry " + std::to_string(i + 1)); for (auto &a : e.cmds) c.note("     " + showArgs(a));
    log.push_back(e);
  }
  return log;
}
// how: 0 live transaction, 1 the serialized entry as a follower applies it
static std::string applyEntry(Store &s, const Entry &e, int how, LogIndex idx) {
  if (!e.marker.empty()) { RedisRequest r = toRequest({e.marker, "x", "y"}); return s.disp->dispatch(r, idx).val; }
  if (how == 1 && e.cmds.size() == 1 && isWrite(e.cmds[0])) { RedisRequest r = toRequest(e.cmds[0]); return s.disp->dispatch(r, idx).val; }
  Transaction tx; for (auto &a : e.cmds) tx.push_back(toRequest(a)); tx.setPhantom(e.phantom);
  if (how == 0) return s.disp->dispatch(tx, idx).val;
  RedisRequest r = tx.toRedisRequest(); return s.disp->dispatch(r, idx).val;
}
static fs::path lastWal(const std::string &dir) { fs::path best; for (auto &e : fs::recursive_directory_iterator(dir)) if (e.path().extension() == ".log" && (best.empty() || e.path().filename() > best.filename())) best = e.path(); return best; }
// the storage engine deletes obsolete files in the background: start over when one goes while it is being copied
static void copyStore(const std::string &from, const std::string &to) {
  for (int i = 0;; i++) { std::error_code ec; fs::copy(from, to, fs::copy_options::recursive, ec); if (!ec) return; if (i == 50) throw fs::filesystem_error("cannot copy", ec); fs::remove_all(to, ec); std::this_thread::sleep_for(std::chrono::milliseconds(2)); }
}
VF_PROP(M08, crash_anywhere, 3000, 80000, vf::kNone) {
  Mix mix = kEverything; auto log = genLog(src, c, 24, mix); std::vector<std::map<std::string, std::string>> dumps; std::vector<std::string> replies(log.size() + 1);
  Store s(c, true); if (src.chance(1, 3)) { s.reopen(); } size_t base = fs::file_size(lastWal(s.path)); dumps.push_back(s.raw());
  for (size_t i = 0; i < log.size(); i++) {
    replies[i + 1] = applyEntry(s, log[i], 0, (LogIndex) i + 1); dumps.push_back(s.raw());
    c.equal(s.sm->getLastApplied(), (LogIndex) i + 1, "applied position"); c.require(dumps.back()["__last-applied"] == be8(i + 1), "stored applied position after entry " + std::to_string(i + 1));
    if (src.chance(1, 40)) { s.reopen(); base = fs::file_size(lastWal(s.path)); std::string d = diffMaps(dumps.back(), s.raw(), "before", "after"); if (!d.empty()) c.fail("reopening changed the data:" + d); }
  }
  std::string copy = c.scratch() + "/crashed"; copyStore(s.path, copy); fs::path wal = lastWal(copy); size_t size = fs::file_size(wal); if (src.chance(1, 8)) s.close();
  size_t cut = base + src.draw(size - base + 1); fs::resize_file(wal, cut); c.note("-- crash, log cut at byte " + std::to_string(cut) + " of " + std::to_string(size));
  Store t(copy, true); LogIndex L = t.sm->getLastApplied(); c.require(L >= 0 && (size_t) L < dumps.size(), "applied position " + std::to_string(L) + " after the crash"); c.note("-- recovered at " + std::to_string(L));
  std::string d = diffMaps(dumps[(size_t) L], t.raw(), "the data at that position", "the recovered store"); if (!d.empty()) c.fail("after a crash, the data are not those of position " + std::to_string(L) + ":" + d);
  if (cut == size) c.equal((size_t) L, log.size(), "applied position with nothing lost"); if ((size_t) L < log.size()) c.label("entries lost"); if (L > 0 && (size_t) L < log.size()) c.label("some entries lost");
  for (size_t i = (size_t) L; i < log.size(); i++) { std::string w = applyEntry(t, log[i], 0, (LogIndex) i + 1); c.equal(w, replies[i + 1], "reply of entry " + std::to_string(i + 1) + " applied again"); d = diffMaps(dumps[i + 1], t.raw(), "the first run", "the recovered store"); if (!d.empty()) c.fail("re-applying entry " + std::to_string(i + 1) + " after the crash:" + d); }
  c.nontrivial(log.size() >= 3);
}
VF_PROP(M08, replicas_agree, 2500, 70000, vf::kNone) {
  auto log = genLog(src, c, 24, kEverything); Store a(c, true), b(c.scratch() + "/b", true); int restarts = 0;
  for (size_t i = 0; i < log.size(); i++) {
    std::string x = applyEntry(a, log[i], 0, (LogIndex) i + 1), y = applyEntry(b, log[i], 1, (LogIndex) i + 1); if (log[i].marker.empty() && (log[i].cmds.size() > 1)) c.equal(vf::quote(y), vf::quote(x), "reply of the serialized entry " + std::to_string(i + 1));
    if (restarts < 3 && src.chance(1, 6)) { c.note("-- restart of one replica"); b.reopen(); restarts++; } if (src.chance(1, 60)) { c.note("-- compaction"); b.sm->manualCompaction(); c.label("compacted"); }
    if (src.chance(1, 3) || i + 1 == log.size()) { std::string d = diffMaps(a.raw(), b.raw(), "one replica", "the other"); if (!d.empty()) c.fail("replicas differ after entry " + std::to_string(i + 1) + ":" + d); }
  }
  a.reopen(); std::string d = diffMaps(a.raw(), b.raw(), "one replica", "the other"); if (!d.empty()) c.fail("replicas differ after a restart:" + d);
  if (restarts) c.label("restarted"); c.nontrivial(log.size() >= 3);
}
VF_PROP(M08, positions, 2500, 60000, vf::kNone) {
  auto log = genLog(src, c, 12, Mix{{fStr, 3}, {fHash, 4}, {fSet, 4}, {fDeq, 4}, {fLh, 4}, {fVh, 3}, {fKeyspace, 3}, {fConfig, 1}}); Store s(c, true); bool refused = false;
  for (size_t i = 0; i < log.size(); i++) {
    LogIndex good = (LogIndex) i + 1; auto before = s.raw();
    if (src.flip()) {
      LogIndex bad; switch (src.draw(5)) { case 0: bad = good - 1; break; case 1: bad = good + 1; break; case 2: bad = 0; break; case 3: bad = good + 1 + (LogIndex) src.draw(1000); break; default: bad = good - 1 - (LogIndex) src.draw(5); }
      int how = (int) src.draw(2); Entry e = log[i]; if (bad <= 0 && i == 0) bad = good + 1; if (bad == 0 && how == 1) how = 0;
      bool threw = false; try { applyEntry(s, e, how, bad); } catch (const FatalException &) { threw = true; }
      c.note("position " + std::to_string(bad) + " at " + std::to_string(i)); c.require(threw, "entry applied at position " + std::to_string(bad) + " right after " + std::to_string(i)); std::string d = diffMaps(before, s.raw(), "before", "after"); if (!d.empty()) c.fail("a refused entry changed the data:" + d); c.equal(s.sm->getLastApplied(), (LogIndex) i, "applied position"); refused = true;
    }
    applyEntry(s, log[i], (int) src.draw(2), good); if (src.chance(1, 10)) s.reopen(); c.equal(s.sm->getLastApplied(), good, "applied position");
    c.require(s.sm->waitUntilTargetLastApplied(good, std::chrono::milliseconds(0)), "waiting for an applied position"); c.require(!s.sm->waitUntilTargetLastApplied(good + 1, std::chrono::milliseconds(0)), "a position is reported applied before it is");
  }
  // reads never take a position, and cannot be given one
  if (!log.empty()) { Args rd{"GET", "x"}; RedisRequest r = toRequest(rd); bool threw = false; try { s.disp->dispatch(r, (LogIndex) log.size() + 1); } catch (const FatalException &) { threw = true; } c.require(threw, "a read was applied as a log entry"); s.disp->dispatch(r, 0); }
  c.nontrivial(refused);
}

// ------------------------------------------------------------------------------------------------ M10
VF_RULE(M10, "Random bulk-loadable commands loaded in bulk mode, finalized, reopened and compared, replies and every stored record, with a store written normally; reads during the load show nothing, deletions are refused, unfinalized or live data cannot be opened. Non-trivial: at least two keys loaded.");
VF_PROP(M10, equal_to_normal, 2500, 60000, vf::kNone) {
  Model m; Pool p = genPool(src, 2, 8); std::vector<Args> cmds; size_t n = 1 + src.size(30); std::map<std::string, Kind> kind; for (auto &k : p.keys) { static const Kind ks[] = {kStr, kHash, kSet, kLh}; kind[k] = ks[src.draw(4)]; if (k.empty() && kind[k] == kLh) kind[k] = kHash; }
  for (auto &f : p.fields) if (f.empty()) f = "ef"; for (auto &h : p.hints) if (h.empty()) h = "eh";
  for (size_t i = 0; i < n; i++) {
    VF_SPAN(src); auto k = src.pick(p.keys); Args a; auto f = src.pick(p.fields);
    if (src.chance(1, 15)) a = {"CONFIG_SET", src.over("ab", 2), genValue(src)};
    else switch (kind[k]) {
      case kStr: a = {"SET", k, genValue(src)}; break;
      case kHash: if (src.flip()) a = {"HSET", k, f, genValue(src)}; else { a = {"HMSET", k, f, genValue(src)}; while (src.flip() && a.size() < 10) { a.push_back(src.pick(p.fields)); a.push_back(genValue(src)); } } break;
      case kSet: a = {"SADD", k, f}; while (src.flip() && a.size() < 8) a.push_back(src.pick(p.fields)); break;
      default: { auto o = m.find(k); if (o && o->lh.count(f)) continue; a = {"LHSET", k, f, src.pick(p.hints), genValue(src)}; }
    }
    c.note(showArgs(a)); cmds.push_back(a); m.beginTx(); m.apply(a);
  }
  Store normal(c.scratch() + "/normal", false); for (auto &a : cmds) normal.run(c, a);
  Store bulk(c, false, true); c.require(bulk.sm->inBulkLoad(), "not in bulk load");
  size_t at = 0; while (at < cmds.size()) {
    size_t k = src.flip() ? 1 : std::min<size_t>(cmds.size() - at, 1 + src.draw(5)); std::vector<Args> block(cmds.begin() + (long) at, cmds.begin() + (long) (at + k)); at += k;
    auto v = k == 1 && src.flip() ? std::vector<Value>{bulk.run(c, block[0])} : bulk.tx(c, block, src.flip()); for (size_t i = 0; i < v.size(); i++) c.require(!v[i].isErr(), showArgs(block[i]) + " refused during bulk load: " + v[i].show());
    if (src.chance(1, 8)) { auto x = src.pick(p.keys); Value r = bulk.run(c, {"EXISTS", x}); c.require(r == vInt(0), "EXISTS during bulk load answers " + r.show()); r = bulk.run(c, {"GET", x}); c.require(r.t == '0', "GET during bulk load answers " + r.show()); r = bulk.run(c, {"HGETALL", x}); c.require(r == vArr({}), "HGETALL during bulk load answers " + r.show()); r = bulk.run(c, {"KEYS", "*"}); c.require(r == vArr({}), "KEYS during bulk load answers " + r.show()); }
  }
  if (src.chance(1, 10)) { // never finalized: refuses to open
    bulk.close(); bool threw = false; try { bulk.open(); } catch (const FatalException &) { threw = true; } c.require(threw, "bulk-loaded data opened without being finalized"); c.label("not finalized"); return; }
  bulk.sm->finalizeBulkload(); bulk.close();
  if (src.chance(1, 10)) { bool threw = false; try { bulk.open(true); } catch (const FatalException &) { threw = true; } c.require(threw, "bulk load over existing data was allowed"); c.label("reopened for bulk load"); }
  bulk.open(); audit(c, bulk, m, p, "after bulk load"); checkRaw(c, bulk.raw(), "after bulk load"); audit(c, normal, m, p, "normal store");
  std::string d = diffMaps(normal.raw(), bulk.raw(), "the normal store", "the bulk-loaded store"); if (!d.empty()) c.fail("bulk-loaded data differ:" + d);
  // and it goes on like any other store
  if (src.flip()) { Model m2 = m; for (int i = 0; i < 8; i++) { Args a = genCommand(src, p, kEverything, m2); m2.beginTx(); Value w = m2.apply(a), v = bulk.run(c, a); c.note("then " + showArgs(a)); if (!Model::agree(v, w)) c.fail("after bulk load, " + showArgs(a) + " answers " + v.show() + ", expected " + w.show()); } audit(c, bulk, m2, p, "later"); checkRaw(c, bulk.raw(), "later"); }
  c.nontrivial(m.keys.size() >= 2);
}
VF_PROP(M10, deletions_refused, 800, 20000, vf::kNone) {
  Store bulk(c, false, true); Pool p = genPool(src, 1, 3); Model m; size_t n = src.size(6); for (size_t i = 0; i < n; i++) bulk.run(c, {"HSET", src.pick(p.keys), src.pick(p.fields), "v"}); auto before = bulk.raw();
  auto k = src.pick(p.keys), f = src.pick(p.fields); std::vector<Args> dels{{"DEL", k}, {"HDEL", k, f}, {"SREM", k, f}, {"LHDEL", "k", "f"}, {"DEQUE_POP_FRONT", k}, {"DEQUE_CLEAR", k}, {"FLUSHALL"}, {"VHDEL", k, f}, {"SMOVE", k, "other", f}}; Args a = src.pick(dels); c.note(showArgs(a));
  bool threw = false; std::string w; try { w = bulk.wire(a); } catch (const FatalException &) { threw = true; }
  c.note(threw ? "refused" : vf::quote(w)); std::string d = diffMaps(before, bulk.raw(), "before", "after"); if (!d.empty()) c.fail(showArgs(a) + " during bulk load changed the data:" + d);
  for (auto &x : {k}) { Value v = bulk.run(c, {"HSET", x, f, "w"}); c.require(!v.isErr(), "loading goes on"); }
  c.nontrivial();
}
