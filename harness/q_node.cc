// R09 one node of a cluster which otherwise exists only on paper, R10 a leader and its clients.
#include "raft.hh"
using namespace raftcheck;

namespace {
NoConnectionLogs quiet;
const RaftServer ME{"me", 1};
const std::string CLUSTER = "cluster";
std::vector<RaftServer> others() { return {{"a", 1}, {"b", 2}, {"c", 3}, {"d", 4}}; }
struct OneNode {
  std::string path; std::unique_ptr<ShardDirectory> dir; std::unique_ptr<RaftGroup> g; RaftTimeouts timeouts = relaxedTimeouts;
  OneNode(vf::Case &c, const std::vector<RaftServer> &members) : path(c.scratch() + "/shard") { Status st; std::unique_ptr<StateMachine> none; dir.reset(ShardDirectory::create(path, CLUSTER, "s", members, 0, FsyncPolicy::kAsync, std::move(none), st)); c.require(st.ok() && dir, "cannot create a shard"); open(); }
  void open() { if (!dir) dir.reset(new ShardDirectory(path)); g.reset(new RaftGroup(*dir, ME, timeouts, "")); g->dispatcher(); }
  void close() { g.reset(); dir.reset(); }
};
// membership as text, "nodes|observers"
std::string membersText(const std::vector<RaftServer> &n, const std::vector<RaftServer> &o) { return showServers(n) + "|" + showServers(o); }
std::vector<RaftServer> nodesOf(const std::string &text) { std::vector<RaftServer> v; std::string s = text.substr(0, text.find('|')); size_t at = 0; while (at < s.size()) { size_t e = s.find(',', at); if (e == s.npos) e = s.size(); std::string one = s.substr(at, e - at); size_t p = one.find(':'); v.push_back({one.substr(0, p), atoi(one.c_str() + p + 1)}); at = e + 1; } return v; }

struct Leader { RaftTerm term; RaftServer srv; std::vector<Entry> log; LogIndex known; };
struct Message { RaftTerm term; RaftServer leader; LogIndex prev; RaftTerm prevTerm; LogIndex commit; std::vector<Entry> entries; };

struct Follower {
  vf::Source &src; vf::Case &c; OneNode n; std::unique_ptr<Client> peer, reader;
  // the cluster on paper
  std::vector<Leader> leaders; LogIndex committed = 0; std::vector<Message> old; std::vector<Entry> first;
  // what my node should know
  RaftTerm term = 0; std::string vote; RaftServer leader; std::vector<Entry> log; LogIndex start = 0, commit = 0; bool candidate = false; std::map<std::string, std::string> data; LogIndex applied = 0;
  int truncations = 0, duplicates = 0, mismatches = 0, grants = 0, vetoes = 0, stale = 0, restarts = 0;
  static std::vector<RaftServer> initial(vf::Source &src) { std::vector<RaftServer> v = others(); v.resize(2 + 2 * src.draw(2)); v.insert(v.begin() + (long) src.draw(v.size() + 1), ME); return v; }
  Follower(vf::Source &s, vf::Case &c_) : src(s), c(c_), n(c_, initial(s)) {
    log.push_back(entryAt(c, *n.g->journal(), 0)); first = log; connect(); check("at the start");
  }
  void connect() {
    peer.reset(new Client("peer")); reader.reset(new Client("reader")); Value v = peer->ask(c, n.g->dispatcher(), {"RAFT_HEARTBEAT", std::to_string(term + 5), "a:1"}); c.require(v.isErr(), "a peer who did not introduce itself was listened to");
    v = peer->ask(c, n.g->dispatcher(), {"RAFT_HANDSHAKE", "x", "another cluster", n.timeouts.toString()}); c.require(v.isErr(), "a peer from another cluster was welcomed"); v = peer->ask(c, n.g->dispatcher(), {"RAFT_REQUEST_VOTE", std::to_string(term + 5), "a:1", "1000", "1000"}); c.require(v.isErr(), "a peer from another cluster was listened to");
    v = peer->ask(c, n.g->dispatcher(), {"RAFT_HANDSHAKE", "x", CLUSTER, n.timeouts.toString()}); c.equal(v, vStatus("OK"), "handshake"); v = reader->ask(c, n.g->dispatcher(), {"ACTIVATE_STALE_READS"}); c.equal(v, vStatus("OK"), "stale reads");
  }
  LogIndex size() { return (LogIndex) log.size(); }
  std::string members() { for (LogIndex i = size() - 1; i >= 0; i--) if (lower(log[(size_t) i].a[0]) == "journal_update_members") return log[(size_t) i].a[1]; return ""; }
  LogIndex epoch() { for (LogIndex i = size() - 1; i >= 0; i--) if (lower(log[(size_t) i].a[0]) == "journal_update_members") return i; return -1; }
  bool isMember(const RaftServer &s) { for (auto &x : nodesOf(members())) if (x == s) return true; return false; }
  // ---- the cluster on paper
  void elect() {
    // the new leader's log holds everything committed, and beyond that a piece of some earlier leader's log
    std::vector<size_t> able; for (size_t i = 0; i < leaders.size(); i++) { auto &l = leaders[i].log; if ((LogIndex) l.size() <= committed) continue; bool same = true; for (LogIndex k = 0; k <= committed && same; k++) same = l[(size_t) k] == leaders.back().log[(size_t) k]; if (same) able.push_back(i); }
    Leader l; std::vector<RaftServer> who; std::string mem;
    if (leaders.empty()) l.log = first; else { auto &b = leaders[able.empty() ? leaders.size() - 1 : src.flip() ? able.back() : src.pick(able)].log; size_t keep = (size_t) committed + 1; l.log.assign(b.begin(), b.begin() + (long) (keep + src.draw(b.size() - keep + 1))); }
    for (LogIndex i = (LogIndex) l.log.size() - 1; i >= 0 && mem.empty(); i--) if (lower(l.log[(size_t) i].a[0]) == "journal_update_members") mem = l.log[(size_t) i].a[1];
    for (auto &s : nodesOf(mem)) if (!(s == ME)) who.push_back(s); if (who.empty()) return;
    l.srv = src.pick(who); l.term = std::max(term, leaders.empty() ? 0 : leaders.back().term) + 1 + (RaftTerm) (src.chance(1, 4) ? src.draw(3) : 0); l.known = committed; l.log.push_back({l.term, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(l.term), l.srv.toString()}});
    c.note("elsewhere: " + l.srv.toString() + " is elected for term " + std::to_string(l.term) + ", its log has " + std::to_string(l.log.size()) + " entries"); leaders.push_back(l);
  }
  void extend(Leader &l) {
    size_t k = 1 + src.size(5); for (size_t i = 0; i < k; i++) {
      if (src.chance(1, 14)) {   // one change of membership at a time
        LogIndex e = 0; std::string mem; for (LogIndex x = (LogIndex) l.log.size() - 1; x >= 0; x--) if (lower(l.log[(size_t) x].a[0]) == "journal_update_members") { e = x; mem = l.log[(size_t) x].a[1]; break; }
        if (e <= l.known) { auto v = nodesOf(mem); std::vector<RaftServer> pool = others(); pool.push_back(ME); RaftServer s = src.pick(pool); if (!(s == l.srv)) { bool had = false; std::vector<RaftServer> w; for (auto &x : v) if (x == s) had = true; else w.push_back(x); if (!had) w.push_back(s); l.log.push_back({l.term, {"JOURNAL_UPDATE_MEMBERS", membersText(w, {}), CLUSTER}}); continue; } }
      }
      Args a; switch (src.weighted({5, 2, 1, 1})) { case 0: a = {"SET", "k" + std::to_string(src.draw(5)), src.bytes(6)}; break; case 1: a = {"HSET", "h", "f" + std::to_string(src.draw(3)), "v" + std::to_string(src.draw(100))}; break; case 2: a = {"DEL", "k" + std::to_string(src.draw(5))}; break; default: a = {"SET", "big", std::string(src.draw(2000), 'x')}; } l.log.push_back({l.term, a}); }
  }
  void commitSome() { if (leaders.empty()) return; Leader &l = leaders.back(); std::vector<LogIndex> may; for (LogIndex i = committed + 1; i < (LogIndex) l.log.size(); i++) if (l.log[(size_t) i].term == l.term) may.push_back(i); if (!may.empty()) { committed = src.pick(may); l.known = committed; c.note("elsewhere: entries up to " + std::to_string(committed) + " are committed"); } }
  Message compose() {
    Leader &l = leaders[src.chance(1, 5) ? src.draw(leaders.size()) : leaders.size() - 1]; LogIndex sz = (LogIndex) l.log.size(); Message m; m.term = l.term; m.leader = l.srv;
    switch (src.weighted({4, 3, 2})) { case 0: m.prev = std::min(size() - 1, sz - 1); if (src.flip()) { LogIndex k = 0; while (k + 1 < std::min(size(), sz) && log[(size_t) k + 1] == l.log[(size_t) k + 1]) k++; m.prev = k; } break; case 1: m.prev = (LogIndex) src.draw((uint64_t) sz); break; default: m.prev = sz - 1; }
    size_t n = (size_t) std::min<uint64_t>((uint64_t) (sz - 1 - m.prev), src.chance(1, 3) ? 100 : src.draw(5)); m.prevTerm = l.log[(size_t) m.prev].term; m.entries.assign(l.log.begin() + (m.prev + 1), l.log.begin() + (m.prev + 1 + (LogIndex) n)); m.commit = src.chance(1, 4) ? (LogIndex) src.draw((uint64_t) l.known + 1) : l.known; return m;
  }
  // ---- what arrives at my node
  void observe(RaftTerm t, const RaftServer &l) { if (t > term) { term = t; vote = l.empty() ? "" : "blocked"; leader = l; candidate = false; } else if (t == term && leader.empty()) { leader = l; if (!l.empty() && vote.empty()) vote = "blocked"; } }
  void deliver(const Message &m) {
    std::string what = "append-entries from " + m.leader.toString() + ", term " + std::to_string(m.term) + ", after " + std::to_string(m.prev) + " (term " + std::to_string(m.prevTerm) + "), " + std::to_string(m.entries.size()) + " entries, committed up to " + std::to_string(m.commit); c.note(what);
    Args a{"RAFT_APPEND_ENTRIES", m.leader.toString(), be8((uint64_t) m.term) + be8((uint64_t) m.prev) + be8((uint64_t) m.prevTerm) + be8((uint64_t) m.commit) + be8(m.entries.size())}; for (auto &e : m.entries) a.push_back(packEntry(e.term, e.a));
    auto lastBeat = n.g->heartbeatTracker()->getLastHeartbeat(); auto before = std::chrono::steady_clock::now(); Value v = peer->ask(c, n.g->dispatcher(), a); bool ok = true;
    if (m.term < term) { ok = false; stale++; }
    else {
      observe(m.term, m.leader); ok = m.prev < size() && m.prev >= start && log[(size_t) m.prev].term == m.prevTerm; if (!ok) mismatches++;
      if (ok) {
        size_t i = 0; LogIndex at = m.prev + 1; while (i < m.entries.size() && at < size() && log[(size_t) at] == m.entries[i]) { i++; at++; } if (i == m.entries.size() && i) duplicates++;
        if (i < m.entries.size()) { if (at < size()) { truncations++; c.require(at > commit, "the harness made a leader which contradicts what is committed"); log.resize((size_t) at); } log.insert(log.end(), m.entries.begin() + (long) i, m.entries.end()); }
        commit = std::max(commit, std::min(m.prev + (LogIndex) m.entries.size(), m.commit));
      }
    }
    c.require(v.t == '*' && v.v.size() == 4, what + " answered " + v.show()); c.equal(v.v[0], vStr(std::to_string(term)), what + ": term"); c.equal(v.v[1], vStr(std::to_string(size())), what + ": log size"); c.equal(v.v[2], vStr(ok ? "1" : "0"), what + ": outcome"); c.require(ok == v.v[3].s.empty(), what + ": reason " + quote(v.v[3].s));
    beat(m.term >= term, lastBeat, before, what); check(what);
  }
  // whoever is recognized postpones the next election, nobody else does
  void beat(bool counts, std::chrono::steady_clock::time_point last, std::chrono::steady_clock::time_point before, const std::string &what) { auto now = n.g->heartbeatTracker()->getLastHeartbeat(); if (counts) c.require(now >= before, what + ": not taken as a sign of life"); else c.require(now == last, what + ": taken as a sign of life from a leader"); }
  void heartbeat() {
    Leader &l = leaders[src.chance(1, 4) ? src.draw(leaders.size()) : leaders.size() - 1]; std::string what = "heartbeat from " + l.srv.toString() + ", term " + std::to_string(l.term); c.note(what); auto lastBeat = n.g->heartbeatTracker()->getLastHeartbeat(); auto before = std::chrono::steady_clock::now(); Value v = peer->ask(c, n.g->dispatcher(), {"RAFT_HEARTBEAT", std::to_string(l.term), l.srv.toString()});
    bool ok = l.term >= term; if (ok) observe(l.term, l.srv); else stale++; c.require(v.t == '*' && v.v.size() == 3, what + " answered " + v.show()); c.equal(v.v[0], vStr(std::to_string(term)), what + ": term"); c.equal(v.v[1], vStr(ok ? "1" : "0"), what + ": recognized"); beat(ok, lastBeat, before, what); check(what);
  }
  void voteRequest() {
    bool pre = src.chance(1, 3); std::vector<RaftServer> pool = others(); RaftServer who = src.pick(pool); RaftTerm t = std::max<RaftTerm>(0, term + (RaftTerm) src.draw(4) - 1); LogIndex li; RaftTerm lt;
    switch (src.weighted({4, 3, 2})) { case 0: li = size() - 1; lt = log.back().term; if (src.chance(1, 3)) li = std::max<LogIndex>(0, li + (LogIndex) src.draw(5) - 2); if (src.chance(1, 3)) lt = std::max<RaftTerm>(0, lt + (RaftTerm) src.draw(3) - 1); break; case 1: li = (LogIndex) src.draw((uint64_t) size() + 3); lt = li < size() ? log[(size_t) li].term : log.back().term + (RaftTerm) src.draw(3); break; default: li = (LogIndex) src.draw((uint64_t) size() + 3); lt = (RaftTerm) src.draw((uint64_t) term + 3); }
    std::string what = std::string(pre ? "pre-" : "") + "vote request of " + who.toString() + " for term " + std::to_string(t) + ", last entry " + std::to_string(li) + " of term " + std::to_string(lt); c.note(what);
    auto lastBeat = n.g->heartbeatTracker()->getLastHeartbeat(); auto before = std::chrono::steady_clock::now(); Value v = peer->ask(c, n.g->dispatcher(), {pre ? "RAFT_REQUEST_PRE_VOTE" : "RAFT_REQUEST_VOTE", std::to_string(t), who.toString(), std::to_string(li), std::to_string(lt)});
    std::string want; if (!isMember(who) && !leader.empty()) want = "veto";
    else {
      if (!pre) observe(t, {}); bool upToDate = lt > log.back().term || (lt == log.back().term && li >= size() - 1);
      if (li < commit || (li == commit && lt != log[(size_t) li].term)) want = "veto"; else if (t < term || (t == term && !vote.empty() && vote != who.toString())) want = "refused"; else if (!upToDate) want = "refused"; else if (pre) want = "granted"; else if (candidate || !leader.empty() || !vote.empty()) want = "refused"; else want = "granted";
      if (want == "granted" && !pre) { vote = who.toString(); grants++; }
    }
    vetoes += want == "veto"; c.require(v.t == '*' && v.v.size() == 2, what + " answered " + v.show()); c.equal(v.v[0], vStr(std::to_string(term)), what + ": term"); c.equal(v.v[1], vStr(want), what + ": vote"); if (want == "granted" && !pre) beat(true, lastBeat, before, what); else if (pre || want != "refused") beat(false, lastBeat, before, what); check(what);
  }
  void stand() {   // my own election, lost
    RaftTerm t = term + 1; c.note("I stand for election in term " + std::to_string(t)); c.require(n.g->state()->observed(t, {}), "a new term was not taken"); observe(t, {}); bool ok = n.g->state()->becomeCandidate(t), can = isMember(ME); c.equal(ok, can, "became a candidate"); if (ok) { candidate = true; vote = ME.toString(); }
    check("as a candidate"); if (ok && src.flip()) { c.require(n.g->state()->dropOut(t), "could not drop out"); candidate = false; check("after dropping out"); }
  }
  void observeTerm() { RaftTerm t = std::max<RaftTerm>(0, term + (RaftTerm) src.draw(3) - 1); c.note("a term is observed: " + std::to_string(t)); Value v = reader->ask(c, n.g->dispatcher(), {"RAFT_OBSERVE_TERM", std::to_string(t)}); (void) v; observe(t, {}); check("after observing a term"); }
  void restart() { c.note("restart"); restarts++; peer.reset(); reader.reset(); n.close(); n.open(); leader = RaftServer(); candidate = false; connect(); check("after a restart"); }
  void trim() { LogIndex upTo = std::min(commit, applied); if (upTo <= start) return; start = start + 1 + (LogIndex) src.draw((uint64_t) (upTo - start)); c.note("the log is trimmed until " + std::to_string(start)); n.g->journal()->trimUntil(start); check("after trimming"); }
  void clients() {
    std::string k = "k" + std::to_string(src.draw(5)); Client cl("client"); bool write = src.flip(); Args a = write ? Args{"SET", k, "x"} : Args{"GET", k}; Value want = leader.empty() ? vErr("ERR unavailable") : vErr("MOVED 0 " + leader.toString()); c.equal(cl.ask(c, n.g->dispatcher(), a), want, "a client's " + showArgs(a));
    Value r = reader->ask(c, n.g->dispatcher(), {"GET", k}); if (leader.empty()) c.equal(r, vErr("ERR unavailable"), "a stale read without a leader"); else c.equal(r, data.count(k) ? vStr(data[k]) : vNull(), "a stale read of " + k); c.equal(reader->ask(c, n.g->dispatcher(), {"SET", k, "y"}), want, "a write on a connection with stale reads");
  }
  void check(const std::string &what) {
    RaftJournal &j = *n.g->journal(); StateMachine &sm = *n.g->stateMachine(); auto s = n.g->state()->getSnapshot();
    c.equal(s->term, term, what + ": term"); c.equal(j.getCurrentTerm(), term, what + ": term in the journal"); c.equal(s->leader.toString(), leader.toString(), what + ": leader"); std::string votes = s->votedFor.empty() ? "" : s->votedFor == RaftState::BLOCKED_VOTE ? "blocked" : s->votedFor.toString(); c.equal(votes, vote, what + ": vote"); RaftServer jv = j.getVotedFor(); c.equal(jv.empty() ? "" : jv == RaftState::BLOCKED_VOTE ? "blocked" : jv.toString(), vote, what + ": vote in the journal");
    c.equal(statusToString(s->status), candidate ? "CANDIDATE" : "FOLLOWER", what + ": status"); c.equal(j.getLogSize(), size(), what + ": log size"); c.equal(j.getLogStart(), start, what + ": log start"); c.equal(j.getCommitIndex(), commit, what + ": commit index"); auto m = j.getMembership(); c.equal(showServers(m.nodes), showServers(nodesOf(members())), what + ": members"); c.equal(m.epoch, epoch(), what + ": membership epoch");
    for (LogIndex i = start; i < size(); i++) { Entry e = entryAt(c, j, i); if (e != log[(size_t) i]) c.fail(what + ": entry " + std::to_string(i) + " is " + e.show() + ", expected " + log[(size_t) i].show()); }
    // what is committed gets applied, exactly
    while (applied < commit) { auto &a = log[(size_t) ++applied].a; if (a[0] == "SET") data[a[1]] = a[2]; else if (a[0] == "DEL") data.erase(a[1]); else if (a[0] == "HSET") hash[a[2]] = a[3]; }
    for (auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20); sm.getLastApplied() < applied && std::chrono::steady_clock::now() < until;) sm.waitUntilTargetLastApplied(applied, std::chrono::milliseconds(1000)); c.equal(sm.getLastApplied(), applied, what + ": applied up to");
    for (const char *k : {"k0", "k1", "k2", "k3", "k4", "big"}) { std::string v; bool have = sm.get(k, v).ok(); c.require(have == (data.count(k) > 0) && (!have || v == data[k]), what + ": " + k + " holds " + (have ? quote(v) : "nothing") + ", expected " + (data.count(k) ? quote(data[k]) : "nothing")); }
    std::vector<std::string> all; sm.hgetall("h", all); std::map<std::string, std::string> got; for (size_t i = 0; i + 1 < all.size(); i += 2) got[all[i]] = all[i + 1]; c.require(got == hash, what + ": the hash differs");
  }
  std::map<std::string, std::string> hash;
  void run(size_t steps) {
    elect();
    while (src.more(steps)) {
      VF_SPAN(src);
      switch (src.weighted({14, 3, 5, 3, 5, 2, 4, 1, 1, 1, 2, 1})) {
        case 0: { Message m = compose(); old.push_back(m); if (!src.chance(1, 8)) deliver(m); break; }   // lost for now
        case 1: if (!old.empty()) { size_t i = src.draw(old.size()); c.note("an old message arrives, again or late"); deliver(old[i]); } break;
        case 2: { Leader &l = leaders[src.chance(1, 5) ? src.draw(leaders.size()) : leaders.size() - 1]; extend(l); break; }
        case 3: elect(); break;
        case 4: commitSome(); break;
        case 5: heartbeat(); break;
        case 6: voteRequest(); break;
        case 7: stand(); break;
        case 8: observeTerm(); break;
        case 9: restart(); break;
        case 10: clients(); break;
        default: trim();
      }
    }
    c.nontrivial(truncations + duplicates + mismatches + stale >= 4 && commit > 2);
    if (truncations) c.label("conflicting entries removed"); if (grants) c.label("vote granted"); if (vetoes) c.label("veto"); if (restarts) c.label("restarted"); if (start) c.label("trimmed log");
  }
};
}
VF_PROP(R09, one_node, 2500, 60000, vf::kNone) { Follower(src, c).run(60); }

// ---------------------------------------------------------------- R10
namespace {
struct Leading {
  struct Item { LogIndex index = 0; std::vector<Args> a; bool real = false; Value raw; bool isRaw = false; };
  struct User { std::unique_ptr<Client> cl; std::deque<Item> pending; std::vector<Value> expect; bool multi = false; std::vector<Args> queued; std::string name; };
  vf::Source &src; vf::Case &c; OneNode n; std::unique_ptr<Client> peer; std::vector<User> users; Model m;
  RaftTerm term = 0; bool leading = false; RaftServer leader; std::vector<Entry> log; LogIndex commit = 0, applied = 0, marker = -1; int waited = 0, flushed = 0, lost = 0, gone = 0, mixed = 0, committedReplies = 0;
  Leading(vf::Source &s, vf::Case &c_) : src(s), c(c_), n(c_, {{"a", 1}, ME, {"b", 2}}) { log.push_back(entryAt(c, *n.g->journal(), 0)); size_t k = 1 + src.draw(3); for (size_t i = 0; i < k; i++) { users.emplace_back(); join(users.back()); } introduce(); }
  void introduce() { peer.reset(new Client("peer")); c.equal(peer->ask(c, n.g->dispatcher(), {"RAFT_HANDSHAKE", "x", CLUSTER, n.timeouts.toString()}), vStatus("OK"), "handshake"); }
  void join(User &u) { static int serial = 0; u = User(); u.name = "client " + std::to_string(&u - &users[0]) + "/" + std::to_string(serial++); u.cl.reset(new Client("host")); }
  // ---- what the model of the connection says
  void put(User &u, Value v) { if (u.pending.empty()) u.expect.push_back(v); else { Item i; i.isRaw = true; i.raw = v; u.pending.push_back(i); mixed++; } }
  std::vector<Value> result(const Item &i) { std::vector<Value> r; for (auto &a : i.a) r.push_back(m.apply(a)); if (i.real) return {vArr(r)}; return r; }
  void refuse(User &u, const Item &i) { Value v = leader.empty() ? vErr("ERR unavailable") : vErr("MOVED 0 " + leader.toString()); for (size_t k = 0; k < (i.real ? 1 : i.a.size()); k++) put(u, v); }
  void service(User &u, Item i) {
    if (!leading) return refuse(u, i); bool writes = false; for (auto &a : i.a) writes = writes || isWrite(a);
    if (!writes) { if (u.pending.empty()) for (auto &v : result(i)) u.expect.push_back(v); else u.pending.push_back(i); return; }
    Entry e; e.term = term; if (!i.real && i.a.size() == 1) e.a = i.a[0]; else { std::string s = be8(i.a.size()); for (auto &a : i.a) { s += be8(a.size()); for (auto &x : a) s += be8(x.size()) + x; } e.a = {"TX_READWRITE", s, i.real ? "real" : "phantom"}; } i.index = (LogIndex) log.size(); log.push_back(e); u.pending.push_back(i);
  }
  void model(User &u, const std::vector<Args> &cmds) {
    Item run; auto end = [&] { if (!run.a.empty()) { Item i; std::swap(i, run); service(u, i); } };
    for (auto &a : cmds) { std::string k = lower(a[0]);
      if (k == "multi") { end(); if (u.multi) put(u, vErr("ERR MULTI calls can not be nested")); else { u.multi = true; put(u, vStatus("OK")); } }
      else if (k == "exec") { end(); if (!u.multi) put(u, vErr("ERR EXEC without MULTI")); else { u.multi = false; if (u.queued.empty()) put(u, vArr({})); else { Item i; i.real = true; i.a.swap(u.queued); service(u, i); } } }
      else if (k == "discard") { end(); if (!u.multi) put(u, vErr("ERR DISCARD without MULTI")); else { u.multi = false; u.queued.clear(); put(u, vStatus("OK")); } }
      else if (k == "raft_info") { if (u.multi) put(u, vErr("ERR Only reads and writes allowed within MULTI/EXEC blocks.")); else { end(); put(u, vStr(leader.toString())); } }
      else if (u.multi) { u.queued.push_back(a); put(u, vStatus("QUEUED")); }
      else if (isWrite(a)) run.a.push_back(a); else { end(); Item i; i.a = {a}; service(u, i); }
    } end();
  }
  void settleUsers(LogIndex idx) { for (auto &u : users) if (!u.pending.empty() && u.pending[0].index == idx) { while (!u.pending.empty() && u.pending[0].index <= idx) { Item i = u.pending.front(); u.pending.pop_front(); if (i.isRaw) u.expect.push_back(i.raw); else { for (auto &v : result(i)) u.expect.push_back(v); committedReplies++; } } return; } auto &a = log[(size_t) idx].a; if (lower(a[0]).compare(0, 8, "journal_") == 0) return; Item i; if (lower(a[0]) == "tx_readwrite") { const std::string &s = a[1]; size_t at = 0; auto num = [&] { uint64_t x = unbe8(std::string_view(s).substr(at)); at += 8; return x; }; uint64_t cnt = num(); for (uint64_t k = 0; k < cnt; k++) { Args x; uint64_t parts = num(); for (uint64_t j = 0; j < parts; j++) { uint64_t len = num(); x.push_back(s.substr(at, len)); at += len; } i.a.push_back(x); } } else i.a = {a}; result(i); }
  void flushUsers(const Value &msg) { for (auto &u : users) { if (!u.pending.empty()) flushed++; while (!u.pending.empty()) { Item i = u.pending.front(); u.pending.pop_front(); if (i.isRaw) u.expect.push_back(i.raw); else for (size_t k = 0; k < (i.real ? 1 : i.a.size()); k++) u.expect.push_back(msg); } } }
  // ---- steps
  void check(const std::string &what) {
    c.equal(n.g->journal()->getLogSize(), (LogIndex) log.size(), what + ": log size"); for (LogIndex i = std::max<LogIndex>(0, commit - 2); i < (LogIndex) log.size(); i++) { Entry e = entryAt(c, *n.g->journal(), i); if (e != log[(size_t) i]) c.fail(what + ": log entry " + std::to_string(i) + " is " + e.show() + ", expected " + log[(size_t) i].show()); }
    for (auto &u : users) if (u.cl) { auto got = u.cl->replies(c, u.name); for (auto until = std::chrono::steady_clock::now() + std::chrono::seconds(10); got.size() < u.expect.size() && std::chrono::steady_clock::now() < until;) { std::this_thread::sleep_for(std::chrono::microseconds(200)); for (auto &v : u.cl->replies(c, u.name)) got.push_back(v); } for (size_t i = 0; i < std::max(got.size(), u.expect.size()); i++) { if (i >= got.size()) c.fail(what + ": " + u.name + " did not receive " + u.expect[i].show()); if (i >= u.expect.size()) c.fail(what + ": " + u.name + " received " + got[i].show() + ", which was not due yet"); if (!Model::agree(got[i], u.expect[i]) || (got[i].t == '-' && u.expect[i].s.compare(0, 5, "MOVED") == 0 && got[i].s != u.expect[i].s)) c.fail(what + ": " + u.name + " received " + got[i].show() + ", expected " + u.expect[i].show()); } u.expect.clear(); }
  }
  void lead() { if (leading) return; flushUsers(vErr("ERR unavailable")); n.g->writeTracker()->flushQueues(Formatter::err("unavailable")); term++; c.note("I am elected for term " + std::to_string(term)); c.require(n.g->state()->observed(term, {}) && n.g->state()->becomeCandidate(term) && n.g->state()->ascend(term), "could not become leader"); leading = true; leader = ME; marker = (LogIndex) log.size(); log.push_back({term, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(term), ME.toString()}}); check("as leader"); }
  void commitUpTo(LogIndex x) { c.note("entries up to " + std::to_string(x) + " are committed"); n.g->journal()->setCommitIndex(x); commit = x; while (applied < commit) settleUsers(++applied); waitApplied(); }
  void waitApplied() { StateMachine &sm = *n.g->stateMachine(); for (auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20); sm.getLastApplied() < applied && std::chrono::steady_clock::now() < until;) sm.waitUntilTargetLastApplied(applied, std::chrono::milliseconds(1000)); c.equal(sm.getLastApplied(), applied, "applied up to"); }
  std::string key() { return "k" + std::to_string(src.draw(3)); }
  Args write() { static int serial = 0; std::string v = "v" + std::to_string(serial++); switch (src.draw(6)) { case 0: return {"HSET", "h", "f" + std::to_string(src.draw(3)), v}; case 1: return {"DEQUE-PUSH-BACK", "q", v}; case 2: return {"DEL", key()}; case 3: return {"HINCRBY", "cnt", "x", "1"}; case 4: return {"SET", key()}; default: return {"SET", key(), v}; } }
  Args read() { switch (src.draw(5)) { case 0: return {"HGETALL", "h"}; case 1: return {"DEQUE-LEN", "q"}; case 2: return {"HGET", "cnt", "x"}; case 3: return {"GET"}; default: return {"GET", key()}; } }
  void submit(User &u) {
    std::vector<Args> cmds; size_t k = 1 + src.size(7); for (size_t i = 0; i < k; i++) { Args a; switch (src.weighted({8, 5, 2, 3, 1, 1})) { case 0: a = write(); break; case 1: a = read(); break; case 2: a = {"MULTI"}; break; case 3: a = {"EXEC"}; break; case 4: a = {"DISCARD"}; break; default: if (leading && applied < marker) a = read(); else a = {"RAFT_INFO", "leader"}; } cmds.push_back(a); }
    std::string s; for (auto &a : cmds) { s += (s.empty() ? "" : " ; ") + showArgs(a); u.cl->feed(a); } c.note(u.name + ": " + s);
    if (!leading || applied >= marker) { u.cl->process(n.g->dispatcher()); model(u, cmds); check(u.name); return; }
    // a fresh leader makes its clients wait for its first commit
    waited++; bool depose = src.chance(1, 6); std::thread t([&] { u.cl->process(n.g->dispatcher()); }); std::this_thread::sleep_for(std::chrono::milliseconds(src.draw(4)));
    if (depose) { stepDown(); t.join(); model(u, cmds); } else { LogIndex at = marker; n.g->journal()->setCommitIndex(at); commit = at; while (applied < commit) settleUsers(++applied); t.join(); model(u, cmds); waitApplied(); } check(u.name + " had to wait");
  }
  void stepDown() { c.note("a later term is observed"); term++; c.require(n.g->state()->observed(term, {}), "did not step down"); leading = false; leader = RaftServer(); marker = -1; lost++; }
  void directorFlush() { c.note("pending requests are given up"); flushUsers(vErr("ERR unavailable")); n.g->writeTracker()->flushQueues(Formatter::err("unavailable")); check("given up"); }
  void otherLeader() {
    term++; leader = src.flip() ? RaftServer("a", 1) : RaftServer("b", 2); LogIndex prev = commit + (LogIndex) src.draw((uint64_t) ((LogIndex) log.size() - commit)); c.note(leader.toString() + " leads in term " + std::to_string(term) + ", agrees up to " + std::to_string(prev)); if (leading) lost++; leading = false; marker = -1;
    std::vector<Entry> es{{term, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(term), leader.toString()}}}; size_t k = src.draw(3); for (size_t i = 0; i < k; i++) es.push_back({term, write()}); Args a{"RAFT_APPEND_ENTRIES", leader.toString(), be8((uint64_t) term) + be8((uint64_t) prev) + be8((uint64_t) log[(size_t) prev].term) + be8((uint64_t) commit) + be8(es.size())}; for (auto &e : es) a.push_back(packEntry(e.term, e.a));
    Value v = peer->ask(c, n.g->dispatcher(), a); flushUsers(vErr("MOVED 0 " + leader.toString())); log.resize((size_t) prev + 1); log.insert(log.end(), es.begin(), es.end()); c.require(v.t == '*' && v.v.size() == 4 && v.v[2] == vStr("1"), "append-entries answered " + v.show()); check("another leader");
    if (src.flip()) { commit = (LogIndex) log.size() - 1; Args b{"RAFT_APPEND_ENTRIES", leader.toString(), be8((uint64_t) term) + be8((uint64_t) commit) + be8((uint64_t) term) + be8((uint64_t) commit) + be8(0)}; peer->ask(c, n.g->dispatcher(), b); while (applied < commit) settleUsers(++applied); waitApplied(); check("another leader's commit"); }
  }
  void leave(User &u) { c.note(u.name + " leaves"); gone += !u.pending.empty(); u.cl.reset(); auto p = u.pending; join(u);
    // what it had asked for still happens
    for (auto &i : p) if (i.index) orphans.push_back(i); }
  std::vector<Item> orphans;
  void restart() { c.note("restart"); flushUsers(vErr("ERR unavailable")); n.close(); check2("shut down"); for (auto &u : users) join(u); n.open(); leading = false; leader = RaftServer(); marker = -1; introduce(); check("after a restart"); }
  void check2(const std::string &what) { for (auto &u : users) { auto got = u.cl->replies(c, u.name); c.equal(got.size(), u.expect.size(), what + ": replies to " + u.name); for (size_t i = 0; i < got.size(); i++) if (!Model::agree(got[i], u.expect[i])) c.fail(what + ": " + u.name + " received " + got[i].show() + ", expected " + u.expect[i].show()); u.expect.clear(); } }
  void run(size_t steps) {
    lead();
    while (src.more(steps)) {
      VF_SPAN(src);
      switch (src.weighted({12, 6, 2, 1, 2, 1, 1, 1})) {
        case 0: submit(users[src.draw(users.size())]); break;
        case 1: if (leading && commit + 1 < (LogIndex) log.size()) { LogIndex lo = std::max(commit + 1, marker); if (lo < (LogIndex) log.size()) { commitUpTo(lo + (LogIndex) src.draw((uint64_t) ((LogIndex) log.size() - lo))); check("after a commit"); } } break;
        case 2: if (leading) { stepDown(); check("after stepping down"); } break;
        case 3: if (!leading) directorFlush(); break;
        case 4: lead(); break;
        case 5: otherLeader(); break;
        case 6: leave(users[src.draw(users.size())]); check("after a client left"); break;
        default: if (src.chance(1, 3)) restart();
      }
    }
    if (src.flip()) { if (!leading) lead(); commitUpTo((LogIndex) log.size() - 1); check("at the end"); for (auto &u : users) c.equal(u.pending.size(), 0u, "requests without reply"); } else { flushUsers(vErr("ERR unavailable")); n.close(); check2("at the end"); }
    c.nontrivial(committedReplies >= 3 && (flushed || waited)); if (flushed) c.label("pending requests given up"); if (waited) c.label("waited for a fresh leader"); if (lost) c.label("leadership lost"); if (gone) c.label("left with requests pending"); if (mixed) c.label("immediate replies held back");
  }
};
}
VF_PROP(R10, one_leader, 1200, 40000, vf::kNone) { Leading(src, c).run(40); }
VF_RULE(R10, "histories with at least three committed requests answered, and a loss of leadership with requests pending or a wait for a fresh leader");
