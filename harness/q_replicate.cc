// R11 a real leader and its followers, which exist only on paper; R07 what it counts as committed.
#include "raft.hh"
#include "raft/RaftMembers.hh"
#include "utils/AssistedThread.hh"
#include <atomic>
#include <filesystem>
#include <fstream>
#include <thread>
using namespace raftcheck;

namespace {
NoConnectionLogs quiet;
const RaftServer ME{"me", 1};
const std::string CLUSTER = "cluster";
const RaftTimeouts FAST(milliseconds(1000), milliseconds(1500), milliseconds(4));
using Bytes = std::string;
RaftTerm termOf(const Bytes &e) { RaftTerm t; memcpy(&t, e.data(), 8); return t; }
void sleepMs(int ms) { if (ms > 0) std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

struct Paper;   // the rest of the cluster
struct Fake {
  RaftServer srv; bool up = true; RaftTerm term = 0; std::vector<Bytes> log; LogIndex start = 0, commit = 0; unsigned odd = 0, loss = 0; int delay = 0; bool mute = false;
  std::map<RaftTerm, LogIndex> matched; std::string arena; std::map<std::string, std::string> files; int resilvered = 0, begun = 0; uint64_t appends = 0; bool refuseFiles = false;
  LogIndex size() const { return (LogIndex) log.size(); }
};
struct Sent { RaftTerm term; LogIndex prev; RaftTerm prevTerm; std::vector<Bytes> entries; std::string to; };

struct Paper : qclient::Transport {
  std::mutex m; std::vector<Fake> f; std::vector<Sent> sent; std::vector<std::string> problems; RaftJournal *journal = nullptr; std::string base; int serial = 0;
  // the current leadership
  RaftTerm leading = 0; bool active = false; LogIndex marker = 0, commitBefore = 0; std::vector<std::vector<RaftServer>> voters; std::map<std::string, std::string> *none = nullptr;
  std::atomic<uint64_t> seed{1}; uint64_t oddReplies = 0, losses = 0, rewound = 0, streamed = 0;
  std::unique_ptr<qclient::Channel> connect(const std::string &host, int port, qclient::Options &opts) override;
  void problem(const std::string &s) { if (problems.size() < 10) problems.push_back(s); }
  Fake *find(const RaftServer &s) { for (auto &x : f) if (x.srv == s) return &x; return nullptr; }
  // an entry counts as committed only if an entry of the leader's own term at or after it is held by a majority
  void commitOk(const std::string &when) {
    if (!active || !journal) return; LogIndex c = journal->getCommitIndex(); if (c <= commitBefore) return; for (auto &set : voters) if (set.size() == 1) { commitBefore = c; return; }   // alone, whatever is in the log is committed
   
    if (c < marker) return problem(when + ": entries up to " + std::to_string(c) + " count as committed, although no entry of the current term is (the first one is " + std::to_string(marker) + ")");
    for (auto &set : voters) { size_t have = 1; std::string who; for (auto &s : set) if (!(s == ME)) { Fake *x = find(s); LogIndex at = x ? x->matched[leading] : 0; who += " " + s.toString() + "=" + std::to_string(at); if (at >= c) have++; } if (have >= set.size() / 2 + 1) { commitBefore = c; return; } if (&set == &voters.back()) problem(when + ": entries up to " + std::to_string(c) + " count as committed, but the followers confirmed only" + who); }
  }
  redisReplyPtr odd(uint64_t r, Fake &x) {
    oddReplies++; switch (r % 14) {
      case 0: return nullptr; case 1: return reply(vNull()); case 2: return reply(vInt(7)); case 3: return reply(vErr("ERR unavailable")); case 4: return reply(vErr("ERR something else")); case 5: return reply(vArr({})); case 6: return reply(vArr({vStr("1")}));
      case 7: return reply(vArr({vStr("1"), vStr("2"), vStr("3")})); case 8: return reply(vArr({vStr("x"), vStr("y"), vStr("z"), vStr("")})); case 9: return reply(vArr({vInt(1), vInt(2), vInt(1), vNull()})); case 10: return reply(vStatus("OK")); case 11: return reply(vArr({vStr(std::to_string(x.term)), vStr(std::to_string(x.size())), vStr("2"), vStr("")})); case 12: return reply(vErr("")); default: return reply(vArr({vStr(std::to_string(x.term)), vStr(""), vStr("0"), vStr("")}));
    }
  }
  redisReplyPtr handle(size_t who, const Args &a, uint64_t r) {
    std::scoped_lock l(m); Fake &x = f[who]; std::string cmd = lower(a[0]); if (!x.up) return nullptr; if (x.odd && r % 1000 < x.odd) { auto o = odd(r / 1000, x); if (o && o->type == REDIS_REPLY_STATUS && cmd.rfind("quarkdb_", 0) == 0) return reply(vErr("ERR")); return o; }
    if (cmd == "raft_heartbeat") { if (a.size() != 3 || a[2] != ME.toString()) { problem("malformed heartbeat " + showArgs(a)); return nullptr; } RaftTerm t = atoll(a[1].c_str()); if (t > leading || t % 2) problem("a heartbeat for term " + std::to_string(t)); bool ok = t >= x.term; if (ok) x.term = t; return reply(vArr({vStr(std::to_string(x.term)), vStr(ok ? "1" : "0"), vStr("")})); }
    if (cmd == "raft_append_entries") return append(x, a);
    if (cmd == "quarkdb_start_resilvering") { x.begun++; x.arena = a.at(1); x.files.clear(); return reply(vStatus("OK")); }
    if (cmd == "quarkdb_cancel_resilvering") { x.arena.clear(); x.files.clear(); return reply(vStatus("OK")); }
    if (cmd == "quarkdb_resilvering_copy_file") { if (a.size() != 4 || a[1] != x.arena) return reply(vErr("ERR not in progress")); if (x.refuseFiles) return reply(vErr("ERR disk full")); if (a[2].empty() || a[2][0] == '/' || a[2].find("..") != a[2].npos) problem("a resilvered file named " + quote(a[2])); x.files[a[2]] = a[3]; return reply(vStatus("OK")); }
    if (cmd == "quarkdb_finish_resilvering") { if (a.size() != 2 || a[1] != x.arena) return reply(vErr("ERR not in progress")); return install(x); }
    problem("unexpected request " + showArgs(a)); return nullptr;
  }
  redisReplyPtr append(Fake &x, const Args &a) {
    if (a.size() < 3 || a[2].size() != 40) { problem("malformed append-entries " + showArgs(a)); return nullptr; } int64_t h[5]; for (int i = 0; i < 5; i++) h[i] = (int64_t) unbe8(std::string_view(a[2]).substr((size_t) i * 8)); RaftTerm t = h[0], prevTerm = h[2]; LogIndex prev = h[1], commit = h[3]; x.appends++;
    if (a[1] != ME.toString()) problem("append-entries in the name of " + a[1]); if (h[4] != (int64_t) a.size() - 3) { problem("append-entries announce " + std::to_string(h[4]) + " entries, carry " + std::to_string(a.size() - 3)); return nullptr; }
    if (t > leading || t % 2) problem("append-entries for term " + std::to_string(t)); if (commit > journal->getCommitIndex()) problem("append-entries claim that entries up to " + std::to_string(commit) + " are committed, the leader itself knows " + std::to_string(journal->getCommitIndex())); if (prev < 0 || prevTerm > t) problem("append-entries after entry " + std::to_string(prev) + " of term " + std::to_string(prevTerm));
    Sent s{t, prev, prevTerm, {}, x.srv.toString()}; for (size_t i = 3; i < a.size(); i++) { s.entries.push_back(a[i]); if (a[i].size() < 8 || termOf(a[i]) > t) problem("append-entries of term " + std::to_string(t) + " carry an entry of a later term"); } if (!s.entries.empty() || sent.size() < 2000) sent.push_back(s);
    auto answer = [&](bool ok, const std::string &why) { commitOk("when " + x.srv.toString() + " answered"); return reply(vArr({vStr(std::to_string(x.term)), vStr(std::to_string(x.size())), vStr(ok ? "1" : "0"), vStr(why)})); };
    if (t < x.term) return answer(false, "My raft term is newer"); x.term = t; if (prev >= x.size() || prev < x.start || termOf(x.log[(size_t) prev]) != prevTerm) { rewound++; return answer(false, "Log entry mismatch"); }
    size_t i = 0; LogIndex at = prev + 1; while (i < s.entries.size() && at < x.size() && x.log[(size_t) at] == s.entries[i]) { i++; at++; }
    if (i < s.entries.size()) { if (at < x.size()) { if (at <= x.commit) { problem(x.srv.toString() + " is asked to replace its committed entry " + std::to_string(at)); return nullptr; } x.log.resize((size_t) at); } x.log.insert(x.log.end(), s.entries.begin() + (long) i, s.entries.end()); }
    LogIndex upTo = prev + (LogIndex) s.entries.size(); x.commit = std::max(x.commit, std::min(upTo, commit)); if (t == leading && active && upTo >= marker) { auto &mt = x.matched[t]; mt = std::max(mt, termOf(x.log.back()) == t ? x.size() - 1 : upTo); } if (s.entries.size() > 8) streamed++; return answer(true, "");
  }
  // what was copied has to be a usable node
  redisReplyPtr install(Fake &x) {
    std::string dir = base + "/install" + std::to_string(serial++); for (auto &p : x.files) { std::filesystem::path at = dir + "/" + p.first; std::filesystem::create_directories(at.parent_path()); std::ofstream(at, std::ios::binary) << p.second; } x.arena.clear();
    if (!x.files.count("raft-journal/CURRENT") || !x.files.count("state-machine/CURRENT")) { problem("resilvering finished, but the journal or the data is missing"); return nullptr; }
    try {
      RaftJournal j(dir + "/raft-journal"); std::vector<Bytes> log; LogIndex start = j.getLogStart(), size = j.getLogSize(); log.resize((size_t) size); for (LogIndex i = start; i < size; i++) { RaftEntry e; if (!j.fetch(i, e).ok()) { problem("the resilvered journal lacks entry " + std::to_string(i)); return nullptr; } log[(size_t) i] = e.serialize(); } LogIndex commit = j.getCommitIndex();
      StateMachine sm(dir + "/state-machine"); LogIndex applied = sm.getLastApplied(); if (applied + 1 < start) problem("the resilvered data stops at entry " + std::to_string(applied) + ", the resilvered journal starts at " + std::to_string(start)); if (applied > commit) problem("the resilvered data contains entry " + std::to_string(applied) + ", which the resilvered journal does not know to be committed (" + std::to_string(commit) + ")");
      std::string v; rocksdb::Status st = sm.get("last", v); (void) st; if (!v.empty() && atoll(v.c_str()) > applied) problem("the resilvered data contains the write of entry " + v + ", although it claims to stop at " + std::to_string(applied)); resilveredData = {applied, v};
      if (x.commit > commit && x.commit >= start) { } x.log = log; x.start = start; x.commit = commit; x.resilvered++;
    } catch (const std::exception &e) { problem(std::string("what was resilvered cannot be opened: ") + e.what()); return nullptr; }
    std::filesystem::remove_all(dir); return reply(vStatus("OK"));
  }
  std::pair<LogIndex, std::string> resilveredData;
};
struct Line : qclient::Channel {
  struct Item { Args a; std::promise<redisReplyPtr> p; }; Paper &w; size_t who; std::mutex m; std::condition_variable cv; std::deque<Item> q; bool stop = false; uint64_t rng; std::thread t;
  Line(Paper &w_, size_t i) : w(w_), who(i), rng(w_.seed++ * 0x9E3779B97F4A7C15ull + 1), t([this] { run(); }) {}
  ~Line() override { { std::scoped_lock l(m); stop = true; cv.notify_all(); } t.join(); }
  uint64_t next() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (rng * 0x2545F4914F6CDD1Dull) >> 8; }
  std::future<redisReplyPtr> submit(std::vector<std::string> &&r) override { std::scoped_lock l(m); q.push_back({std::move(r), {}}); auto f = q.back().p.get_future(); cv.notify_all(); return f; }
  void cut() { std::deque<Item> gone; { std::scoped_lock l(m); gone.swap(q); } for (auto &x : gone) x.p.set_value(nullptr); }
  void run() {
    while (true) {
      Item it; { std::unique_lock l(m); cv.wait(l, [&] { return stop || !q.empty(); }); if (stop) break; it = std::move(q.front()); q.pop_front(); }
      unsigned loss; int delay; { std::scoped_lock l(w.m); loss = w.f[who].loss; delay = w.f[who].delay; } sleepMs((int) (next() % (uint64_t) (delay + 1)));
      uint64_t r = next(); if (loss && r % 1000 < loss) { { std::scoped_lock l(w.m); w.losses++; } if (next() % 2) w.handle(who, it.a, next()); it.p.set_value(nullptr); cut(); continue; }   // lost on the way there, or back
      redisReplyPtr p = w.handle(who, it.a, next()); { std::scoped_lock l(w.m); if (w.f[who].mute) { p = nullptr; w.losses++; } } bool dead = !p; it.p.set_value(p); if (dead) cut();
    }
    cut();
  }
};
std::unique_ptr<qclient::Channel> Paper::connect(const std::string &host, int, qclient::Options &) { std::scoped_lock l(m); for (size_t i = 0; i < f.size(); i++) if (f[i].srv.hostname == host) return std::unique_ptr<qclient::Channel>(new Line(*this, i)); problem("a connection to " + host); return nullptr; }

struct Replication {
  vf::Source &src; vf::Case &c; Paper w; std::string path; std::unique_ptr<ShardDirectory> dir; std::unique_ptr<RaftGroup> g; Client admin{"admin"}; std::vector<Bytes> log; LogIndex start = 0; RaftMembers members; LogIndex epoch = 0; RaftTerm term = 0; bool leading = false;
  int overtaken = 0, deposed = 0, changes = 0, refusedChanges = 0, trims = 0, elections = 0; std::map<RaftTerm, std::vector<Bytes>> logOf; std::set<RaftTerm> taken;
  static std::vector<RaftServer> servers() { return {{"a", 1}, {"b", 1}, {"c", 1}, {"d", 1}}; }
  Replication(vf::Source &s, vf::Case &c_) : src(s), c(c_), path(c_.scratch() + "/shard") {
    w.base = c.scratch(); w.seed = src.draw(1u << 20) * 1000 + 1; auto all = servers(); size_t n = src.weighted({2, 5, 2}); std::vector<RaftServer> mem; if (n == 0) mem = {ME, all[0]}; else if (n == 1) mem = {ME, all[0], all[1]}; else mem = {ME, all[0], all[1], all[2], all[3]};
    Status st; std::unique_ptr<StateMachine> none; dir.reset(ShardDirectory::create(path, CLUSTER, "s", mem, 0, FsyncPolicy::kAsync, std::move(none), st)); c.require(st.ok() && dir, "cannot create a shard"); qclient::transport() = &w; g.reset(new RaftGroup(*dir, ME, FAST, "")); g->dispatcher(); g->trimmer(); w.journal = g->journal();
    log.push_back(bytes(0)); members.nodes = mem; for (auto &x : all) { Fake k; k.srv = x; k.log = {log[0]}; w.f.push_back(k); }
    history(); followers();
  }
  ~Replication() { if (g) { g->replicator()->deactivate(); w.active = false; g.reset(); } dir.reset(); qclient::transport() = nullptr; }
  Bytes bytes(LogIndex i) { RaftEntry e; c.require(g->journal()->fetch(i, e).ok(), "no journal entry " + std::to_string(i)); return e.serialize(); }
  // every write names its own index
  Args write(LogIndex at) { if (src.chance(1, 30)) return {"SET", "big", std::string(1 + src.draw(3000), 'x')}; return {"SET", "last", std::to_string(at)}; }
  void put(RaftTerm t, const Args &a) { RaftEntry e; e.term = t; e.request = req(a); std::scoped_lock l(w.m); c.require(g->journal()->append((LogIndex) log.size(), e), "the leader's journal refused an entry"); log.push_back(e.serialize()); }
  // what earlier leaders left in my log, some of it committed
  void history() { size_t n = src.draw(3) ? src.size(60) : 0; for (size_t i = 0; i < n; i++) { if (term == 0 || src.chance(1, 8)) { term += 2; g->state()->observed(term, {}); } put(term, write((LogIndex) log.size())); } if (n && src.flip()) { LogIndex k = (LogIndex) src.draw(log.size()); g->journal()->setCommitIndex(k); applied(k); if (k > 1 && src.flip()) { start = 1 + (LogIndex) src.draw((uint64_t) k); if (start < k) g->journal()->trimUntil(start); else start = 0; } } c.note("the leader's log has " + std::to_string(log.size()) + " entries, starts at " + std::to_string(start) + ", committed up to " + std::to_string(g->journal()->getCommitIndex())); }
  void applied(LogIndex k) { StateMachine &sm = *g->stateMachine(); for (auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20); sm.getLastApplied() < k && std::chrono::steady_clock::now() < until;) sm.waitUntilTargetLastApplied(k, std::chrono::milliseconds(500)); c.require(sm.getLastApplied() >= k, "entries are not applied"); }
  // each follower holds a piece of my log, and then perhaps something else, left behind by a leader whose terms were odd
  void diverge(Fake &x) {
    LogIndex keep = src.weighted({1, 1, 3}) == 2 ? 1 + (LogIndex) src.draw(log.size()) : src.flip() ? (LogIndex) log.size() : 1; keep = std::max(keep, x.commit + 1); x.log.assign(log.begin(), log.begin() + keep); x.start = 0; std::string what = x.srv.toString() + " holds " + std::to_string(keep) + " of them";
    if (src.chance(2, 5)) { size_t n = 1 + src.size(30); RaftTerm last = termOf(x.log.back()), t = last; for (size_t i = 0; i < n; i++) { if (i == 0 || src.chance(1, 6)) { t += 1 + (RaftTerm) (t % 2); } while (taken.count(t)) t += 2; if (t > term + 1) break; x.log.push_back(packEntry(t, {"SET", "stray", std::to_string(i)})); } what += ", and " + std::to_string(x.log.size() - (size_t) keep) + " others"; }
    x.term = std::max(x.term, termOf(x.log.back())); x.commit = std::max(x.commit, (LogIndex) src.draw((uint64_t) std::min(keep - 1, g->journal()->getCommitIndex()) + 1)); if (src.chance(1, 4)) x.start = (LogIndex) src.draw((uint64_t) x.commit + 1); c.note(what + ", committed " + std::to_string(x.commit));
  }
  void followers() { std::scoped_lock l(w.m); for (auto &x : w.f) { bool member = std::find(members.nodes.begin(), members.nodes.end(), x.srv) != members.nodes.end(); if (member) diverge(x); else { x.log = {packEntry(0, {"JOURNAL_UPDATE_MEMBERS", "|", CLUSTER})}; } x.up = !src.chance(1, 5); } }
  std::vector<size_t> targets() { std::vector<size_t> v; for (size_t i = 0; i < w.f.size(); i++) for (auto &s : peers()) if (s == w.f[i].srv) v.push_back(i); return v; }
  std::vector<RaftServer> peers() { std::vector<RaftServer> v; for (auto &s : members.nodes) if (!(s == ME)) v.push_back(s); for (auto &s : members.observers) v.push_back(s); return v; }
  void troubles() { std::scoped_lock l(w.m); w.commitOk("afterwards"); if (!w.problems.empty()) c.fail(w.problems[0]); }
  // ---- leadership
  void lead() {
    RaftTerm t; { std::scoped_lock l(w.m); t = term; for (auto &x : w.f) t = std::max(t, x.term); for (auto &e : log) if (e.size() >= 8) t = std::max(t, termOf(e)); } RaftTerm now = g->state()->getSnapshot()->term; t = std::max(t, now) + 1; if (t % 2) t++; term = t; elections++; c.note("elected for term " + std::to_string(term) + ", the first entry of which is " + std::to_string(log.size()));
    { std::scoped_lock l(w.m); w.leading = term; w.marker = (LogIndex) log.size(); w.commitBefore = g->journal()->getCommitIndex(); w.voters = {members.nodes}; w.active = true; for (auto &x : w.f) x.matched.clear(); }
    c.require(g->state()->observed(term, {}) && g->state()->becomeCandidate(term) && g->state()->ascend(term), "could not become leader"); log.push_back(bytes((LogIndex) log.size())); auto snap = g->state()->getSnapshot(); g->replicator()->activate(snap); leading = true; troubles();
  }
  // what the director does when leadership is gone
  void retire(const std::string &why) {
    g->replicator()->deactivate(); uint64_t before = 0, after = 0; { std::scoped_lock l(w.m); w.active = false; for (auto &x : w.f) before += x.appends; } if (!logOf.count(w.leading)) logOf[w.leading] = log; leading = false; deposed++; sleepMs(8); { std::scoped_lock l(w.m); for (auto &x : w.f) after += x.appends; } c.equal(after, before, why + ": append-entries sent after the end of the leadership"); term = std::max(term, g->state()->getSnapshot()->term); audit();
  }
  // everything which was ever sent comes from the leader's own log of that term
  void audit() {
    std::scoped_lock l(w.m); for (auto &s : w.sent) { auto it = logOf.find(s.term); if (it == logOf.end()) continue; auto &o = it->second; std::string what = "append-entries to " + s.to + ", term " + std::to_string(s.term) + ", after " + std::to_string(s.prev); if (s.prev + (LogIndex) s.entries.size() >= (LogIndex) o.size()) c.fail(what + ": beyond the leader's log"); if (termOf(o[(size_t) s.prev]) != s.prevTerm) c.fail(what + ": wrong term of the preceding entry: " + std::to_string(s.prevTerm)); for (size_t i = 0; i < s.entries.size(); i++) if (s.entries[i] != o[(size_t) s.prev + 1 + i]) c.fail(what + ": entry " + std::to_string(s.prev + 1 + (LogIndex) i) + " is not the leader's"); } w.sent.clear();
  }
  bool waitFor(int ms, const std::function<bool()> &f) { auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms); while (!f()) { if (std::chrono::steady_clock::now() > until) return f(); std::this_thread::sleep_for(std::chrono::microseconds(500)); } return true; }
  void newerTerm() {
    auto t = targets(); if (t.empty()) return; size_t i = src.pick(t); RaftTerm seen; bool reaches; { std::scoped_lock l(w.m); Fake &x = w.f[i]; seen = std::max(x.term, term) + 1 + (RaftTerm) src.draw(2); if (seen % 2 == 0) seen++; x.term = seen; reaches = x.up && !x.odd && !x.loss && !x.mute; } c.note(w.f[i].srv.toString() + " is in term " + std::to_string(seen) + " now"); if (!reaches) { healOne(i); }
    if (!waitFor(10000, [&] { return g->state()->getSnapshot()->term >= seen; })) c.fail("the leader goes on, although " + w.f[i].srv.toString() + " answers with term " + std::to_string(seen)); c.require(g->state()->getSnapshot()->status != RaftStatus::LEADER, "still a leader in a newer term"); retire("a newer term appeared");
  }
  void healOne(size_t i) { std::scoped_lock l(w.m); Fake &x = w.f[i]; x.up = true; x.odd = x.loss = 0; x.delay = 0; x.mute = x.refuseFiles = false; }
  void stillLeading(const std::string &what) { auto s = g->state()->getSnapshot(); if (s->status != RaftStatus::LEADER || s->term != term) c.fail(what + ": the leader resigned, for term " + std::to_string(s->term) + ", although nobody is in a later term than " + std::to_string(term)); }
  // between two leaderships somebody else may have led, and have replaced what was not committed
  // all others are in a later term, and refuse to confirm anything from now on; what could have been confirmed by a majority until then has to stay
  LogIndex voteAgainst() { std::scoped_lock l(w.m); std::vector<LogIndex> have; RaftTerm t = term; for (auto &x : w.f) t = std::max(t, x.term); if (++t % 2 == 0) t++; for (auto &s : members.nodes) if (!(s == ME)) { Fake *x = w.find(s); have.push_back(x->matched[term]); x->term = t; } std::sort(have.rbegin(), have.rend()); size_t need = members.nodes.size() / 2; return need ? have[need - 1] : 0; }
  void somebodyElse(LogIndex sure) {
    LogIndex commit = g->journal()->getCommitIndex(); commit = std::max(commit, sure); LogIndex prev = commit + (LogIndex) src.draw((uint64_t) ((LogIndex) log.size() - commit)); RaftTerm t = std::max(term, g->state()->getSnapshot()->term) + 1; if (t % 2 == 0) t++; { std::scoped_lock l(w.m); for (auto &x : w.f) if (x.term >= t) { t = x.term + 2; if (t % 2 == 0) t++; } } auto all = servers(); RaftServer who = src.pick(all); term = t; taken.insert(t); prev = std::max(prev, start);
    std::vector<Entry> es{{t, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(t), who.toString()}}}; size_t k = src.size(6); for (size_t i = 0; i < k; i++) es.push_back({t, write(prev + 2 + (LogIndex) i)}); c.note(who.toString() + " led in term " + std::to_string(t) + ", and replaced everything after " + std::to_string(prev)); Client peer("peer"); c.equal(peer.ask(c, g->dispatcher(), {"RAFT_HANDSHAKE", "x", CLUSTER, FAST.toString()}), vStatus("OK"), "handshake");
    Args a{"RAFT_APPEND_ENTRIES", who.toString(), be8((uint64_t) t) + be8((uint64_t) prev) + be8((uint64_t) termOf(log[(size_t) prev])) + be8((uint64_t) g->journal()->getCommitIndex()) + be8(es.size())}; for (auto &e : es) a.push_back(packEntry(e.term, e.a)); Value v = peer.ask(c, g->dispatcher(), a); c.require(v.t == '*' && v.v.size() == 4 && v.v[2] == vStr("1"), "append-entries answered " + v.show()); log.resize((size_t) prev + 1); for (auto &e : es) log.push_back(packEntry(e.term, e.a));
    RaftMembership mb = g->journal()->getMembership(); members.nodes = mb.nodes; members.observers = mb.observers; epoch = mb.epoch;
    std::scoped_lock l(w.m); for (auto &x : w.f) { if (x.srv == who || (src.flip() && x.commit <= prev && x.size() > x.start + 1)) { if (x.commit <= prev && prev >= x.start) { x.log = log; x.term = t; } } }
  }
  // ---- steps
  void writes() { size_t n = 1 + src.size(src.chance(1, 6) ? 300 : 8); c.note(std::to_string(n) + " writes, the first one is entry " + std::to_string(log.size())); for (size_t i = 0; i < n; i++) put(term, write((LogIndex) log.size())); }
  void trouble() {
    auto t = targets(); if (t.empty()) return; size_t i = src.pick(t); std::scoped_lock l(w.m); Fake &x = w.f[i]; std::string n = x.srv.toString();
    switch (src.draw(7)) { case 0: x.up = !x.up; c.note(n + (x.up ? " is back" : " is gone")); break; case 1: x.odd = 1 + (unsigned) src.draw(400); c.note(n + " gives odd replies"); break; case 2: x.loss = 1 + (unsigned) src.draw(300); c.note("messages to and from " + n + " get lost"); break; case 3: x.delay = 1 + (int) src.draw(15); c.note(n + " is slow"); break; case 4: x.refuseFiles = !x.refuseFiles; break; case 5: x.mute = true; c.note("requests reach " + n + ", but no reply gets back"); break; default: x.odd = x.loss = 0; x.delay = 0; x.mute = false; x.up = true; c.note(n + " is fine"); }
  }
  // a follower comes back with less than it had, or with something else (only what was never counted)
  void replaced() { auto t = targets(); if (t.empty()) return; size_t i = src.pick(t); { std::scoped_lock l(w.m); if (w.f[i].up || w.f[i].term >= term) return; c.note("in the meantime:"); diverge(w.f[i]); if (w.f[i].term > term) w.f[i].term = term; while (w.f[i].log.size() && termOf(w.f[i].log.back()) > term) w.f[i].log.pop_back(); } }
  void settleStatus() {
    int agreed = 0;
    auto asExpected = [&] { auto st = g->replicator()->getStatus(); std::scoped_lock l(w.m); for (auto &s : peers()) { if (!st.contains(s)) return false; Fake *x = w.find(s); auto r = st.getReplicaStatus(s); if (r.online != x->up) return false; } return st.replicas.size() == peers().size(); };
    // replies of earlier times may still be on their way
    if (!waitFor(20000, [&] { agreed = asExpected() ? agreed + 1 : 0; return agreed >= 10; })) { auto st = g->replicator()->getStatus(); std::string s; for (auto &r : st.replicas) s += " " + r.target.toString() + (r.online ? "=online" : "=offline"); std::scoped_lock l(w.m); std::string e; for (auto &p : peers()) e += " " + p.toString() + (w.find(p)->up ? "=online" : "=offline"); c.fail("replication status shows" + s + ", expected" + e); }
  }
  void membership() {
    for (size_t i = 0; i < w.f.size(); i++) { std::scoped_lock l(w.m); Fake &x = w.f[i]; x.odd = x.loss = 0; x.mute = x.refuseFiles = false; x.delay = 0; } settleStatus(); stillLeading("before a membership change");
    bool cornered = src.flip(); if (!cornered) waitFor(300, [&] { return g->journal()->getCommitIndex() == (LogIndex) log.size() - 1; }); else sleepMs(20);
    static const char *names[] = {"RAFT_ADD_OBSERVER", "RAFT_REMOVE_MEMBER", "RAFT_PROMOTE_OBSERVER", "RAFT_DEMOTE_TO_OBSERVER"}; size_t k = src.draw(4); auto pool = servers(); pool.push_back(ME); RaftServer s = src.pick(pool); bool full = std::count(members.nodes.begin(), members.nodes.end(), s), obs = std::count(members.observers.begin(), members.observers.end(), s);
    LogIndex commit = g->journal()->getCommitIndex(); bool upS = false; size_t n = 1, good = 1; { std::scoped_lock l(w.m); for (auto &x : members.nodes) if (!(x == ME)) { bool drop = x == s; if (!drop) { n++; good += w.find(x)->up; } } if (auto *x = w.find(s)) upS = x->up; }
    bool ok = !(s == ME) && commit >= epoch && commit >= w.marker; RaftMembers want = members; auto del = [&](std::vector<RaftServer> &v) { v.erase(std::remove(v.begin(), v.end(), s), v.end()); }; bool quorum = n == 1 || good >= n / 2 + 1;
    switch (k) { case 0: ok = ok && !full && !obs; want.observers.push_back(s); break; case 1: ok = ok && (full || obs) && quorum; if (obs) del(want.observers); else del(want.nodes); break; case 2: ok = ok && obs && upS; del(want.observers); want.nodes.push_back(s); break; default: ok = ok && full && quorum; del(want.nodes); want.observers.push_back(s); }
    std::string what = std::string(names[k]) + " " + s.toString() + " (members " + showServers(members.nodes) + ", observers " + showServers(members.observers) + ", " + std::to_string(good) + " of " + std::to_string(n) + " remaining ones online, committed " + std::to_string(commit) + ", last change " + std::to_string(epoch) + ", leader's first entry " + std::to_string(w.marker) + ")"; c.note(what);
    { std::scoped_lock l(w.m); if (ok) { w.voters = {members.nodes, want.nodes}; for (auto &x : w.f) if (x.srv == s && k == 0) { if (x.commit == 0 && x.size() <= 1 && src.flip()) x.log = {packEntry(0, {"JOURNAL_UPDATE_MEMBERS", "|", CLUSTER})}; } } }
    bool settled = commit == (LogIndex) log.size() - 1 || commit < w.marker; Value v = admin.ask(c, g->dispatcher(), {names[k], s.toString()}); for (int again = 0; ok && quorum && again < 3 && v.isErr() && v.s.find("up-to-date") != v.s.npos; again++) { settleStatus(); v = admin.ask(c, g->dispatcher(), {names[k], s.toString()}); } LogIndex after = g->journal()->getCommitIndex(); bool sure = settled || commit == after || (commit >= epoch && commit >= w.marker);   // unless it was committed right then
    if (!sure) ok = v == vStatus("OK"); if (ok) { c.equal(v, vStatus("OK"), what); members = want; epoch = (LogIndex) log.size(); log.push_back(packEntry(term, {"JOURNAL_UPDATE_MEMBERS", membersText(), CLUSTER})); changes++; } else { c.require(v.isErr(), what + " answered " + v.show()); refusedChanges++; }
    { std::scoped_lock l(w.m); w.voters.push_back(members.nodes); }
    RaftMembership mb = g->journal()->getMembership(); c.equal(showServers(mb.nodes) + "|" + showServers(mb.observers), membersText(), what + ": members afterwards"); c.equal(mb.epoch, epoch, what + ": epoch"); c.equal(g->journal()->getLogSize(), (LogIndex) log.size(), what + ": log size"); c.equal(vf::quote(bytes((LogIndex) log.size() - 1)), vf::quote(log.back()), what + ": the new entry"); auto st = g->replicator()->getStatus(); c.equal(st.replicas.size(), peers().size(), what + ": replicas"); troubles();
  }
  std::string membersText() { return showServers(members.nodes) + "|" + showServers(members.observers); }
  void trim() {
    LogIndex upTo = std::min(g->journal()->getCommitIndex(), g->stateMachine()->getLastApplied()) - 1; if (upTo <= start + 1) return; LogIndex k = start + 1 + (LogIndex) src.draw((uint64_t) (upTo - start)); if (!g->trimmer()->canTrimUntil(k)) { c.note("trimming until " + std::to_string(k) + " is not allowed"); return; }
    g->journal()->trimUntil(k); start = k; trims++; c.note("the leader's log starts at " + std::to_string(k)); sleepMs(10); stillLeading("after trimming");
  }
  std::string progress() { std::string s = "leader: " + std::to_string(log.size()) + " entries from " + std::to_string(start) + ", committed " + std::to_string(g->journal()->getCommitIndex()); std::scoped_lock l(w.m); for (auto i : targets()) { Fake &x = w.f[i]; LogIndex k = x.start; while (k < x.size() && k < (LogIndex) log.size() && x.log[(size_t) k] == log[(size_t) k]) k++; s += "; " + x.srv.toString() + ": " + std::to_string(x.size()) + " entries from " + std::to_string(x.start) + ", " + (k == x.size() ? "all" : "up to " + std::to_string(k)) + " as the leader's, committed " + std::to_string(x.commit); } return s; }
  void converge(bool all) {
    if (all) for (size_t i = 0; i < w.f.size(); i++) healOne(i); bool enough; { std::scoped_lock l(w.m); size_t up = 1; for (auto &s : members.nodes) if (!(s == ME) && w.find(s)->up) up++; enough = up >= members.nodes.size() / 2 + 1; }
    if (!waitFor(25000, [&] { std::scoped_lock l(w.m); LogIndex commit = g->journal()->getCommitIndex(); if (enough && commit != (LogIndex) log.size() - 1) return false; for (auto i : targets()) { Fake &x = w.f[i]; if (!x.up) continue; if (x.size() != (LogIndex) log.size()) return false; for (LogIndex k = std::max<LogIndex>(1, x.start); k < x.size(); k++) if (x.log[(size_t) k] != log[(size_t) k]) return false; if (enough && x.commit != commit) return false; } return true; })) { stillLeading("while bringing the followers up to date"); c.fail("the followers do not reach the leader's log: " + progress()); }
    troubles(); stillLeading("with all followers up to date"); c.note("converged"); if (enough) { applied((LogIndex) log.size() - 1); } int done = 0; { std::scoped_lock l(w.m); for (auto &x : w.f) done += x.resilvered; } if (done) c.label("resilvered");
  }
  void run(size_t steps) {
    lead();
    while (src.more(steps)) {
      VF_SPAN(src); if (!leading) { if (src.chance(1, 2) && members.nodes.size() > 1) somebodyElse(0); lead(); }
      size_t k = src.weighted({8, 6, 3, 2, 2, 1, 3, 1, 2}); auto t0 = std::chrono::steady_clock::now();
      switch (k) {
        case 0: writes(); break;
        case 1: trouble(); break;
        case 2: membership(); break;
        case 3: newerTerm(); break;
        case 4: replaced(); break;
        case 5: converge(true); break;
        case 6: sleepMs((int) src.draw(20)); break;
        case 8: { if (members.nodes.size() == 1) break; logOf[term] = log; LogIndex sure = voteAgainst(); if (g->state()->getSnapshot()->term != term) { retire("a newer term appeared"); somebodyElse(sure); break; } somebodyElse(sure); { std::scoped_lock l(w.m); w.active = false; } c.note("while I was still leading"); sleepMs((int) src.draw(4)); retire("somebody else leads"); overtaken++; break; }
        default: trim();
      }
      if (leading) stillLeading("after that"); troubles();
    }
    if (!leading) lead(); converge(true); retire("at the end");
    c.nontrivial(w.rewound >= 2 && log.size() > 4); if (w.rewound) c.label("conflicting follower log"); if (w.streamed) c.label("streamed"); if (w.oddReplies) c.label("odd replies"); if (w.losses) c.label("losses"); if (changes) c.label("membership changed"); if (refusedChanges) c.label("membership change refused"); if (overtaken) c.label("overwritten while leading"); if (trims || start) c.label("trimmed leader log"); if (deposed > 1) c.label("leadership lost");
  }
};
}
VF_PROP(R11, replication, 800, 40000, vf::kConcurrent) { Replication(src, c).run(25); }
VF_RULE(R11, "histories in which followers with a conflicting or shorter log were brought to the leader's log");
