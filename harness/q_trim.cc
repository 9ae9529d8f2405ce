// R11 the log is trimmed as configured, never further than anybody still needs it; who counts as up to date.
#include "raft.hh"
using namespace raftcheck;

namespace {
NoConnectionLogs quiet;
const RaftServer ME{"me", 1};

struct Trimming {
  vf::Source &src; vf::Case &c; std::string path; std::unique_ptr<ShardDirectory> dir; std::unique_ptr<RaftGroup> g; LogIndex start = 0, size = 1, commit = 0, applied = 0; int64_t keep = 50000000, step = 200000; std::vector<std::unique_ptr<RaftTrimmingBlock>> blocks; std::vector<Entry> log; int trimmed = 0, held = 0;
  Trimming(vf::Source &s, vf::Case &c_) : src(s), c(c_), path(c_.scratch() + "/shard") {
    Status st; std::unique_ptr<StateMachine> none; dir.reset(ShardDirectory::create(path, "cluster", "s", {ME, RaftServer("a", 1), RaftServer("b", 1)}, 0, FsyncPolicy::kAsync, std::move(none), st)); c.require(st.ok() && dir, "cannot create a shard");
    g.reset(new RaftGroup(*dir, ME, RaftTimeouts(std::chrono::milliseconds(100000), std::chrono::milliseconds(200000), std::chrono::milliseconds(1000)), "")); g->dispatcher(); log.push_back(entryAt(c, *g->journal(), 0)); configure(); settle({0}, "with the first configuration"); g->trimmer();
  }
  ~Trimming() { blocks.clear(); g.reset(); dir.reset(); }
  void put(const Args &a) { RaftEntry e; e.term = 0; e.request = req(a); c.require(g->journal()->append(size, e), "an entry was refused"); log.push_back({0, a}); size++; }
  void commitUpTo(LogIndex k) { if (k <= commit) return; c.require(g->journal()->setCommitIndex(k), "commit index refused"); commit = k; StateMachine &sm = *g->stateMachine(); auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20); while (sm.getLastApplied() < k && std::chrono::steady_clock::now() < until) sm.waitUntilTargetLastApplied(k, std::chrono::milliseconds(500)); applied = sm.getLastApplied(); c.equal(applied, k, "last applied entry"); }
  // where trimming ends, from here
  LogIndex stop(LogIndex from) { LogIndex s = from; while (size - s > keep + step) { LogIndex t = s + step; bool free = commit > t && applied > t; for (auto &b : blocks) if (b->getPreservationIndex() <= t) free = false; if (!free) break; s = t; } return s; }
  void configure() { keep = (int64_t) src.draw(30); step = 1 + (int64_t) src.draw(src.flip() ? 4 : 40); c.note("keep " + std::to_string(keep) + ", trim by " + std::to_string(step)); put({"CONFIG_SET", "raft.trimming", std::to_string(keep) + ":" + std::to_string(step)}); commitUpTo(size - 1); }
  void settle(const std::vector<LogIndex> &may, const std::string &what) {
    std::string list; for (auto m : may) list += (list.empty() ? "" : " or ") + std::to_string(m); LogIndex now = 0; auto ok = [&] { now = g->journal()->getLogStart(); return std::find(may.begin(), may.end(), now) != may.end(); };
    auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20); LogIndex most = *std::max_element(may.begin(), may.end());
    while (!ok()) { if (now > most) break; if (std::chrono::steady_clock::now() > until) break; std::this_thread::sleep_for(std::chrono::milliseconds(5)); }
    if (!ok()) c.fail(what + ": the log starts at " + std::to_string(now) + ", expected " + list + " (" + std::to_string(size) + " entries, committed " + std::to_string(commit) + ", keep " + std::to_string(keep) + ", trim by " + std::to_string(step) + blocked() + ")");
    if (now > start) trimmed++; start = now; RaftJournal &j = *g->journal(); c.equal(j.getLogSize(), size, what + ": log size"); for (LogIndex i = std::max<LogIndex>(0, start - 3); i < size; i++) { RaftEntry e; bool there = j.fetch(i, e).ok(); for (int w = 0; w < 2000 && there && i < start; w++) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); there = j.fetch(i, e).ok(); } c.equal(there, i >= start, what + ": entry " + std::to_string(i) + " exists"); if (there) c.require(args(e.request) == log[(size_t) i].a, what + ": entry " + std::to_string(i) + " differs"); }
  }
  std::string blocked() { std::string s; for (auto &b : blocks) s += ", " + (b->getPreservationIndex() == std::numeric_limits<LogIndex>::max() ? std::string("nothing") : std::to_string(b->getPreservationIndex())) + " preserved"; return s; }
  // nothing further happens
  void rest(const std::string &what) { std::this_thread::sleep_for(std::chrono::milliseconds(1100)); c.equal(g->journal()->getLogStart(), start, what + ": the log starts at, a second later"); }
  void run() {
    size_t rounds = 2 + src.draw(3);
    for (size_t i = 0; i < rounds; i++) {
      VF_SPAN(src); std::string what = "round " + std::to_string(i);
      if (i && src.chance(1, 3)) { LogIndex before = start; (void) before; int64_t k0 = keep, s0 = step; configure(); int64_t k1 = keep, s1 = step; keep = k0; step = s0; LogIndex mid = stop(start); std::vector<LogIndex> seen{start}; for (LogIndex x = start; x < mid; x += s0) seen.push_back(x + s0); keep = k1; step = s1; std::vector<LogIndex> may; for (auto x : seen) may.push_back(stop(x)); settle(may, what + ", another configuration"); continue; }
      // blocks first, while nothing can be trimmed
      size_t nb = src.draw(3); for (size_t b = 0; b < nb; b++) { if (blocks.size() < 4 && src.flip()) { LogIndex at = start + (LogIndex) src.draw(60); blocks.emplace_back(new RaftTrimmingBlock(*g->trimmer(), at)); c.note("entry " + std::to_string(at) + " has to stay"); } else if (!blocks.empty()) { size_t k = src.draw(blocks.size()); switch (src.draw(3)) { case 0: blocks[k]->lift(); c.note("a block is lifted"); break; case 1: blocks.erase(blocks.begin() + (long) k); c.note("a block is gone"); break; default: LogIndex at = start + (LogIndex) src.draw(80); LogIndex was = blocks[k]->getPreservationIndex(); if (was != std::numeric_limits<LogIndex>::max() && at < was) at = was; blocks[k]->enforce(at); c.note("entry " + std::to_string(at) + " has to stay instead"); } } }
      size_t n = src.draw(src.flip() ? 15 : 80); for (size_t k = 0; k < n; k++) put({"SET", "k" + std::to_string(size), src.bytes(4)}); c.note(std::to_string(n) + " entries more"); LogIndex upTo = src.chance(1, 3) ? commit + (LogIndex) src.draw((uint64_t) (size - commit)) : size - 1; commitUpTo(upTo); c.note("committed up to " + std::to_string(commit));
      LogIndex want = stop(start); if (size - want > keep + step) held++; settle({want}, what); if (src.chance(1, 4)) rest(what);
    }
    if (src.flip()) { c.note("restart"); blocks.clear(); LogIndex was = start; (void) was; LogIndex want = stop(start); settle({want}, "with all blocks gone"); g.reset(); dir.reset(); dir.reset(new ShardDirectory(path)); g.reset(new RaftGroup(*dir, ME, RaftTimeouts(std::chrono::milliseconds(100000), std::chrono::milliseconds(200000), std::chrono::milliseconds(1000)), "")); c.equal(g->journal()->getLogStart(), start, "after a restart: the log starts at"); settle({start}, "after a restart"); }
    c.nontrivial(trimmed > 0 || held > 0); if (trimmed) c.label("trimmed"); if (held) c.label("held back");
  }
};
}
VF_PROP(R11, trimming, 40, 2000, vf::kConcurrent) { Trimming(src, c).run(); }

// who counts towards an up-to-date quorum
VF_PROP(R11, status, 20000, 200000, vf::kNone) {
  ReplicationStatus st; struct R { bool online; LogIndex size; }; std::map<std::string, R> m; LogIndex mine = (LogIndex) src.draw(100000); int n = 0; static const std::vector<std::string> hosts = {"a", "b", "c", "d", "e", "f", "g"};
  while (src.more(12)) {
    VF_SPAN(src); RaftServer s(src.pick(hosts), 1 + (int) src.draw(2)); std::string k = s.toString(); c.equal(st.contains(s), m.count(k) > 0, k + " is listed");
    if (!m.count(k)) { R r{src.chance(2, 3), src.chance(1, 10) ? -1 : src.flip() ? mine - 30003 + (LogIndex) src.draw(6) : (LogIndex) src.draw(120000)}; st.addReplica(ReplicaStatus(s, r.online, r.size, "v")); m[k] = r; c.note("+" + k + (r.online ? " online " : " offline ") + std::to_string(r.size)); }
    else if (src.flip()) { st.removeReplica(s); m.erase(k); c.note("-" + k); }
    else { auto r = st.getReplicaStatus(s); c.require(r.target == s && r.online == m[k].online && r.logSize == m[k].size, "status of " + k); }
    size_t on = 0, up = 0; for (auto &x : m) { on += x.second.online; up += x.second.online && x.second.size >= 0 && mine - x.second.size < 30000; }
    c.equal(st.replicas.size(), m.size(), "listed"); c.equal(st.replicasOnline(), on, "online"); c.equal(st.replicasUpToDate(mine), up, "up to date, with " + std::to_string(mine) + " entries at the leader");
    if (!m.empty()) c.equal(st.quorumUpToDate(mine), m.size() == 1 || up >= m.size() / 2 + 1, "quorum up to date: " + std::to_string(up) + " of " + std::to_string(m.size())); n++;
  }
  c.nontrivial(n > 3 && m.size() > 1);
}
