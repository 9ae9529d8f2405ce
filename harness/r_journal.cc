// R01..R05: the raft journal, crashes, raft state, membership, timeouts.
#include "common.hh"
#include "Utils.hh"
#include "deps/StringMatchLen.h"
#include "raft/RaftCommon.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftMembers.hh"
#include "raft/RaftState.hh"
#include "raft/RaftTimeouts.hh"
#include <algorithm>
#include <atomic>
#include <dlfcn.h>
#include <filesystem>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using namespace quarkdb;
using vf::quote;
namespace fs = std::filesystem;

// ------------------------------------------------------------------------------------------------ observing syncs
// rocksdb's fsync/fdatasync calls resolve to these: remember how much of each write-ahead log is on stable storage.
static std::mutex gSyncMutex;
static std::map<std::string, int64_t> gSynced;
static void recordSync(int fd) {
  char link[64], path[1024]; snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof(path) - 1); if (n <= 0) return; path[n] = 0;
  struct stat st; if (fstat(fd, &st) != 0) return;
  std::scoped_lock lock(gSyncMutex); auto &v = gSynced[path]; v = std::max<int64_t>(v, st.st_size);
}
extern "C" int fsync(int fd) { static auto real = (int (*)(int)) dlsym(RTLD_NEXT, "fsync"); recordSync(fd); return real(fd); }
extern "C" int fdatasync(int fd) { static auto real = (int (*)(int)) dlsym(RTLD_NEXT, "fdatasync"); recordSync(fd); return real(fd); }
extern "C" int sync_file_range(int, off64_t, off64_t, unsigned) { return 0; }  // not a durability guarantee

// ------------------------------------------------------------------------------------------------ model
using Args = std::vector<std::string>;
struct ModelEntry { RaftTerm term; Args args; bool operator==(const ModelEntry &o) const { return term == o.term && args == o.args; } };
struct Members { std::vector<RaftServer> nodes, observers; bool operator==(const Members &o) const { return nodes == o.nodes && observers == o.observers; } };
struct Model {
  std::string cluster; RaftTerm term = 0; RaftServer vote; LogIndex start = 0, commit = 0;
  std::map<LogIndex, ModelEntry> log;
  std::map<LogIndex, Members> memberships;          // by epoch
  FsyncPolicy policy = FsyncPolicy::kAlways;
  LogIndex size() const { return log.rbegin()->first + 1; }
  RaftTerm lastTerm() const { return log.rbegin()->second.term; }
  LogIndex epoch() const { return memberships.rbegin()->first; }
  const Members &members() const { return memberships.rbegin()->second; }
};
static std::string serversToString(const std::vector<RaftServer> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x.hostname + ":" + std::to_string(x.port); return s; }
static std::string membersToString(const Members &m) { return serversToString(m.nodes) + "|" + serversToString(m.observers); }
static Args argsOf(const RedisRequest &r) { Args a; for (size_t i = 0; i < r.size(); i++) a.emplace_back(r[i]); return a; }
static RaftEntry makeEntry(RaftTerm term, const Args &args) { RedisRequest r; for (auto &a : args) r.emplace_back(std::string(a)); return RaftEntry(term, r); }
static std::string showEntry(const ModelEntry &e) { std::string s = "term " + std::to_string(e.term) + ":"; for (auto &a : e.args) s += " " + quote(a, 30); return s; }
static ModelEntry fromReal(const RaftEntry &e) { return {e.term, argsOf(e.request)}; }

static RaftServer srv(unsigned i) { static const char *names[] = {"server1", "server2", "s3.cern.ch", "h-4", "5", "node.six", "seven"}; return RaftServer(names[i % 7], 1000 + (int) i * 7); }
static std::vector<RaftServer> genServers(vf::Source &src, size_t lo, size_t hi) { size_t n = (size_t) src.range(lo, hi); std::vector<RaftServer> v; unsigned off = (unsigned) src.draw(7); for (size_t i = 0; i < n; i++) v.push_back(srv(off + i)); return v; }
static Args genArgs(vf::Source &src) {
  Args a; static const std::vector<std::string> cmds = {"SET", "HSET", "DEL", "JOURNAL_LEADERSHIP_MARKER", "TX_READWRITE", "*", "[a]"};
  a.push_back(src.pick(cmds)); size_t n = src.draw(4);
  for (size_t i = 0; i < n; i++) a.push_back(src.chance(1, 12) ? std::string((size_t) src.range(0, 40000), 'x') : src.bytes(12));
  return a;
}

// everything observable about the journal
static std::string compareAll(RaftJournal &j, const Model &m, bool probeOutside = true) {
  std::ostringstream ss;
  auto chk = [&](auto got, auto want, const char *what) { if (!(got == want) && ss.str().empty()) ss << what << ": journal says " << vf::Case::show(got) << ", expected " << vf::Case::show(want); };
  chk(j.getLogStart(), m.start, "log start"); chk(j.getLogSize(), m.size(), "log size"); chk(j.getCommitIndex(), m.commit, "commit index");
  chk(j.getCurrentTerm(), m.term, "current term"); chk(j.getVotedFor().toString(), m.vote.toString(), "vote"); chk(j.getClusterID(), m.cluster, "cluster id");
  chk(fsyncPolicyToString(j.getFsyncPolicy()), fsyncPolicyToString(m.policy), "fsync policy");
  RaftMembership mem = j.getMembership();
  chk(serversToString(mem.nodes), serversToString(m.members().nodes), "full members"); chk(serversToString(mem.observers), serversToString(m.members().observers), "observers");
  chk(mem.epoch, m.epoch(), "membership epoch"); chk(j.getEpoch(), m.epoch(), "epoch"); chk(serversToString(j.getNodes()), serversToString(m.members().nodes), "nodes");
  if (!ss.str().empty()) return ss.str();
  LogIndex lo = probeOutside ? std::max<LogIndex>(0, m.start - 6) : m.start, hi = m.size() + (probeOutside ? 6 : 0);
  for (LogIndex i = lo; i < hi; i++) {
    RaftEntry e; auto st = j.fetch(i, e); auto it = m.log.find(i);
    if (st.ok() != (it != m.log.end())) { ss << "entry " << i << (st.ok() ? " is in the journal but was removed or never written" : " is missing from the journal"); return ss.str(); }
    if (!st.ok()) { if (!st.IsNotFound()) return "fetch failed: " + st.ToString(); continue; }
    if (!(fromReal(e) == it->second)) { ss << "entry " << i << " is " << showEntry(fromReal(e)) << ", expected " << showEntry(it->second); return ss.str(); }
  }
  return "";
}
static void checkReads(vf::Source &src, vf::Case &c, RaftJournal &j, const Model &m) {
  LogIndex i = src.range(std::max<LogIndex>(0, m.start - 3), m.size() + 3); auto it = m.log.find(i);
  switch (src.draw(7)) {
    case 0: { RaftTerm t = -77; auto st = j.fetch(i, t); c.equal(st.ok(), it != m.log.end(), "term lookup succeeds at " + std::to_string(i)); if (st.ok()) c.equal(t, it->second.term, "term at index"); break; }
    case 1: { RaftSerializedEntry s; auto st = j.fetch(i, s); c.equal(st.ok(), it != m.log.end(), "raw fetch succeeds"); if (st.ok()) { RaftEntry e; RaftEntry::deserialize(e, s); c.require(fromReal(e) == it->second, "serialized entry differs"); c.equal(RaftEntry::fetchTerm(s), it->second.term, "term of the serialized entry"); } break; }
    case 2: {
      int n = (int) src.range(0, (int64_t) m.log.size() + 4); std::vector<RaftEntry> v; j.fetch_last(n, v);
      std::vector<ModelEntry> want; for (LogIndex k = std::max(m.start, m.size() - n); k < m.size(); k++) want.push_back(m.log.at(k));
      c.equal(v.size(), want.size(), "number of entries returned by fetch_last " + std::to_string(n));
      for (size_t k = 0; k < v.size(); k++) c.require(fromReal(v[k]) == want[k], "fetch_last returned " + showEntry(fromReal(v[k])) + ", expected " + showEntry(want[k]));
      break;
    }
    case 3: { RaftTerm t = src.range(0, m.term + 1); if (it != m.log.end() && src.flip()) t = it->second.term; c.equal(j.matchEntries(i, t), it != m.log.end() && it->second.term == t, "matchEntries at " + std::to_string(i)); break; }
    case 4: {
      // entries compared against our own, with one possibly changed; those already trimmed count as equal
      LogIndex from = src.chance(1, 4) ? src.range(std::max<LogIndex>(0, m.start - 6), m.start) : src.range(m.start, m.size()); size_t n = src.draw((uint64_t)(m.size() - from) + 3); std::vector<RaftEntry> v; LogIndex want = std::min<LogIndex>(m.size(), from + (LogIndex) n); LogIndex diff = src.chance(1, 2) ? from + (LogIndex) src.draw(n + 1) : -1;
      int how = (int) src.draw(3);
      for (LogIndex k = from; k < from + (LogIndex) n; k++) {
        ModelEntry e = m.log.count(k) ? m.log.at(k) : ModelEntry{m.lastTerm(), {"X"}};
        if (k == diff) { if (how == 0) e.term++; else if (how == 1) e.args.push_back(""); else e.args.back() += "y"; if (k < m.size() && k >= m.start) want = std::min(want, k); }
        v.push_back(makeEntry(e.term, e.args));
      }
      c.equal(j.compareEntries(from, v), want, "first differing index from " + std::to_string(from) + " over " + std::to_string(n) + " entries");
      break;
    }
    case 5: {
      bool must = src.flip(); auto iter = j.getIterator(i, must); auto mi = must ? m.log.find(i) : m.log.lower_bound(i); size_t steps = 0;
      while (iter.valid()) {
        c.require(mi != m.log.end(), "iterator went past the end of the log"); c.equal(iter.getCurrentIndex(), mi->first, "iterator index");
        RaftSerializedEntry s; iter.current(s); RaftEntry e; RaftEntry::deserialize(e, s); c.require(fromReal(e) == mi->second, "iterator entry differs at " + std::to_string(mi->first));
        iter.next(); ++mi; if (++steps > 500) c.fail("iterator does not end");
      }
      c.require(mi == m.log.end(), "iterator from " + std::to_string(i) + " stopped before the end of the log");
      break;
    }
    default: {
      std::string match = src.chance(1, 3) ? "" : src.chance(1, 2) ? "*" + src.over("SEDx*[?a]", 3) + "*" : src.over("*SET?", 4); size_t count = (size_t) src.range(1, 6);
      LogIndex cursor = src.flip() ? 0 : i; std::map<LogIndex, ModelEntry> want; size_t pages = 0;
      for (auto &[k, e] : m.log) if (k >= cursor) { RaftSerializedEntry s = makeEntry(e.term, e.args).serialize(); if (match.empty() || stringmatchlen(match.data(), match.size(), s.data(), s.size(), 0) == 1) want[k] = e; }
      std::map<LogIndex, ModelEntry> got;
      while (true) {
        std::vector<RaftEntryWithIndex> out; LogIndex next = -5; auto st = j.scanContents(cursor, count, match, out, next); c.require(st.ok(), "scan failed");
        c.require(out.size() <= count, "scan returned more entries than asked");
        for (auto &x : out) c.require(got.emplace(x.index, fromReal(x.entry)).second, "scan returned index " + std::to_string(x.index) + " twice");
        if (next == 0) break; c.require(next > cursor, "scan cursor does not advance"); cursor = next; if (++pages > 500) c.fail("scan does not end");
      }
      c.equal(got.size(), want.size(), "entries found by scanning with pattern " + quote(match)); c.require(got == want, "scan returned different entries");
    }
  }
}

struct World {
  vf::Source &src; vf::Case &c; std::string dir; std::unique_ptr<RaftJournal> j; Model m;
  int removed = 0, trimmed = 0, reopened = 0, refused = 0, memberOps = 0, rolledBack = 0;
  std::vector<Model> history; size_t durable = 0;     // history[k]: state after operation k; operations up to "durable" must survive a machine crash
  World(vf::Source &s, vf::Case &cs, const std::string &name = "journal") : src(s), c(cs) {
    dir = cs.scratch() + "/" + name; m.cluster = "cluster-" + std::to_string(s.draw(3)); m.start = src.chance(1, 3) ? src.range(1, 300) : 0; m.commit = m.start;
    Members mem{genServers(src, 1, 4), {}}; m.memberships[m.start] = mem; m.policy = (FsyncPolicy) src.draw(3);
    m.log[m.start] = {0, {"JOURNAL_UPDATE_MEMBERS", membersToString(mem), m.cluster}};
    j.reset(new RaftJournal(dir, m.cluster, mem.nodes, m.start, m.policy));
    c.note("new journal, start " + std::to_string(m.start) + " members " + membersToString(mem) + " policy " + fsyncPolicyToString(m.policy));
  }
  void reopen() { c.note("reopen"); j.reset(); j.reset(new RaftJournal(dir)); reopened++; }
  template <typename F> bool throws(F f) { try { f(); return false; } catch (FatalException &) { return true; } }
  // runs f, which must be refused by returning false or by throwing
  template <typename F> void refuse(const std::string &what, F f) { refused++; bool ok = false; try { ok = f(); } catch (FatalException &) { ok = false; } c.require(!ok, what + " was accepted"); }
  bool durableAppend(bool important) const { return m.policy == FsyncPolicy::kAlways || (important && m.policy == FsyncPolicy::kSyncImportantUpdates); }
  void done(bool mustSurvive) { history.push_back(m); if (mustSurvive) durable = history.size() - 1; }
  void push(LogIndex i, const ModelEntry &e) { m.log[i] = e; if (e.args[0] == "JOURNAL_UPDATE_MEMBERS" && e.args[2] == m.cluster) { RaftMembers x(e.args[1]); m.memberships[i] = {x.nodes, x.observers}; } }
  void append() {
    LogIndex at = m.size(); RaftTerm t = src.flip() ? m.term : src.range(m.lastTerm(), m.term); Args a = genArgs(src); bool important = src.chance(1, 4);
    c.note("append " + std::to_string(at) + " " + showEntry({t, a}) + (important ? " important" : ""));
    c.require(j->append(at, makeEntry(t, a), important), "a valid append was refused"); push(at, {t, a}); done(durableAppend(important));
  }
  void badAppend() {
    LogIndex at = m.size(); RaftTerm t = m.term; std::string why;
    switch (src.draw(3)) { case 0: at += src.flip() ? (LogIndex) src.range(1, 3) : -(LogIndex) src.range(1, std::min<LogIndex>(3, at)); why = "an append at " + std::to_string(at) + " with log size " + std::to_string(m.size()); break;
      case 1: t = m.term + src.range(1, 3); why = "an append with a term ahead of the current one"; break;
      default: if (m.lastTerm() == 0) return; t = src.range(0, m.lastTerm() - 1); why = "an append with a term before the last entry's"; }
    c.note(why); refuse(why, [&] { return j->append(at, makeEntry(t, genArgs(src))); });
  }
  void marker() { LogIndex at = m.size(); RaftServer l = srv(src.draw(7)); c.note("leadership marker"); c.require(j->appendLeadershipMarker(at, m.term, l), "leadership marker refused"); push(at, {m.term, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(m.term), l.toString()}}); done(durableAppend(true)); }
  void setTerm() {
    RaftTerm t = m.term + src.range(-1, 2); RaftServer v = src.chance(1, 3) ? RaftServer() : src.chance(1, 8) ? RaftState::BLOCKED_VOTE : srv(src.draw(7));
    bool ok = t > m.term || (t == m.term && m.vote.empty()); c.note("set term " + std::to_string(t) + " vote '" + v.toString() + "'");
    c.equal(j->setCurrentTerm(t, v), ok, "setCurrentTerm accepted"); if (ok) { m.term = t; m.vote = v; done(m.policy != FsyncPolicy::kAsync); } else refused++;
  }
  void commit() {
    LogIndex to = src.range(std::max<LogIndex>(0, m.commit - 2), m.size() + 1); c.note("commit " + std::to_string(to));
    if (to >= m.size()) { refused++; c.require(throws([&] { j->setCommitIndex(to); }), "committing past the end of the log was accepted"); return; }
    c.equal(j->setCommitIndex(to), to >= m.commit, "setCommitIndex accepted"); if (to > m.commit) { m.commit = to; done(false); }
  }
  void dropTail(LogIndex from) { for (auto it = m.log.lower_bound(from); it != m.log.end();) it = m.log.erase(it); auto it = m.memberships.lower_bound(from); if (it != m.memberships.end()) rolledBack++; m.memberships.erase(it, m.memberships.end()); }
  void remove() {
    LogIndex from = src.range(std::max<LogIndex>(0, m.commit - 1), m.size() + 1); c.note("remove from " + std::to_string(from));
    if (from >= m.size()) { c.equal(j->removeEntries(from), false, "removing past the end reported a removal"); return; }
    if (from <= m.commit) { refused++; c.require(throws([&] { j->removeEntries(from); }), "removing a committed entry was accepted"); return; }
    c.require(j->removeEntries(from), "a valid removal was refused"); dropTail(from); removed++; done(false);
  }
  void trim() {
    LogIndex to = src.range(std::max<LogIndex>(0, m.start - 1), m.size() + 1); c.note("trim until " + std::to_string(to));
    if (to <= m.start) { j->trimUntil(to); return; }
    if (to > m.commit) { refused++; c.require(throws([&] { j->trimUntil(to); }), "trimming uncommitted entries was accepted"); return; }
    j->trimUntil(to); m.log.erase(m.log.begin(), m.log.lower_bound(to)); m.start = to; trimmed++; done(false);
  }
  void policy() { FsyncPolicy p = (FsyncPolicy) src.draw(3); c.note("fsync policy " + fsyncPolicyToString(p)); j->setFsyncPolicy(p); m.policy = p; done(false); }
  void membership() {
    RaftServer s = srv(src.draw(7)); Members mem = m.members(); std::string err; int what = (int) src.draw(4); bool valid; auto has = [&](std::vector<RaftServer> &v) { return std::find(v.begin(), v.end(), s) != v.end(); };
    auto drop = [&](std::vector<RaftServer> &v) { v.erase(std::find(v.begin(), v.end(), s)); };
    if (what == 0) { valid = !has(mem.nodes) && !has(mem.observers); if (valid) mem.observers.push_back(s); }
    else if (what == 1) { valid = has(mem.observers); if (valid) { drop(mem.observers); mem.nodes.push_back(s); } }
    else if (what == 2) { valid = has(mem.nodes); if (valid) { drop(mem.nodes); mem.observers.push_back(s); } }
    else { valid = has(mem.nodes) || has(mem.observers); if (valid) { if (has(mem.nodes)) drop(mem.nodes); else drop(mem.observers); } }
    static const char *names[] = {"add observer ", "promote ", "demote ", "remove "}; c.note(names[what] + s.toString());
    bool pending = m.commit < m.epoch(); bool ok = valid && !pending && !mem.nodes.empty(); bool got = false; bool threw = false; LogIndex at = m.size();
    RaftTerm t = src.chance(1, 8) ? m.term + 1 : m.term; if (t > m.term) ok = false;
    try { got = what == 0 ? j->addObserver(t, s, err) : what == 1 ? j->promoteObserver(t, s, err) : what == 2 ? j->demoteToObserver(t, s, err) : j->removeMember(t, s, err); } catch (FatalException &) { threw = true; }
    c.equal(got, ok, std::string("membership change accepted (") + (pending ? "previous change uncommitted" : "no change pending") + ", " + (valid ? "valid" : "invalid") + ")");
    c.require(!threw || mem.nodes.empty(), "membership change raised an exception");
    if (ok) { memberOps++; push(at, {m.term, {"JOURNAL_UPDATE_MEMBERS", membersToString(mem), m.cluster}}); done(m.policy != FsyncPolicy::kAsync); } else { refused++; if (!threw && t == m.term) c.require(!err.empty(), "refused without an explanation"); }
  }
  // a membership entry arriving from a leader through replication
  void membershipEntry() {
    LogIndex at = m.size(); Members mem{genServers(src, 1, 4), {}}; unsigned k = (unsigned) src.draw(3); for (unsigned i = 0; i < k; i++) { RaftServer s("obs" + std::to_string(i), (int) src.draw(3)); mem.observers.push_back(s); }
    bool other = src.chance(1, 4); ModelEntry e{m.term, {"JOURNAL_UPDATE_MEMBERS", membersToString(mem), other ? m.cluster + "x" : m.cluster}};
    if (!other && m.commit < m.epoch()) return;    // a leader never issues a second change before the first one is committed
    if (src.chance(1, 5)) {
      switch (src.draw(4)) { case 0: e.args.pop_back(); break; case 1: e.args[1] = "a:1"; break; case 2: e.args[1] = "a:1,b|"; break; default: e.args[1] = "a:1,a:1|"; }
      if (e.args.size() == 3 && other) { c.note("replicated foreign malformed membership entry"); c.require(j->append(at, makeEntry(e.term, e.args)), "foreign membership entry refused"); push(at, e); done(m.policy != FsyncPolicy::kAsync); return; }
      c.note("malformed membership entry " + showEntry(e)); refuse("a malformed membership entry", [&] { return j->append(at, makeEntry(e.term, e.args)); }); return;
    }
    c.note("replicated " + showEntry(e)); c.require(j->append(at, makeEntry(e.term, e.args)), "membership entry refused"); push(at, e); if (!other) memberOps++; done(m.policy != FsyncPolicy::kAsync);
  }
  void check(const std::string &when) { std::string r = compareAll(*j, m); c.require(r.empty(), when + ": " + r); }
};

VF_RULE(R01, "Operation sequences on one journal against an in-memory log. Non-trivial: the sequence removed or trimmed entries, or reopened the journal, and contains at least one refused operation.");
VF_PROP(R01, log_model, 6500, 200000, vf::kNone) {
  World w(src, c); w.done(true); size_t steps = 0;
  while (src.more(22) && steps++ < 80) {
    VF_SPAN(src);
    switch (src.weighted({30, 6, 10, 6, 6, 9, 2, 2, 14, 2, 1, 3, 2})) {
      case 0: w.append(); break; case 1: w.badAppend(); break; case 2: w.commit(); break; case 3: w.remove(); break; case 4: w.trim(); break; case 5: w.setTerm(); break;
      case 6: w.policy(); break; case 7: w.reopen(); w.check("after reopening"); break; case 8: checkReads(src, c, *w.j, w.m); break; case 9: w.marker(); break;
      case 10: {
        w.m = Model(); w.m.cluster = "fresh"; w.m.start = src.range(0, 40); w.m.commit = w.m.start; w.m.policy = (FsyncPolicy) src.draw(3); Members mem{genServers(src, 1, 3), {}}; w.m.memberships[w.m.start] = mem;
        w.m.log[w.m.start] = {0, {"JOURNAL_UPDATE_MEMBERS", membersToString(mem), w.m.cluster}}; c.note("obliterate, start " + std::to_string(w.m.start)); w.j->obliterate("fresh", mem.nodes, w.m.start, w.m.policy); w.check("after re-initialising"); break;
      }
      case 11: w.membership(); break;
      default: {
        size_t n = src.draw(4); LogIndex to = w.m.size() - (LogIndex) n; if (to <= w.m.start) break; auto it = w.m.memberships.lower_bound(to); if (it == w.m.memberships.begin() || std::distance(it, w.m.memberships.end()) > 1) break;
        c.note("lose the last " + std::to_string(n) + " entries"); c.equal(w.j->simulateDataLoss(n), n > 0, "simulated loss"); if (w.m.commit >= to) w.m.commit = to - 1; w.dropTail(to); w.removed++;
      }
    }
  }
  w.check("at the end"); w.reopen(); w.check("after the final reopening");
  if (src.chance(1, 4)) { std::string cp = c.scratch() + "/cp"; auto st = w.j->checkpoint(cp); c.require(st.ok(), "checkpoint failed"); Model m = w.m; w.append(); RaftJournal k(cp); std::string r = compareAll(k, m); c.require(r.empty(), "checkpoint: " + r); c.label("with checkpoint"); }
  c.label(w.trimmed ? "trimmed" : "not trimmed"); c.label(w.removed ? "suffix removed" : "no suffix removed");
  c.nontrivial((w.removed || w.trimmed || w.reopened > 1) && w.refused);
}
VF_PROP(R01, racing_appends, 500, 16000, vf::kConcurrent) {
  World w(src, c); unsigned n = (unsigned) src.range(2, 4), per = (unsigned) src.range(5, 25); std::vector<std::vector<std::pair<LogIndex, Args>>> acc(n); std::vector<std::thread> th; std::atomic<unsigned> ready{0};
  for (unsigned t = 0; t < n; t++) th.emplace_back([&, t] { ready++; while (ready < n) {} for (unsigned k = 0; k < per; k++) { LogIndex at = w.j->getLogSize(); Args a = {"SET", std::to_string(t), std::to_string(k)}; if (w.j->append(at, makeEntry(0, a))) acc[t].push_back({at, a}); } });
  for (auto &t : th) t.join();
  size_t total = 0; for (auto &v : acc) for (auto &[i, a] : v) { total++; c.require(w.m.log.emplace(i, ModelEntry{0, a}).second, "two appends at index " + std::to_string(i) + " both succeeded"); }
  c.equal(w.j->getLogSize(), w.m.start + 1 + (LogIndex) total, "log size after racing appends"); w.check("after racing appends"); w.reopen(); w.check("after reopening"); c.nontrivial(total > n);
}
VF_PROP(R01, waiters_wake, 250, 4000, vf::kConcurrent) {
  // threads waiting for the log to grow or for commits are woken by every change
  World w(src, c); unsigned n = (unsigned) src.range(5, 60); LogIndex last = w.m.start + n; std::atomic<bool> bad{false};
  std::thread a([&] { LogIndex seen = w.m.start; while (seen < last) { w.j->waitForCommits(seen); LogIndex now = w.j->getCommitIndex(); if (now < seen) bad = true; seen = now; } });
  std::thread b([&] { LogIndex seen = w.m.start + 1; while (seen <= last) { w.j->waitForUpdates(seen, std::chrono::milliseconds(20)); LogIndex now = w.j->getLogSize(); if (now < seen) bad = true; seen = now; } });
  for (unsigned i = 1; i <= n; i++) { w.j->append(w.m.start + i, makeEntry(0, {"SET", "a", "b"})); w.j->setCommitIndex(w.m.start + i); }
  a.join(); b.join(); c.require(!bad, "log size or commit index went backwards"); c.equal(w.j->getCommitIndex(), last, "commit index"); c.nontrivial();
  // with nothing new to see a waiter sleeps (now and then it may wake early, but not always)
  int slept = 0; for (int i = 0; i < 5 && !slept; i++) { auto t0 = std::chrono::steady_clock::now(); w.j->waitForUpdates(w.j->getLogSize(), std::chrono::milliseconds(3)); slept += std::chrono::steady_clock::now() - t0 >= std::chrono::milliseconds(3); }
  c.require(slept, "waiting for updates never waits although there are none"); auto t0 = std::chrono::steady_clock::now(); w.j->waitForUpdates(w.j->getLogSize() - 1, std::chrono::milliseconds(20000)); c.require(std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(15000), "waiting for updates which are already there");
}

// ------------------------------------------------------------------------------------------------ R02
VF_RULE(R02, "A history of journal operations, then a crash: the write-ahead log is cut at a generated byte offset, at or after what the code had synced (machine crash) or at or after the last completed operation (process kill). Non-trivial: the cut removes at least one byte and the history has an acknowledged durable operation.");
static void crashCase(vf::Source &src, vf::Case &c, bool machine) {
  World w(src, c); w.done(w.m.policy != FsyncPolicy::kAsync);
  auto activeLog = [&] { std::string best; for (auto &e : fs::directory_iterator(w.dir)) { std::string p = e.path().string(); if (p.size() > 4 && p.substr(p.size() - 4) == ".log" && (best.empty() || p > best)) best = p; } return best; };
  // creating a journal is not atomic: only what follows counts. Close it once so that creation is in a table file.
  w.reopen(); w.durable = 0; w.history.clear(); w.done(true); size_t steps = 0; std::vector<int64_t> sizes = {(int64_t) fs::file_size(activeLog())};
  while (src.more(14) && steps++ < 50) {
    VF_SPAN(src);
    switch (src.weighted({30, 8, 5, 4, 12, 2, 2, 4, 3, 1})) {
      case 0: w.append(); break; case 1: w.commit(); break; case 2: w.remove(); break; case 3: w.trim(); break; case 4: w.setTerm(); break; case 5: w.policy(); break; case 6: w.marker(); break; case 7: w.membership(); break; case 8: w.membershipEntry(); break;
      default: if (w.reopened >= 3) break;   // a fourth table file would start a background compaction, and the copy below is not atomic
        w.reopen(); w.history.clear(); w.durable = 0; w.done(true); sizes.clear();
    }
    int64_t sz = (int64_t) fs::file_size(activeLog()); while (sizes.size() < w.history.size()) sizes.push_back(sz);
  }
  std::string log = activeLog(); int64_t full = (int64_t) fs::file_size(log), synced = 0; { std::scoped_lock lock(gSyncMutex); auto it = gSynced.find(log); if (it != gSynced.end()) synced = it->second; }
  // never recorded as synced: rocksdb syncs the (empty) log when creating it
  size_t must; int64_t floorBytes; std::string what;
  if (machine) { floorBytes = std::min(synced, full); must = w.durable; what = "machine crash"; }
  else { size_t k = src.draw(w.history.size()); floorBytes = sizes[k]; must = k; what = "process killed after operation " + std::to_string(k); }
  int64_t cut = src.flip() ? floorBytes : src.range(floorBytes, full); c.note(what + ", log of " + std::to_string(full) + " bytes (synced " + std::to_string(synced) + ") cut at " + std::to_string(cut) + ", must hold operations up to " + std::to_string(must) + " of " + std::to_string(w.history.size() - 1));
  std::string copy = c.scratch() + "/crashed"; fs::create_directory(copy);
  for (auto &e : fs::directory_iterator(w.dir)) { std::string n = e.path().filename().string(); if (n == "LOCK" || n.compare(0, 3, "LOG") == 0 && n.find(".log") == n.npos && n.size() <= 3) continue; fs::copy_file(e.path(), copy + "/" + n); }
  std::string cutLog = copy + "/" + fs::path(log).filename().string(); if (truncate(cutLog.c_str(), cut) != 0) c.fail("truncate failed");
  w.j.reset();
  std::unique_ptr<RaftJournal> r; try { r.reset(new RaftJournal(copy)); } catch (FatalException &e) { c.fail(std::string("the journal cannot be opened after the crash: ") + e.what()); }
  std::string firstDiff; bool found = false;
  for (size_t k = w.history.size(); k-- > 0 && !found;) { std::string d = compareAll(*r, w.history[k]); if (d.empty()) { found = true; if (k < must) c.fail("after the crash the journal is back to the state after operation " + std::to_string(k) + ", losing acknowledged operations up to " + std::to_string(must)); } else if (k == must) firstDiff = d; }
  if (!found) c.fail("after the crash the journal is in a state that never existed (compared with the last acknowledged one: " + firstDiff + ")");
  // and it keeps working
  LogIndex at = r->getLogSize(); c.require(r->append(at, makeEntry(r->getCurrentTerm(), {"SET", "x", "y"})), "append after recovery refused"); r.reset(); RaftJournal again(copy); c.equal(again.getLogSize(), at + 1, "log size after recovery, append and reopening");
  { std::scoped_lock lock(gSyncMutex); gSynced.clear(); }
  c.label(cut < full ? "cut" : "nothing lost"); c.label(fsyncPolicyToString(w.m.policy)); c.nontrivial(cut < full && w.durable > 0);
}
VF_PROP(R02, machine_crash, 6000, 90000, vf::kNone) { crashCase(src, c, true); }
VF_PROP(R02, process_kill, 4500, 60000, vf::kNone) { crashCase(src, c, false); }
VF_PROP(R02, policy_persists, 300, 6000, vf::kNone) {
  World w(src, c); for (unsigned i = 0, n = (unsigned) src.range(1, 5); i < n; i++) { w.policy(); if (src.flip()) w.reopen(); c.equal(fsyncPolicyToString(w.j->getFsyncPolicy()), fsyncPolicyToString(w.m.policy), "fsync policy"); c.nontrivial(w.m.policy != FsyncPolicy::kSyncImportantUpdates); }
  FsyncPolicy p; std::string s = fsyncPolicyToString(w.m.policy); c.require(parseFsyncPolicy(s, p) && p == w.m.policy, "policy name does not parse back"); c.require(!parseFsyncPolicy(s + "x", p) && !parseFsyncPolicy(s.substr(1), p) && !parseFsyncPolicy("", p), "an unknown policy name is accepted");
}

// ------------------------------------------------------------------------------------------------ R03
struct StateModel { RaftTerm term = 0; RaftStatus status = RaftStatus::FOLLOWER; RaftServer leader, vote; LogIndex marker = -1; };
VF_RULE(R03, "Sequences (and concurrent schedules) of observed terms and leaders, votes, candidacies, ascensions, step-downs and restarts. Non-trivial: at least one vote or candidacy succeeded and at least one request was refused.");
VF_PROP(R03, state_model, 14000, 200000, vf::kNone) {
  std::string dir = c.scratch() + "/journal"; std::vector<RaftServer> nodes; unsigned n = (unsigned) src.range(1, 4); for (unsigned i = 0; i < n; i++) nodes.push_back(srv(i)); RaftServer me = src.chance(1, 8) ? srv(6) : nodes[0]; bool voter = me == nodes[0];
  std::unique_ptr<RaftJournal> j(new RaftJournal(dir, "c", nodes, 0, FsyncPolicy::kAsync)); std::unique_ptr<RaftState> s(new RaftState(*j, me)); StateModel m; LogIndex size = 1;
  std::map<RaftTerm, std::string> votes, leaders; bool voted = false, refused = false; int restarts = 0; size_t steps = 0;
  auto verify = [&](const char *when) {
    auto p = s->getSnapshot(); std::string w = when;
    c.equal(p->term, m.term, w + "term"); c.equal(statusToString(p->status), statusToString(m.status), w + "status"); c.equal(p->leader.toString(), m.leader.toString(), w + "leader"); c.equal(p->votedFor.toString(), m.vote.toString(), w + "vote"); c.equal(p->leadershipMarker, m.marker, w + "leadership marker");
    c.require(s->isSnapshotCurrent(p.get()), "the snapshot just taken is not current"); c.equal(j->getCurrentTerm(), m.term, w + "stored term"); c.equal(j->getVotedFor().toString(), m.vote.toString(), w + "stored vote"); c.equal(j->getLogSize(), size, w + "log size");
    if (!m.vote.empty() && m.vote != RaftState::BLOCKED_VOTE) { auto r = votes.emplace(m.term, m.vote.toString()); c.require(r.first->second == m.vote.toString(), "voted twice in one term"); }
    if (!m.leader.empty()) { auto r = leaders.emplace(m.term, m.leader.toString()); c.require(r.first->second == m.leader.toString(), "two leaders in one term"); }
  };
  verify("initially: ");
  while (src.more(18) && steps++ < 70) {
    VF_SPAN(src);
    RaftTerm t = src.chance(3, 4) ? m.term : m.term + src.range(-2, 3); bool ok = false, got = false; std::string what; RaftServer who = srv(src.draw(4));
    switch (src.weighted({8, 6, 5, 5, 3, 1, 2})) {
      case 0: {
        if (src.chance(1, 3)) who = RaftServer(); if (t == m.term && src.chance(1, 4)) t++;
        // the cluster has one leader per term: after a restart the same one is announced again
        auto it = leaders.find(t); if (it != leaders.end() && m.leader.empty() && !who.empty()) { RaftServer x; parseServer(it->second, x); who = x; }
        what = "observed term " + std::to_string(t) + " leader '" + who.toString() + "'"; got = s->observed(t, who);
        if (m.status != RaftStatus::SHUTDOWN) {
          if (t > m.term) { ok = true; m.status = RaftStatus::FOLLOWER; m.marker = -1; m.term = t; m.leader = who; m.vote = who.empty() ? RaftServer() : RaftState::BLOCKED_VOTE; }
          else if (t == m.term && m.leader.empty()) { ok = true; m.leader = who; if (!who.empty() && m.vote.empty()) m.vote = RaftState::BLOCKED_VOTE; }
        }
        break;
      }
      case 1: what = "grant vote term " + std::to_string(t) + " to " + who.toString(); got = s->grantVote(t, who); ok = m.status == RaftStatus::FOLLOWER && t == m.term && m.leader.empty() && m.vote.empty(); if (ok) m.vote = who, voted = true; break;
      case 2: what = "become candidate for " + std::to_string(t); got = s->becomeCandidate(t); ok = t == m.term && m.status == RaftStatus::FOLLOWER && m.leader.empty() && m.vote.empty() && voter; if (ok) m.vote = me, m.status = RaftStatus::CANDIDATE, voted = true; break;
      case 3: what = "ascend for " + std::to_string(t); got = s->ascend(t); ok = t == m.term && m.status == RaftStatus::CANDIDATE && m.leader.empty() && m.vote == me && voter; if (ok) { m.marker = size++; m.leader = me; m.status = RaftStatus::LEADER; c.label("became leader"); } break;
      case 4: what = "drop out of " + std::to_string(t); got = s->dropOut(t); ok = t == m.term && m.status == RaftStatus::CANDIDATE; if (ok) m.status = RaftStatus::FOLLOWER; break;
      case 5: if (!src.chance(1, 4)) continue; what = "shutdown"; s->shutdown(); m.status = RaftStatus::SHUTDOWN; m.marker = -1; got = ok = true; break;
      default: what = "restart"; s.reset(); if (src.flip()) { j.reset(); j.reset(new RaftJournal(dir)); } s.reset(new RaftState(*j, me)); m.status = RaftStatus::FOLLOWER; m.leader.clear(); m.marker = -1; restarts++; got = ok = true;
    }
    c.note(what + (ok ? "" : " (to be refused)")); c.equal(got, ok, what + " accepted"); if (!ok) refused = true; verify((what + ": ").c_str());
  }
  if (m.status == RaftStatus::LEADER) { RaftEntry e; c.require(j->fetch(m.marker, e).ok() && e.term == m.term && e.request[0] == "JOURNAL_LEADERSHIP_MARKER", "the leadership marker is not in the log"); }
  if (restarts) c.label("with restart"); c.nontrivial(voted && refused);
}
VF_PROP(R03, concurrent, 1200, 40000, vf::kConcurrent) {
  std::string dir = c.scratch() + "/journal"; std::vector<RaftServer> nodes = {srv(0), srv(1), srv(2)}; RaftServer me = srv(0);
  std::unique_ptr<RaftJournal> j(new RaftJournal(dir, "c", nodes, 0, FsyncPolicy::kAsync)); std::unique_ptr<RaftState> s(new RaftState(*j, me));
  struct Op { int kind; RaftTerm t; RaftServer who; }; unsigned nt = (unsigned) src.range(2, 4); std::vector<std::vector<Op>> plans(nt); RaftTerm maxT = src.range(1, 4);
  for (auto &p : plans) for (unsigned k = (unsigned) src.range(4, 14); k; k--) p.push_back({(int) src.weighted({3, 4, 4, 4, 2}), src.range(0, maxT), src.chance(1, 3) ? RaftServer() : srv(src.range(1, 4))});
  std::mutex mu; std::map<RaftTerm, std::set<std::string>> votes; std::map<RaftTerm, std::set<std::string>> leaders; std::string bad; std::atomic<unsigned> ready{0}; size_t accepted = 0, refused = 0;
  auto see = [&](RaftTerm &last) {
    auto p = s->getSnapshot(); std::scoped_lock l(mu); if (p->term < last) bad = "the term went backwards"; last = p->term; if (!p->leader.empty()) leaders[p->term].insert(p->leader.toString()); if (!p->votedFor.empty()) votes[p->term].insert(p->votedFor.toString());
    if (p->status == RaftStatus::LEADER && (p->leader != me || p->votedFor != me || p->leadershipMarker < 0)) bad = "an inconsistent leader snapshot was published"; if (p->status == RaftStatus::CANDIDATE && p->votedFor != me) bad = "a candidate that did not vote for itself"; if (p->status != RaftStatus::LEADER && p->leader == me) bad = "recognises itself as leader without being leader"; if (p->status != RaftStatus::LEADER && p->leadershipMarker >= 0) bad = "leadership marker without leadership";
  };
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
    ready++; while (ready < nt) {} RaftTerm last = -1;
    for (auto &op : plans[t]) {
      bool ok = false;
      switch (op.kind) { case 0: ok = s->observed(op.t, op.who); break; case 1: ok = s->grantVote(op.t, op.who.empty() ? srv(1) : op.who); if (ok) { std::scoped_lock l(mu); votes[op.t].insert((op.who.empty() ? srv(1) : op.who).toString()); } break;
        case 2: ok = s->becomeCandidate(op.t); if (ok) { std::scoped_lock l(mu); votes[op.t].insert(me.toString()); } break; case 3: ok = s->ascend(op.t); if (ok) { std::scoped_lock l(mu); leaders[op.t].insert(me.toString()); } break; default: ok = s->dropOut(op.t); }
      { std::scoped_lock l(mu); (ok ? accepted : refused)++; } see(last);
    }
  });
  for (auto &t : th) t.join(); c.require(bad.empty(), bad);
  for (auto &[t, v] : votes) c.require(v.size() <= 1, "two votes in term " + std::to_string(t) + ": " + vf::Case::show(v)); for (auto &[t, v] : leaders) c.require(v.size() <= 1, "two leaders in term " + std::to_string(t) + ": " + vf::Case::show(v));
  auto p = s->getSnapshot(); c.equal(j->getCurrentTerm(), p->term, "stored term"); c.equal(j->getVotedFor().toString(), p->votedFor.toString(), "stored vote");
  RaftTerm term = p->term; std::string vote = p->votedFor.toString(); s.reset(); j.reset(); RaftJournal k(dir); RaftState r(k, me); c.equal(r.getSnapshot()->term, term, "term after restart"); c.equal(r.getSnapshot()->votedFor.toString(), vote, "vote after restart"); c.nontrivial(accepted && refused);
}

// ------------------------------------------------------------------------------------------------ R04
VF_RULE(R04, "Sequences of membership changes (by command and by replication), commits, log removals, trims and restarts. Non-trivial: at least one change took effect and one was refused or rolled back.");
VF_PROP(R04, membership_model, 8000, 170000, vf::kNone) {
  World w(src, c); size_t steps = 0; if (src.flip()) { w.m.term = 3; w.j->setCurrentTerm(3, RaftServer()); w.m.vote = RaftServer(); }
  while (src.more(18) && steps++ < 60) {
    VF_SPAN(src);
    switch (src.weighted({20, 6, 8, 4, 8, 2, 2, 2})) {
      case 0: w.membership(); break; case 1: w.membershipEntry(); break; case 2: { c.note("commit all"); w.m.commit = w.m.size() - 1; w.j->setCommitIndex(w.m.commit); break; } case 3: w.commit(); break; case 4: w.remove(); break; case 5: w.trim(); break; case 6: w.append(); break; default: w.reopen();
    }
    w.check("membership");
    RaftMembership mem = w.j->getMembership(); std::set<RaftServer> all(mem.nodes.begin(), mem.nodes.end()); all.insert(mem.observers.begin(), mem.observers.end()); c.equal(all.size(), mem.nodes.size() + mem.observers.size(), "distinct members");
    for (auto &s : all) c.require(mem.contains(s), "membership does not contain a member"); c.require(!mem.contains(RaftServer("nobody", 1)), "membership contains a stranger");
  }
  w.reopen(); w.check("after reopening"); if (w.rolledBack) c.label("rolled back"); c.nontrivial(w.memberOps && (w.refused || w.rolledBack));
}
VF_PROP(R04, serialization, 60000, 1500000, vf::kNone) {
  RaftMembers m(genServers(src, 1, 4), {}); unsigned k = (unsigned) src.draw(4); for (unsigned i = 0; i < k; i++) m.observers.emplace_back("o" + src.over("abc.-1", 6), (int) src.range(0, 65535) + (int) i * 65536); if (!checkUnique(m.observers)) c.discard();
  RaftMembers back; c.require(back.parse(m.toString()) && back == m, "membership " + m.toString() + " does not read back"); c.equal(m.toString(), membersToString({m.nodes, m.observers}), "serialized membership");
  std::string s = m.toString(); size_t pos = src.draw(s.size()); if (src.flip()) s.erase(pos, 1 + src.draw(3)); else s.insert(pos, 1, "|,:x-1"[src.draw(6)]); c.note("mutated " + quote(s));
  RaftMembers other; if (other.parse(Exact(s).view())) { RaftMembers third; c.require(!other.nodes.empty() && checkUnique(other.nodes) && checkUnique(other.observers), "accepted a membership with duplicates or no nodes: " + quote(s)); bool unnamed = false; for (auto &x : other.nodes) unnamed |= x.empty(); for (auto &x : other.observers) unnamed |= x.empty(); if (!unnamed) c.require(third.parse(other.toString()) && third == other, "an accepted membership does not read back: " + quote(s)); c.label("mutation accepted"); } else c.label("mutation refused");
  c.nontrivial(k > 0);
}
VF_PROP(R04, concurrent_changes, 700, 20000, vf::kConcurrent) {
  // changes issued from several connections while entries are being committed: every acknowledged one is in the membership
  World w(src, c); unsigned nt = (unsigned) src.range(2, 3), per = (unsigned) src.range(2, 6); std::vector<std::vector<RaftServer>> added(nt); std::atomic<unsigned> ready{0}, running{nt}; std::vector<std::thread> th; std::atomic<size_t> refused{0};
  for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] { ready++; while (ready < nt) {} for (unsigned k = 0; k < per; k++) { RaftServer s("new" + std::to_string(t), (int) k); std::string err; bool ok = false; for (int tries = 0; tries < 40 && !ok; tries++) { ok = w.j->addObserver(0, s, err); if (!ok) refused++; } if (ok) added[t].push_back(s); } running--; });
  std::thread committer([&] { while (running) w.j->setCommitIndex(w.j->getLogSize() - 1); }); for (auto &t : th) t.join(); committer.join();
  RaftMembership mem = w.j->getMembership(); size_t total = 0; for (auto &v : added) for (auto &s : v) { total++; c.require(contains(mem.observers, s), "an acknowledged observer " + s.toString() + " is not in the membership " + serversToString(mem.observers)); } c.equal(mem.observers.size(), total, "number of observers"); c.nontrivial(total > 2 && refused > 0);
}

// ------------------------------------------------------------------------------------------------ R05
VF_RULE(R05, "Random timeout ranges, heartbeat histories with explicit time points, and timeout strings. Non-trivial: a non-degenerate range, or a history with a heartbeat and a timeout query around the threshold.");
VF_PROP(R05, random_in_range, 3000, 60000, vf::kNone) {
  int64_t low = src.range(0, src.flip() ? 20 : 100000), high = low + src.range(0, src.flip() ? 5 : 100000); RaftTimeouts t(milliseconds(low), milliseconds(high), milliseconds(5)); c.note("range " + std::to_string(low) + ".." + std::to_string(high)); std::set<int64_t> seen;
  for (int i = 0; i < 60; i++) { int64_t v = t.getRandom().count(); c.require(v >= low && v <= high, "random timeout " + std::to_string(v) + " is outside the range"); seen.insert(v); }
  RaftHeartbeatTracker tr(t); for (int i = 0; i < 10; i++) { int64_t v = tr.refreshRandomTimeout().count(); c.require(v >= low && v <= high, "tracker timeout outside the range"); c.equal(tr.getRandomTimeout().count(), v, "timeout in use"); seen.insert(v); } c.require(tr.getTimeouts() == t, "timeouts");
  if (high - low >= 4) c.require(seen.size() > 1, "70 random timeouts from " + std::to_string(high - low + 1) + " values are all the same"); c.nontrivial(high > low);
}
VF_PROP(R05, heartbeat_history, 60000, 1500000, vf::kNone) {
  using TP = std::chrono::steady_clock::time_point; int64_t low = src.range(1, 50), high = low + src.range(0, 50); RaftHeartbeatTracker tr(RaftTimeouts(milliseconds(low), milliseconds(high), milliseconds(1)));
  int64_t last = 0, now = src.range(200, 400); bool artificial = false, hb = false, q = false; auto at = [](int64_t us) { return TP(std::chrono::microseconds(us)); }; now *= 1000;
  while (src.more(20)) {
    VF_SPAN(src);
    switch (src.draw(5)) {
      case 0: now += src.range(0, 60000); break;
      case 1: { int64_t t = now - (src.chance(1, 4) ? src.range(0, 100000) : 0); tr.heartbeat(at(t)); c.note("heartbeat at " + std::to_string(t)); last = std::max(last, t); hb = true; c.require(tr.getLastHeartbeat() == at(last), "last heartbeat recorded"); break; }
      case 2: { if (src.chance(1, 8)) { now = std::max<int64_t>(0, last - src.range(0, 50000)); c.label("asked about a time before the last heartbeat"); } else if (src.flip()) now = std::max<int64_t>(0, last + tr.getRandomTimeout().count() * 1000 + src.range(-1, 1)); auto st = tr.timeout(at(now)); bool want = now - last > tr.getRandomTimeout().count() * 1000; q = true; c.note("timeout at " + std::to_string(now) + "?"); if (artificial) { c.require(st == TimeoutStatus::kArtificial, "requested timeout did not happen"); artificial = false; } else c.equal((int) st, (int) (want ? TimeoutStatus::kYes : TimeoutStatus::kNo), "timed out " + std::to_string(now - last) + " us after the heartbeat with a timeout of " + std::to_string(tr.getRandomTimeout().count()) + " ms"); break; }
      case 3: { int64_t v = tr.refreshRandomTimeout().count(); c.require(v >= low && v <= high, "timeout outside the range"); break; }
      default: if (src.chance(1, 6)) { tr.triggerTimeout(); artificial = true; }
    }
  }
  c.nontrivial(hb && q);
}
VF_PROP(R05, strings, 100000, 2500000, vf::kNone) {
  int64_t low = src.range(0, 2000), high = low + src.range(0, 2000), hb = src.range(0, 500); RaftTimeouts t{milliseconds(low), milliseconds(high), milliseconds(hb)}, back{milliseconds(1), milliseconds(2), milliseconds(3)}; c.equal(t.toString(), std::to_string(low) + ":" + std::to_string(high) + ":" + std::to_string(hb), "written timeouts"); c.require(RaftTimeouts::fromString(back, t.toString()) && back == t, "timeouts do not read back");
  std::string s = t.toString(); switch (src.draw(5)) { case 0: s.erase(src.draw(s.size()), 1); break; case 1: s.insert(src.draw(s.size() + 1), 1, ":x 9-"[src.draw(5)]); break; case 2: s = std::to_string(high) + ":" + std::to_string(low) + ":" + std::to_string(hb); break; case 3: s += ":" + std::to_string(hb); break; default: s = src.over("0123456789:", 12); }
  // reference: three non-negative plain decimal numbers, low <= high
  std::vector<int64_t> parts; bool plain = true; { std::string cur; for (char ch : s + ":") { if (ch == ':') { if (cur.empty() || cur.size() > 9) plain = false; parts.push_back(plain ? atoll(cur.c_str()) : -1); cur.clear(); } else { if (ch < '0' || ch > '9') plain = false; cur += ch; } } }
  bool valid = plain && parts.size() == 3 && parts[0] <= parts[1]; RaftTimeouts r{milliseconds(1), milliseconds(2), milliseconds(3)}; bool got = RaftTimeouts::fromString(r, s); c.note("parse " + quote(s));
  if (valid) c.require(got && r.getLow().count() == parts[0] && r.getHigh().count() == parts[1] && r.getHeartbeatInterval().count() == parts[2], "a valid timeout string is refused or misread: " + quote(s));
  else { if (got) { bool blank = s.find_first_of(" \t+-") != s.npos; int64_t l = r.getLow().count(), h = r.getHigh().count(); c.require(l >= 0 && l <= h && r.getHeartbeatInterval().count() >= 0 && blank, "malformed or inverted timeouts are accepted: " + quote(s)); } else c.require(r == RaftTimeouts(milliseconds(1), milliseconds(2), milliseconds(3)), "refused timeouts changed the settings"); }
  c.label(valid ? "valid" : "invalid"); c.nontrivial();
}
