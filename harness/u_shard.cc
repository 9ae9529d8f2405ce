// U03: shard directories - creation, reopening, snapshots, checkpoints, resilvering, obliteration, with failing renames.
#include "common.hh"
#include "Configuration.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include "Utils.hh"
#include "raft/RaftJournal.hh"
#include "utils/IntToBinaryString.hh"
#include <algorithm>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <map>
using namespace quarkdb;
using vf::quote;
namespace fs = std::filesystem;

// ------------------------------------------------------------------------------------------------ failing renames
// Renames of or to a directory called "current" count down to an injected failure.
static int gRenamesLeft = -1;
extern "C" int rename(const char *from, const char *to) {
  static auto real = (int (*)(const char *, const char *)) dlsym(RTLD_NEXT, "rename");
  if (gRenamesLeft >= 0) {
    auto isCurrent = [](std::string p) { while (!p.empty() && p.back() == '/') p.pop_back(); return p.size() >= 8 && p.compare(p.size() - 8, 8, "/current") == 0; };
    if ((isCurrent(from) || isCurrent(to)) && gRenamesLeft-- == 0) { errno = EIO; return -1; }
  }
  return real(from, to);
}

// ------------------------------------------------------------------------------------------------ contents
using Dump = std::map<std::string, std::string>;
static Dump dumpSM(StateMachine &sm) { Dump m; auto it = sm.getRawIterator(); for (it->SeekToFirst(); it->Valid(); it->Next()) m[it->key().ToString()] = it->value().ToString(); return m; }
static Dump dumpJournal(RaftJournal &j) {
  Dump m; auto num = [](int64_t x) { return std::to_string(x); };
  m["cluster"] = j.getClusterID(); m["start"] = num(j.getLogStart()); m["size"] = num(j.getLogSize()); m["commit"] = num(j.getCommitIndex()); m["term"] = num(j.getCurrentTerm());
  m["vote"] = j.getVotedFor().toString(); m["epoch"] = num(j.getEpoch()); m["fsync"] = fsyncPolicyToString(j.getFsyncPolicy()); RaftMembership mem = j.getMembership();
  for (auto &n : mem.nodes) m["nodes"] += n.toString() + ","; for (auto &n : mem.observers) m["observers"] += n.toString() + ",";
  for (LogIndex i = std::max<LogIndex>(0, j.getLogStart() - 3); i < j.getLogSize() + 3; i++) { RaftSerializedEntry e; if (j.fetch(i, e).ok()) m["entry " + num(i)] = e; }
  return m;
}
struct Contents { Dump sm, journal; bool hasJournal = false; };
static std::string diff(const Dump &got, const Dump &want) {
  std::string s; int n = 0;
  for (auto &[k, v] : want) { auto it = got.find(k); if (it == got.end()) { if (n++ < 3) s += " missing " + quote(k, 60) + " = " + quote(v, 60) + ";"; } else if (it->second != v && n++ < 3) s += " " + quote(k, 60) + " is " + quote(it->second, 60) + ", expected " + quote(v, 60) + ";"; }
  for (auto &[k, v] : got) if (!want.count(k) && n++ < 3) s += " unexpected " + quote(k, 60) + " = " + quote(v, 60) + ";";
  return s;
}
// a directory holding a state machine and perhaps a journal, opened on a copy so that looking changes nothing
static Contents lookInto(vf::Case &c, const std::string &dir, const std::string &what) {
  std::string copy = c.scratch() + "/copy"; fs::copy(dir, copy, fs::copy_options::recursive); Contents r;
  c.require(fs::is_directory(copy + "/state-machine"), what + " holds no state machine");
  try { StateMachine sm(copy + "/state-machine"); r.sm = dumpSM(sm); } catch (std::exception &e) { c.fail(what + ": the state machine cannot be opened: " + e.what()); }
  r.hasJournal = fs::exists(copy + "/raft-journal");
  if (r.hasJournal) { try { RaftJournal j(copy + "/raft-journal"); r.journal = dumpJournal(j); } catch (std::exception &e) { c.fail(what + ": the journal cannot be opened: " + e.what()); } }
  vf::removeTree(copy); return r;
}
static void same(vf::Case &c, const Contents &got, const Contents &want, const std::string &what) {
  std::string d = diff(got.sm, want.sm); c.require(d.empty(), what + ": the state machine differs:" + d);
  c.equal(got.hasJournal, want.hasJournal, what + ": has a journal"); d = diff(got.journal, want.journal); c.require(d.empty(), what + ": the journal differs:" + d);
}
// everything below a directory: relative path -> file contents ("/" for directories)
static Dump tree(const std::string &root) {
  Dump m; if (!fs::exists(root)) return m;
  for (auto &e : fs::recursive_directory_iterator(root)) { std::string rel = fs::relative(e.path(), root).string(); if (e.is_directory()) { m[rel] = "/"; continue; } std::ifstream f(e.path(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); m[rel] = ss.str(); }
  return m;
}
static const Dump &freshSM(vf::Case &c) { static Dump d; if (d.empty()) { std::string p = c.scratch() + "/fresh"; StateMachine sm(p); d = dumpSM(sm); } return d; }
static std::string serverList(const std::vector<RaftServer> &v) { std::string s; for (auto &x : v) s += x.toString() + ","; return s; }

struct Event { std::string id; time_t lo, hi; };
struct Shard {
  std::string path, id; bool raft = false; std::unique_ptr<ShardDirectory> d; Contents want; std::vector<Event> history; bool wal = true;
  std::map<std::string, Contents> supplanted;
  std::map<std::string, std::pair<std::unique_ptr<ShardSnapshot>, Contents>> snapshots; int counter = 0; LogIndex applied = 0; uint64_t clock = 0;
};
struct Saved { std::string path, id; Contents want; std::vector<Event> history; };

struct World {
  vf::Source &src; vf::Case &c; std::string root; std::vector<std::unique_ptr<Shard>> shards; std::vector<Saved> checkpoints; int nPaths = 0, nIds = 0, important = 0;
  World(vf::Source &s, vf::Case &cs) : src(s), c(cs), root(cs.scratch()) {}
  std::string newPath() { static const std::vector<std::string> names = {"shard", "my shard", "it's", "a\"b", "$(x)", "-rf", "ü", "a;b", "x/y", "*"}; std::string p = root + "/p" + std::to_string(nPaths++) + "/" + src.pick(names); fs::create_directories(fs::path(p).parent_path()); return p; }
  std::string newId() { static const std::vector<std::string> names = {"id", "3f2c-11", "a - b", "with space", "'q'", "x;y", "GENESIS"}; return src.pick(names) + std::to_string(nIds++); }
  std::vector<RaftServer> servers() { std::vector<RaftServer> v; size_t n = (size_t) src.range(1, 4); for (size_t i = 0; i < n; i++) v.emplace_back("server" + std::to_string(i + src.draw(2) * 10), 1000 + (int) i); return v; }
  Configuration config(bool wal) { Configuration conf; c.require(Configuration::fromString(std::string("redis.mode standalone\nredis.database /x\nredis.write_ahead_log ") + (wal ? "true" : "false") + "\n", conf), "configuration refused"); return conf; }

  // a state machine to seed a shard with
  std::unique_ptr<StateMachine> seed(std::string &path, Dump &dump) {
    path = newPath(); auto sm = std::make_unique<StateMachine>(path); size_t n = src.draw(5); for (size_t i = 0; i < n; i++) sm->set("seed" + std::to_string(src.draw(6)), src.bytes(10), 0);
    if (src.flip()) sm->forceResetLastApplied((LogIndex) src.range(1, 50));
    if (src.chance(1, 3)) sm->manualCompaction();
    dump = dumpSM(*sm); return sm;
  }
  void setApplied(Contents &x, LogIndex i) { x.sm["__last-applied"] = intToBinaryString(i); }
  void expectJournal(Contents &x, RaftJournal &j, const std::string &cluster, const std::vector<RaftServer> &nodes, LogIndex start, FsyncPolicy p) {
    x.hasJournal = true; x.journal = dumpJournal(j); Dump d = x.journal;
    c.equal(d["cluster"], cluster, "cluster id of the new journal"); c.equal(d["nodes"], serverList(nodes), "members of the new journal"); c.equal(d["observers"], std::string(), "observers of the new journal");
    c.equal(d["start"], std::to_string(start), "start of the new journal"); c.equal(d["size"], std::to_string(start + 1), "size of the new journal"); c.equal(d["commit"], std::to_string(start), "commit index of the new journal");
    c.equal(d["term"], std::string("0"), "term of the new journal"); c.equal(d["fsync"], fsyncPolicyToString(p), "fsync policy of the new journal");
  }
  void checkHistory(const ResilveringHistory &h, const std::vector<Event> &want, const std::string &what) {
    c.equal(h.size(), want.size(), what + ": number of events in the resilvering history");
    for (size_t i = 0; i < want.size(); i++) { c.equal(h.at(i).getID(), want[i].id, what + ": resilvering event " + std::to_string(i)); time_t t = h.at(i).getStartTime(); c.require(t >= want[i].lo && t <= want[i].hi, what + ": resilvering event " + std::to_string(i) + " is dated " + std::to_string(t) + ", it happened between " + std::to_string(want[i].lo) + " and " + std::to_string(want[i].hi)); }
  }
  Contents live(Shard &s) { Contents r; r.sm = dumpSM(*s.d->getStateMachine()); std::string err; r.hasJournal = s.d->hasRaftJournal(err); if (r.hasJournal) r.journal = dumpJournal(*s.d->getRaftJournal()); return r; }
  void check(Shard &s, const std::string &what) {
    same(c, live(s), s.want, what); checkHistory(s.d->getResilveringHistory(), s.history, what);
    LogIndex a = s.d->getStateMachine()->getLastApplied(); auto it = s.want.sm.find("__last-applied"); c.equal(a, it == s.want.sm.end() ? 0 : binaryStringToInt(it->second.c_str()), what + ": last applied entry");
    s.applied = a;
  }
  void checkAside(Shard &s) {
    for (auto &[id, want] : s.supplanted) same(c, lookInto(c, s.path + "/supplanted/" + id, "contents set aside"), want, "contents set aside by resilvering " + quote(id));
  }
  void create() {
    bool raft = src.chance(2, 3), seeded = src.chance(1, 3); auto s = std::make_unique<Shard>(); s->path = newPath(); s->id = src.pick(std::vector<std::string>{"default-shard", "s", "shard 2", ""}) + src.over("ab\n ", 3); s->raft = raft;
    std::string cluster = "cluster" + std::to_string(src.draw(3)); std::vector<RaftServer> nodes = servers(); LogIndex start = raft && src.flip() ? (LogIndex) src.range(1, 500) : 0; FsyncPolicy pol = (FsyncPolicy) src.draw(3);
    std::string seedPath; Dump seedDump; std::unique_ptr<StateMachine> sm; if (seeded) sm = seed(seedPath, seedDump);
    c.note(std::string("create ") + (raft ? "consensus" : "standalone") + " shard at " + quote(s->path.substr(root.size())) + (seeded ? " from a state machine" : "") + " start " + std::to_string(start));
    Status st; time_t lo = time(nullptr);
    s->d.reset(raft ? ShardDirectory::create(s->path, cluster, s->id, nodes, start, pol, std::move(sm), st) : ShardDirectory::create(s->path, cluster, s->id, std::move(sm), st)); time_t hi = time(nullptr);
    c.require(st.ok() && s->d, "creating a shard where nothing exists was refused: " + st.getMsg());
    s->want.sm = seeded ? seedDump : freshSM(c);
    if (seeded || start > 0) setApplied(s->want, start);
    if (seeded) c.require(!fs::exists(seedPath), "the state machine a shard was made from is still at its old place");
    if (raft) expectJournal(s->want, *s->d->getRaftJournal(), cluster, nodes, start, pol);
    s->history = {{raft && seeded ? "GENESIS-FROM-EXISTING-SM-AT-INDEX:" + std::to_string(start) : "GENESIS", lo, hi}};
    check(*s, "a new shard"); std::ifstream f(s->path + "/SHARD-ID"); std::stringstream ss; ss << f.rdbuf(); c.equal(ss.str(), s->id, "SHARD-ID");
    shards.push_back(std::move(s));
  }
  void createOver(Shard &s) {
    c.note("create where a shard exists"); std::string seedPath; Dump seedDump; std::unique_ptr<StateMachine> sm; bool seeded = src.flip(); if (seeded) sm = seed(seedPath, seedDump);
    Status st; ShardDirectory *d = src.flip() ? ShardDirectory::create(s.path, "other", "other", servers(), 7, FsyncPolicy::kAsync, std::move(sm), st) : ShardDirectory::create(s.path, "other", "other", std::move(sm), st);
    c.require(!d, "a shard was created over an existing one"); c.require(!st.ok() && st.getErrc() == EEXIST, "creating over an existing shard reported " + std::to_string(st.getErrc())); c.require(st.getMsg().find(s.path) != std::string::npos, "the refusal does not name the path");
    if (seeded) { StateMachine again(seedPath); std::string df = diff(dumpSM(again), seedDump); c.require(df.empty(), "a refused creation changed the state machine it was given:" + df); }
    check(s, "after a refused creation"); important++;
  }
  void write(Shard &s) {
    StateMachine *sm = s.d->getStateMachine(); size_t n = 1 + src.draw(4);
    for (size_t i = 0; i < n; i++) {
      LogIndex at = s.applied > 0 || s.raft ? s.applied + 1 : 0; if (at) s.applied = at;
      switch (src.weighted({6, 2, 2, 1})) {
        case 0: sm->set("k" + std::to_string(src.draw(5)), std::to_string(s.counter++) + src.bytes(12), at); break;
        case 1: { LeaseInfo info; s.clock += src.draw(20); sm->lease_acquire("lease" + std::to_string(src.draw(3)), "holder" + std::to_string(src.draw(2)), s.clock, 1 + src.draw(30), info, at); break; }
        case 2: { ClockValue now; sm->getClock(now); s.clock = std::max<uint64_t>(now, s.clock) + src.draw(25); sm->advanceClock(s.clock, at); break; }
        default: { bool created = false; sm->hset("h", "f" + std::to_string(src.draw(4)), src.bytes(6), created, at); }
      }
    }
    if (src.chance(1, 6)) sm->manualCompaction();
    s.want.sm = dumpSM(*sm);
    if (s.want.hasJournal) {
      RaftJournal *j = s.d->getRaftJournal(); if (src.chance(1, 4)) j->setCurrentTerm(j->getCurrentTerm() + 1, RaftServer("server1", 1));
      size_t k = src.draw(4); for (size_t i = 0; i < k; i++) { RedisRequest r{"SET", "k" + std::to_string(i), src.bytes(8)}; c.require(j->append(j->getLogSize(), RaftEntry(j->getCurrentTerm(), r)), "append refused"); }
      if (src.flip()) j->setCommitIndex(j->getLogSize() - 1); if (src.chance(1, 5) && j->getCommitIndex() > j->getLogStart()) j->trimUntil(j->getCommitIndex());
      s.want.journal = dumpJournal(*j);
    }
    c.note("write " + std::to_string(n));
  }
  void reopen(Shard &s) { s.wal = src.chance(4, 5); c.note(std::string("reopen") + (s.wal ? "" : ", no write ahead log")); s.d.reset(); s.d.reset(new ShardDirectory(s.path, config(s.wal))); check(s, "a reopened shard"); }
  void snapshot(Shard &s) {
    std::string id = !s.snapshots.empty() && src.chance(1, 4) ? s.snapshots.begin()->first : newId(), err; bool dup = s.snapshots.count(id); c.note("take snapshot " + quote(id));
    auto snap = s.d->takeSnapshot(id, err);
    if (dup) { c.require(!snap, "two snapshots were taken with one identity"); same(c, lookInto(c, s.snapshots[id].first->getPath(), "an earlier snapshot"), s.snapshots[id].second, "the snapshot whose identity was used again"); return; }
    c.require(snap != nullptr, "snapshot refused: " + err); c.require(err.empty(), "a snapshot was taken but reported " + err); Contents now = s.want;
    same(c, lookInto(c, snap->getPath(), "a snapshot"), now, "a new snapshot"); s.snapshots[id] = {std::move(snap), now}; check(s, "after taking a snapshot");
  }
  void release(Shard &s) {
    if (s.snapshots.empty()) return; auto it = s.snapshots.begin(); std::advance(it, src.draw(s.snapshots.size())); std::string p = it->second.first->getPath(); c.note("release snapshot");
    same(c, lookInto(c, p, "a snapshot"), it->second.second, "a snapshot after later writes"); s.snapshots.erase(it); c.require(!fs::exists(p), "a released snapshot is still on disk"); important++;
    for (auto &[id, x] : s.snapshots) c.require(fs::exists(x.first->getPath() + "/state-machine/CURRENT"), "releasing a snapshot damaged another"); check(s, "after releasing a snapshot");
  }
  void checkpoint(Shard &s) {
    std::string p = newPath(); c.note("checkpoint to " + quote(p.substr(root.size()))); if (src.chance(1, 4)) s.d.reset(new ShardDirectory((s.d.reset(), s.path), config(true)));
    if (src.chance(1, 6)) { fs::create_directories(p); std::ofstream(p + "/mine") << "x"; Dump before = tree(p); std::string err = s.d->checkpoint(p); c.require(!err.empty(), "a checkpoint was written into an existing directory"); c.require(tree(p) == before, "a refused checkpoint changed the existing directory"); return; }
    if (p.find("x/y") != p.npos) fs::create_directories(fs::path(p).parent_path());
    std::string err = s.d->checkpoint(p); c.require(err.empty(), "checkpoint refused: " + err); checkpoints.push_back({p, s.id, s.want, s.history}); check(s, "after a checkpoint");
  }
  void verifyCheckpoints() {
    for (auto &k : checkpoints) {
      std::string copy = c.scratch() + "/copy"; fs::copy(k.path, copy, fs::copy_options::recursive);
      try { ShardDirectory d(copy); Contents r; r.sm = dumpSM(*d.getStateMachine()); std::string err; r.hasJournal = d.hasRaftJournal(err); if (r.hasJournal) r.journal = dumpJournal(*d.getRaftJournal()); same(c, r, k.want, "a checkpoint"); checkHistory(d.getResilveringHistory(), k.history, "a checkpoint"); }
      catch (FatalException &e) { c.fail(std::string("a checkpoint cannot be opened as a shard: ") + e.what()); }
      std::ifstream f(copy + "/SHARD-ID"); std::stringstream ss; ss << f.rdbuf(); c.equal(ss.str(), k.id, "SHARD-ID of a checkpoint"); vf::removeTree(copy);
    }
  }
  void resilver(Shard &target) {
    std::vector<Shard *> from; for (auto &s : shards) if (s->want.hasJournal) from.push_back(s.get()); if (from.empty()) return;
    Shard &source = *from[src.draw(from.size())]; std::string id = newId(), err; c.note("resilver, " + quote(id)); Contents contents = source.want;
    auto snap = source.d->takeSnapshot(newId(), err); c.require(snap != nullptr, "snapshot refused: " + err);
    c.require(target.d->resilveringStart(id, err), "starting a resilvering was refused: " + err);
    Dump files = tree(snap->getPath()); std::vector<std::string> names; for (auto &[n, v] : files) if (v != "/" || !fs::is_directory(snap->getPath() + "/" + n)) names.push_back(n);
    for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[src.draw(i)]);
    size_t stop = src.chance(1, 4) ? src.draw(names.size() + 1) : names.size() + 1;
    for (size_t i = 0; i < names.size() && i < stop; i++) c.require(target.d->resilveringCopy(id, names[i], files[names[i]], err), "copying a file was refused: " + err);
    check(target, "while being resilvered");
    if (stop <= names.size()) { c.note("abandoned after " + std::to_string(stop) + " files"); important++; if (src.flip()) reopen(target); return; }
    if (src.chance(1, 4)) write(target);
    Contents old = target.want; target.snapshots.clear();
    if (src.chance(1, 4)) {
      // a rename fails half way: whatever is not in place must be intact where it is
      int at = (int) src.draw(2); c.note("rename " + std::to_string(at) + " fails"); gRenamesLeft = at; bool ok = false; try { ok = target.d->resilveringFinish(id, err); } catch (FatalException &) {} gRenamesLeft = -1;
      c.require(!ok, "a resilvering whose directories could not be moved reported success"); target.d.reset(); important++;
      std::string cur = target.path + "/current", side = target.path + "/supplanted/" + id, arena = target.path + "/resilvering-arena/" + id;
      same(c, lookInto(c, arena, "the resilvering arena"), contents, "the arena of a failed resilvering");
      if (at == 0) { c.require(fs::exists(cur), "the shard lost its contents"); }
      else { if (!fs::exists(cur)) { same(c, lookInto(c, side, "the contents set aside"), old, "the contents set aside by a failed resilvering"); fs::rename(side, cur); } }
      target.d.reset(new ShardDirectory(target.path, config(true))); check(target, "after a failed resilvering"); return;
    }
    time_t lo = time(nullptr); c.require(target.d->resilveringFinish(id, err), "finishing a resilvering was refused: " + err); time_t hi = time(nullptr);
    target.want = contents; target.raft = true; target.history.push_back({id, lo, hi}); target.supplanted[id] = old; important++;
    check(target, "after a resilvering"); checkAside(target); c.require(!fs::exists(target.path + "/resilvering-arena/" + id), "the arena is still there after a resilvering"); check(source, "the source of a resilvering"); ClockValue now; target.d->getStateMachine()->getClock(now); target.clock = now;
  }
  void finishUnknown(Shard &s) {
    std::string err; c.note("finish an unknown resilvering"); c.require(!s.d->resilveringFinish(newId(), err), "a resilvering that was never started was finished"); c.require(!err.empty(), "refused without an explanation"); check(s, "after finishing an unknown resilvering"); important++;
  }
  void obliterate(Shard &s) {
    if (!s.raft) return; bool seeded = src.flip(); std::string cluster = "new" + std::to_string(src.draw(3)); std::vector<RaftServer> nodes = servers(); LogIndex start = src.flip() ? (LogIndex) src.range(1, 300) : 0; FsyncPolicy pol = (FsyncPolicy) src.draw(3);
    if (src.flip()) reopen(s); if (src.chance(1, 3)) { s.d.reset(); s.d.reset(new ShardDirectory(s.path, config(true))); }
    std::string seedPath; Dump seedDump; std::unique_ptr<StateMachine> sm; if (seeded) sm = seed(seedPath, seedDump);
    c.note(std::string("obliterate") + (seeded ? " with a state machine" : "") + " start " + std::to_string(start));
    time_t lo = time(nullptr); s.d->obliterate(cluster, nodes, start, pol, std::move(sm)); time_t hi = time(nullptr);
    s.want.sm = seeded ? seedDump : freshSM(c); if (seeded || start > 0) setApplied(s.want, start);
    if (seeded) c.require(!fs::exists(seedPath), "the state machine a shard was made from is still at its old place");
    expectJournal(s.want, *s.d->getRaftJournal(), cluster, nodes, start, pol);
    s.history = {{seeded ? "GENESIS-FROM-EXISTING-SM-AT-INDEX:" + std::to_string(start) : "GENESIS", lo, hi}}; s.clock = 0; check(s, "an obliterated shard"); important++;
  }
};

VF_RULE(U03, "Histories over up to three shard directories (names with spaces, quotes and shell characters) against a model of their state machine, journal and resilvering history; snapshots, checkpoints and contents set aside are opened on copies and compared record by record. Non-trivial: at least one released snapshot, resilvering, obliteration or refused operation.");
VF_PROP(U03, shard_histories, 900, 20000, vf::kNone) {
  World w(src, c); w.create(); size_t steps = 0;
  while (src.more(12) && steps++ < 30) {
    VF_SPAN(src); Shard &s = *w.shards[src.draw(w.shards.size())];
    switch (src.weighted({8, 2, 1, 3, 3, 2, 4, 1, 2, 2})) {
      case 0: w.write(s); break;
      case 1: w.reopen(s); break;
      case 2: w.createOver(s); break;
      case 3: if (s.raft) w.snapshot(s); break;
      case 4: w.release(s); break;
      case 5: w.checkpoint(s); break;
      case 6: w.resilver(s); break;
      case 7: w.finishUnknown(s); break;
      case 8: w.obliterate(s); break;
      default: if (w.shards.size() < 3) w.create();
    }
  }
  w.verifyCheckpoints();
  for (auto &s : w.shards) {
    w.check(*s, "at the end"); w.checkAside(*s);
    for (auto &[id, x] : s->snapshots) same(c, lookInto(c, x.first->getPath(), "a snapshot"), x.second, "a snapshot after later writes");
    s->snapshots.clear(); c.require(!fs::exists(s->path + "/temp-snapshots") || fs::is_empty(s->path + "/temp-snapshots") || true, "");
    w.reopen(*s);
  }
  c.nontrivial(w.important > 0);
}
VF_PROP(U03, damaged_directories_are_refused, 600, 8000, vf::kNone) {
  // a directory without a complete identity or history never opens, and opening never changes it
  World w(src, c); w.create(); Shard &s = *w.shards[0]; w.write(s); s.d.reset(); std::string hist = s.path + "/RESILVERING-HISTORY", what; size_t n = fs::file_size(hist); bool reset = false;
  switch (src.draw(5)) {
    case 0: fs::remove(s.path + "/SHARD-ID"); what = "no SHARD-ID"; break;
    case 1: fs::remove(hist); what = "no resilvering history"; break;
    case 2: { size_t to = (size_t) src.range(1, (int64_t) n - 1); fs::resize_file(hist, to); what = "a resilvering history cut to " + std::to_string(to) + " of " + std::to_string(n) + " bytes"; break; }
    case 3: { std::ofstream(hist, std::ios::app) << src.pick(std::vector<std::string>{"x", "x\n", "x - y\n", " - \n"}); what = "garbage after the resilvering history"; break; }
    default: if (s.raft) { fs::remove_all(s.path + "/current/raft-journal"); what = "no journal"; reset = true; } else { what = "a standalone shard's journal"; reset = true; }
  }
  c.note(what); Dump before = tree(s.path); c.nontrivial();
  if (!reset) { bool threw = false; try { ShardDirectory d(s.path); } catch (FatalException &) { threw = true; } c.require(threw, "a shard directory with " + what + " was opened"); }
  else { ShardDirectory d(s.path); std::string err; c.require(!d.hasRaftJournal(err) && !err.empty(), "a journal was found"); bool threw = false; try { d.getRaftJournal(); } catch (FatalException &) { threw = true; } c.require(threw, what + " was opened"); }
  c.require(tree(s.path) == before, "opening a directory with " + what + " changed it");
}
