// U10: the recovery editor (RECOVERY_SCAN needs an iteration mode the installed storage engine no longer has) and its dispatcher on raw databases, journals and state machines.
#include "store.hh"
#include "Connection.hh"
#include "Link.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftMembers.hh"
#include "recovery/RecoveryDispatcher.hh"
#include "recovery/RecoveryEditor.hh"
#include "storage/KeyConstants.hh"
#include <rocksdb/db.h>
using namespace quarkdb;
using vf::quote;
using Raw = std::map<std::string, std::string>;

VF_RULE(U10, "at least one entry changed through the interface");
namespace {
std::string some(vf::Source &src, size_t n) { std::string s = src.bytes(n); return s.empty() ? "x" : s; }
struct Quiet { Quiet() { Link::setConnectionLogging(false); } }; Quiet quiet;
std::unique_ptr<rocksdb::DB> openRaw(vf::Case &c, const std::string &path, bool create) { rocksdb::Options o; o.create_if_missing = create; o.disable_auto_compactions = true; rocksdb::DB *raw = nullptr; auto st = rocksdb::DB::Open(o, path, &raw); c.require(st.ok(), "cannot open the database: " + st.ToString()); return std::unique_ptr<rocksdb::DB>(raw); }
// everything a database contains, read behind the editor's back
Raw contents(vf::Case &c, const std::string &path) { auto db = openRaw(c, path, false); Raw r; std::unique_ptr<rocksdb::Iterator> it(db->NewIterator({})); for (it->SeekToFirst(); it->Valid(); it->Next()) r[it->key().ToString()] = it->value().ToString(); return r; }
void same(vf::Case &c, const Raw &got, const Raw &want, const std::string &when) {
  for (auto &[k, v] : want) { auto it = got.find(k); if (it == got.end()) c.fail(when + ": entry " + quote(k) + " is gone"); if (it->second != v) c.fail(when + ": entry " + quote(k) + " contains " + quote(it->second) + ", not " + quote(v)); }
  for (auto &[k, v] : got) if (!want.count(k)) c.fail(when + ": entry " + quote(k) + " = " + quote(v) + " appeared from nowhere");
}
const std::vector<std::string> &magic() { static const std::vector<std::string> v = {"RAFT_CURRENT_TERM", "RAFT_LOG_SIZE", "RAFT_LOG_START", "RAFT_CLUSTER_ID", "RAFT_VOTED_FOR", "RAFT_COMMIT_INDEX", "RAFT_MEMBERS", "RAFT_MEMBERSHIP_EPOCH", "RAFT_PREVIOUS_MEMBERS", "RAFT_PREVIOUS_MEMBERSHIP_EPOCH", "RAFT_FSYNC_POLICY", "__format", "__last-applied", "__in-bulkload", "__clock"}; return v; }
struct Session {
  std::string path; std::unique_ptr<RecoveryEditor> ed; std::unique_ptr<RecoveryDispatcher> disp;
  void open() { ed = std::make_unique<RecoveryEditor>(path); disp = std::make_unique<RecoveryDispatcher>(*ed); }
  void close() { disp.reset(); ed.reset(); }
  // pipelined commands over a connection, or one handed to the dispatcher directly
  std::vector<Value> wire(vf::Case &c, const std::vector<Args> &block) {
    MemLink raw; Link link(&raw); Connection conn(&link); std::string in; for (auto &a : block) { in += "*" + std::to_string(a.size()) + "\r\n"; for (auto &x : a) in += "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n"; }
    raw.feed(in); InFlightTracker tracker(true); for (int idle = 0; idle < 2;) { size_t before = raw.unread(); if (conn.processRequests(disp.get(), tracker) < 0) break; if (raw.unread() == before) idle++; } std::string out = raw.sent(); RespReader r(out); std::vector<Value> v;
    for (size_t i = 0; i < block.size(); i++) { auto x = r.read(); if (!x) c.fail("no well-formed reply to " + showArgs(block[i]) + ": " + quote(out)); v.push_back(*x); } c.require(r.atEnd(), "more replies than commands: " + quote(out)); return v;
  }
  Value ask(vf::Case &c, const Args &a, bool overWire) { bool empty = false; for (auto &x : a) empty |= x.empty(); if (overWire && !empty) return wire(c, {a})[0]; RedisRequest r = toRequest(a); auto out = disp->dispatch(r); return readOne(c, out.val, showArgs(a)); }
};
std::string spelled(vf::Source &src, std::string s) { if (src.chance(1, 3)) for (auto &ch : s) ch = ch == '_' && src.flip() ? '-' : (char) tolower(ch); return s; }
}

VF_PROP(U10, editing, 2500, 60000, vf::kNone) {
  Session s; s.path = c.scratch() + "/db"; int what = (int) src.weighted({4, 2, 2}); Raw model;
  std::vector<std::string> keys = {"a", "b", "aa", "k\xff", std::string("n\0n", 3), "next:a", "0", "zz", " ", "E", "e:x"}; for (auto &m : magic()) if (src.chance(1, 4)) keys.push_back(m); size_t own = src.draw(4); for (size_t i = 0; i < own; i++) keys.push_back(some(src, 12)); if (src.chance(1, 6)) keys.push_back("");
  auto value = [&] { return src.chance(1, 8) ? be8(src.draw(100)) : src.chance(1, 20) ? src.bytes(5000) : src.bytes(20); };
  std::vector<RaftServer> members; std::vector<RaftEntry> log;
  if (what == 0) {
    c.note("plain database"); { auto db = openRaw(c, s.path, true); size_t n = src.draw(60); for (size_t i = 0; i < n; i++) { std::string k = src.pick(keys); if (src.chance(1, 4)) { db->Delete({}, k); model.erase(k); } else { std::string v = value(); db->Put({}, k, v); model[k] = v; } if (src.chance(1, 15)) db->Flush({}); if (src.chance(1, 25)) { c.note("compacted"); db->CompactRange({}, nullptr, nullptr); } } }
    same(c, contents(c, s.path), model, "freshly written");
  } else if (what == 1) {
    size_t n = 1 + src.draw(4); for (size_t i = 0; i < n; i++) members.emplace_back("host" + std::to_string(i), 100 + (int) i); c.note("journal of " + std::to_string(n) + " members");
    RaftJournal::ObliterateAndReinitializeJournal(s.path, "old-cluster", members, 0, FsyncPolicy::kAsync); RaftJournal j(s.path); size_t entries = src.draw(8); RaftTerm term = 0; log.emplace_back(RaftEntry()); j.fetch(0, log[0]);
    for (size_t i = 1; i <= entries; i++) { if (src.chance(1, 3)) { term += 1 + (RaftTerm) src.draw(3); c.require(j.setCurrentTerm(term, src.flip() ? members[0] : RaftServer()), "term"); } RaftEntry e(term, "SET", src.bytes(6), value()); c.require(j.append((LogIndex) i, e), "append"); log.push_back(e); }
    if (entries) { LogIndex upto = (LogIndex) src.draw(entries + 1); j.setCommitIndex(upto); if (src.chance(1, 3) && n > 1) { std::string err; if (upto == (LogIndex) entries && j.removeMember(term, members.back(), err)) { RaftEntry e; j.fetch(j.getLogSize() - 1, e); log.push_back(e); c.note("with a membership change under way"); } } }
  } else {
    c.note("state machine"); { StateMachine sm(s.path); size_t n = src.draw(40); LogIndex i = 0; for (size_t k = 0; k < n; k++) { std::string key = "s" + std::to_string(src.draw(6)); if (src.flip()) sm.set(key, value(), ++i); else { bool fresh; sm.hset("h" + key, some(src, 4), value(), fresh, ++i); } } sm.getRequestCounter().setReportingStatus(false); }
  }
  if (what) { model = contents(c, s.path); for (auto &kv : model) if (src.chance(1, 3)) keys.push_back(kv.first); }
  s.open(); bool changed = false; size_t step = 0;
  while (step++ < 60 && src.more(14)) { VF_SPAN(src);
    bool overWire = src.chance(1, 3); std::string k = src.pick(keys); if (k.empty()) overWire = false; 
    switch (src.weighted({5, 5, 4, 1, 2, 2, 1, 3, 1, 1})) {
      case 0: { Args a = {spelled(src, "RECOVERY_GET"), k}; Value v = s.ask(c, a, overWire); auto it = model.find(k); c.note(showArgs(a)); if (it == model.end()) c.require(v.isErr() && v.s.find("NotFound") != v.s.npos, "reading absent " + quote(k) + " gave " + v.show()); else c.equal(v, vStr(it->second), "contents of " + quote(k)); break; }
      case 1: { Args a = {spelled(src, "RECOVERY_SET"), k, value()}; if (overWire && a[2].empty()) a[2] = "x"; Value v = s.ask(c, a, overWire); c.note(showArgs(a)); c.equal(v, vStatus("OK"), "writing " + quote(k)); model[k] = a[2]; changed = true; break; }
      case 2: { Args a = {spelled(src, "RECOVERY_DEL"), k}; bool had = model.count(k); Value v = s.ask(c, a, overWire); c.note(showArgs(a)); if (had) c.equal(v, vStatus("OK"), "deleting " + quote(k)); else c.require(v.isErr() && v.s.find("key not found") != v.s.npos, "deleting absent " + quote(k) + " gave " + v.show()); model.erase(k); changed |= had; break; }
      case 3: { Value v = s.ask(c, {spelled(src, "RECOVERY_INFO")}, overWire); c.note("RECOVERY_INFO"); std::vector<std::string> want; for (auto &m : magic()) { auto it = model.find(m); if (it != model.end()) { want.push_back(m); want.push_back(it->second); } else want.push_back(m + ": NotFound: "); } c.equal(v, vStrs(want), "important values"); break; }
      case 4: { if (k.empty()) k = "zz"; Args a = {spelled(src, "RECOVERY_GET_ALL_VERSIONS"), k}; Value v = s.ask(c, a, overWire); c.note(showArgs(a)); c.require(v.t == '*' && v.v.size() % 4 == 0, "odd reply " + v.show()); int64_t last = INT64_MAX; for (size_t i = 0; i < v.v.size(); i += 4) { c.equal(v.v[i].s, "KEY: " + k, "key of a version"); c.require(v.v[i + 2].s.rfind("SEQUENCE: ", 0) == 0 && v.v[i + 3].s.rfind("TYPE: ", 0) == 0, "odd version"); int64_t seq = atoll(v.v[i + 2].s.c_str() + 10); c.require(seq < last, "versions out of order"); last = seq; }
        auto it = model.find(k); if (it != model.end()) { c.require(v.v.size() >= 4, "no version of existing " + quote(k)); c.equal(v.v[1].s, "VALUE: " + it->second, "newest version of " + quote(k)); c.equal(v.v[3].s, "TYPE: 1", "newest version of " + quote(k)); } else if (!v.v.empty()) c.require(v.v[3].s != "TYPE: 1", "deleted " + quote(k) + " has a live version"); break; }
      case 5: {
        static const std::vector<std::string> bad = {"", "a", "|", "|a:1", "a:1|a", "a:1,a:1|", "a:1", "a:", ":1", "a:b", "a:1,", ",a:1", "a:1,b", "a:1|b:1|c:1", "a:-1x", "a:1,b:2,c"}, good = {"n1:1|", "n1:1,n2:2|", "n1:1,n2:2,n3:3|", "n1:1|o1:2", "n1:1,n2:2|o1:3,o2:4"}; bool ok = src.chance(2, 3); std::string m = ok ? src.pick(good) : src.pick(bad), id = src.chance(1, 4) && model.count("RAFT_CLUSTER_ID") ? model["RAFT_CLUSTER_ID"] : src.pick(std::vector<std::string>{"new-cluster", "x", "old-cluster"}); if (overWire && (m.empty() || id.empty())) overWire = false;
        Args a = {spelled(src, "RECOVERY_FORCE_RECONFIGURE_JOURNAL"), m, id}; Value v = s.ask(c, a, overWire); c.note(showArgs(a)); RaftMembers parsed; bool should = ok && model.count("RAFT_CLUSTER_ID") && model["RAFT_CLUSTER_ID"] != id;
        if (!should) c.require(v.isErr(), "reconfiguring answered " + v.show()); else { c.equal(v, vStatus("OK"), "reconfiguring"); model["RAFT_CLUSTER_ID"] = id; model["RAFT_MEMBERS"] = m; model["RAFT_MEMBERSHIP_EPOCH"] = be8(0); model.erase("RAFT_PREVIOUS_MEMBERS"); model.erase("RAFT_PREVIOUS_MEMBERSHIP_EPOCH"); changed = true; } break;
      }
      case 6: { c.note("closed and opened again"); s.close(); if (src.flip()) same(c, contents(c, s.path), model, "between two sessions"); s.open(); break; }
      case 7: {   // everything else is refused
        static const std::vector<Args> other = {{"GET", "a"}, {"SET", "a", "b"}, {"DEL", "a"}, {"FLUSHALL"}, {"RAFT_INFO"}, {"KEYS", "*"}, {"MULTI"}, {"EXEC"}, {"RAFT_ATTEMPT_COUP"}, {"HSET", "a", "b", "c"}, {"QUARKDB_INFO"}, {"nonsense"}, {"RAFT_REMOVE_MEMBER", "a:1"}, {"SCAN", "0"}, {"LHSET", "a", "b", "c", "d"}, {"CONFIG_SET", "a", "b"}, {"RAFT_JOURNAL_SCAN", "0"}};
        static const std::vector<Args> odd = {{"RECOVERY_GET"}, {"RECOVERY_GET", "a", "b"}, {"RECOVERY_SET", "a"}, {"RECOVERY_SET", "a", "b", "c"}, {"RECOVERY_DEL"}, {"RECOVERY_DEL", "a", "b"}, {"RECOVERY_INFO", "a"}, {"RECOVERY_SCAN"}, {"RECOVERY_SCAN", "a"}, {"RECOVERY_SCAN", "0", "COUNT"}, {"RECOVERY_SCAN", "0", "COUNT", "0"}, {"RECOVERY_SCAN", "0", "COUNT", "-3"}, {"RECOVERY_SCAN", "0", "COUNT", "x"}, {"RECOVERY_SCAN", "0", "MATCH", "a"}, {"RECOVERY_GET_ALL_VERSIONS"}, {"RECOVERY_GET_ALL_VERSIONS", "a", "b"}, {"RECOVERY_FORCE_RECONFIGURE_JOURNAL", "a:1"}, {"RECOVERY_FORCE_RECONFIGURE_JOURNAL", "a:1", "b", "c"}};
        if (src.flip()) { Args a = src.pick(src.flip() ? other : odd); Value v = s.ask(c, a, false); c.note(showArgs(a)); c.require(v.isErr(), showArgs(a) + " answered " + v.show()); break; }
        std::vector<Args> block; size_t n = 1 + src.draw(6); for (size_t i = 0; i < n; i++) { Args a = src.pick(src.flip() ? other : odd); if (lower(a[0]) == "multi" || lower(a[0]) == "exec") continue; block.push_back(a); } if (src.chance(1, 3)) block.push_back({"RECOVERY_GET", "zz"}); if (block.empty()) break;
        auto v = s.wire(c, block); for (size_t i = 0; i < block.size(); i++) { c.note("pipelined " + showArgs(block[i])); if (block[i] == Args{"RECOVERY_GET", "zz"}) { if (model.count("zz")) c.equal(v[i], vStr(model["zz"]), "pipelined reading"); else c.require(v[i].isErr(), "pipelined reading of an absent entry"); } else c.require(v[i].isErr(), "pipelined " + showArgs(block[i]) + " answered " + v[i].show()); } break;
      }
      case 8: { std::string b = be8(src.raw64()); c.note("conversion of " + quote(b)); Value v = s.ask(c, {"CONVERT_STRING_TO_INT", b}, overWire); uint64_t u = unbe8(b); c.equal(v, vArr({vStatus("Interpreted as int64_t: " + std::to_string((int64_t) u)), vStatus("Interpreted as uint64_t: " + std::to_string(u))}), "conversion of " + quote(b)); std::string wrong = some(src, 12); if (wrong.size() != 8) c.require(s.ask(c, {"CONVERT_STRING_TO_INT", wrong}, overWire).isErr(), "conversion of " + quote(wrong)); break; }
      default: { int64_t i = (int64_t) src.raw64(); c.note("conversion of " + std::to_string(i)); Value v = s.ask(c, {"CONVERT_INT_TO_STRING", std::to_string(i)}, overWire); c.equal(v, vStrs({"As int64_t: " + be8((uint64_t) i), "As uint64_t: " + be8((uint64_t) i)}), "conversion of " + std::to_string(i)); c.require(s.ask(c, {"CONVERT_INT_TO_STRING", src.pick(std::vector<std::string>{"x", "1x", "99999999999999999999", "--1", "-"})}, overWire).isErr(), "conversion of nonsense"); }
    }
  }
  s.close(); same(c, contents(c, s.path), model, "afterwards"); c.nontrivial(changed);
}

// a journal re-initialised through the interface comes up with exactly the requested identity, and its log untouched
VF_PROP(U10, reinitialised_journals, 1200, 30000, vf::kNone) {
  std::string path = c.scratch() + "/journal"; size_t n = 1 + src.draw(5); std::vector<RaftServer> members; for (size_t i = 0; i < n; i++) members.emplace_back("host" + std::to_string(i), 100 + (int) i); RaftServer me = members[0];
  std::vector<RaftEntry> log; LogIndex start = 0, commit = 0; RaftTerm term = 0; RaftServer voted; bool pending = false;
  {
    RaftJournal::ObliterateAndReinitializeJournal(path, "old-cluster", members, 0, FsyncPolicy::kAsync); RaftJournal j(path); log.emplace_back(); j.fetch(0, log[0]); size_t entries = src.draw(12);
    auto append = [&] { RaftEntry e(term, "SET", some(src, 6), src.bytes(10)); c.require(j.append(j.getLogSize(), e), "append"); log.push_back(e); };
    for (size_t i = 0; i < entries; i++) { if (src.chance(1, 3)) { term += 1 + (RaftTerm) src.draw(3); voted = src.flip() ? members[src.draw(n)] : RaftServer(); c.require(j.setCurrentTerm(term, voted), "term"); } append(); }
    size_t changes = src.draw(3); for (size_t i = 0; i < changes; i++) { std::string err; j.setCommitIndex(j.getLogSize() - 1); bool ok = src.flip() || j.getNodes().size() < 2 ? j.addObserver(term, RaftServer("obs" + std::to_string(i), 7), err) : j.removeMember(term, members.back(), err); if (!ok) continue; RaftEntry e; j.fetch(j.getLogSize() - 1, e); log.push_back(e); pending = true; c.note("membership changed at " + std::to_string(j.getLogSize() - 1)); if (src.flip()) { j.setCommitIndex(j.getLogSize() - 1); pending = false; } }
    if (src.flip() && !pending) { append(); if (src.flip()) j.setCommitIndex(j.getLogSize() - 1); } commit = j.getCommitIndex();
    if (commit > 1 && src.flip()) { start = 1 + (LogIndex) src.draw((uint64_t) commit - 1); j.trimUntil(start); start = j.getLogStart(); }
    c.note(std::to_string(log.size()) + " entries from " + std::to_string(start) + ", " + std::to_string(commit) + " committed" + (pending ? ", membership change under way" : ""));
  }
  static const std::vector<std::string> to = {"n1:1|", "n1:1,n2:2|", "n1:1,n2:2,n3:3|", "n1:1|o1:2", "n1:1,n2:2|o1:3,o2:4", "host0:100|", "host0:100,host1:101|"}; std::string want = src.pick(to);
  { Session s; s.path = path; s.open(); Args a = {"RECOVERY_FORCE_RECONFIGURE_JOURNAL", want, "new-cluster"}; c.note(showArgs(a)); c.equal(s.ask(c, a, src.flip()), vStatus("OK"), "reconfiguring"); if (src.flip()) { s.close(); s.open(); } Value again = s.ask(c, a, false); c.require(again.isErr(), "reconfiguring into the same cluster: " + again.show()); }
  RaftMembers expect; c.require(expect.parse(want), "members"); size_t rounds = 1 + src.draw(2);
  for (size_t r = 0; r < rounds; r++) {
    RaftJournal j(path); c.equal(j.getClusterID(), std::string("new-cluster"), "cluster"); { auto m = j.getMembership(); c.require(m.nodes == expect.nodes && m.observers == expect.observers, "membership is not " + want); } c.equal(j.getEpoch(), (LogIndex) 0, "membership epoch");
    c.equal(j.getLogSize(), (LogIndex) log.size(), "log size"); c.equal(j.getLogStart(), start, "log start"); c.equal(j.getCommitIndex(), commit, "commit index"); c.equal(j.getCurrentTerm(), term, "term"); c.equal(j.getVotedFor().toString(), voted.toString(), "vote");
    for (LogIndex i = start; i < (LogIndex) log.size(); i++) { RaftEntry e; c.require(j.fetch(i, e).ok(), "entry " + std::to_string(i) + " is gone"); c.require(e == log[(size_t) i], "entry " + std::to_string(i) + " changed"); }
  }
  if (commit + 1 < (LogIndex) log.size() && src.flip()) {   // a conflict with the new leader takes uncommitted entries away, never the new membership
    RaftJournal j(path); LogIndex from = commit + 1 + (LogIndex) src.draw(log.size() - (size_t) commit - 1); c.note("entries from " + std::to_string(from) + " removed"); c.require(j.removeEntries(from), "removing entries"); { auto m = j.getMembership(); c.require(m.nodes == expect.nodes && m.observers == expect.observers, "membership after removing entries is not " + want); } c.equal(j.getEpoch(), (LogIndex) 0, "membership epoch after removing entries");
  }
  c.nontrivial(true);
}
