// R09, R10: whole clusters of real nodes, connected by a network which loses, delays and cuts.
#include "raft.hh"
#include "Shard.hh"
#include <atomic>
#include <shared_mutex>
#include <thread>
using namespace raftcheck;

namespace {
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 1) {} uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; } bool chance(unsigned a, unsigned b) { return below(b) < a; } };
void sleepMs(int ms) { if (ms > 0) std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
const std::string CLUSTER_ID = "cluster";
const RaftTimeouts TIMEOUTS(milliseconds(60), milliseconds(120), milliseconds(10));
std::string nodeName(size_t i) { return "n" + std::to_string(i); }
RaftServer server(size_t i) { return {nodeName(i), 1}; }
bool readValue(Client &cl, Value &v, std::string &problem) { std::string fresh = cl.raw.sent().substr(cl.read); RespReader r(fresh); auto x = r.read(); if (!x) { if (!r.error.empty()) problem = r.error + " in " + quote(fresh); return false; } cl.read += r.pos; v = *x; return true; }

struct World;
struct Node {
  size_t id; std::string path; World &w; std::shared_mutex mtx; std::atomic<bool> stopping{false}; bool alive = false; uint64_t generation = 0; std::unique_ptr<ShardDirectory> dir; std::unique_ptr<Shard> shard; LogIndex checked = 0; bool ever = false;
  Node(size_t i, const std::string &p, World &w_) : id(i), path(p), w(w_) {}
  void start(vf::Case &c, const std::vector<RaftServer> &members) {
    if (!ever) { Status st; std::unique_ptr<StateMachine> none; dir.reset(ShardDirectory::create(path, CLUSTER_ID, "s", members, 0, FsyncPolicy::kAsync, std::move(none), st)); c.require(st.ok() && dir, "cannot create a shard"); ever = true; } else dir.reset(new ShardDirectory(path));
    std::unique_ptr<Shard> s(new Shard(dir.get(), server(id), Mode::raft, TIMEOUTS, nodeName(id))); s->spinup(); checked = 0; std::unique_lock l(mtx); shard = std::move(s); alive = true; generation++;
  }
  // a request may be stalled at a leader which is unable to commit anything
  void stop() { std::unique_ptr<Shard> s; stopping = true; std::unique_lock l(mtx, std::defer_lock); for (int i = 0; !l.try_lock(); i++) { sleepMs(1); if (i == 1000) { std::shared_lock look(mtx); if (shard) group()->state()->shutdown(); } } { stopping = false; if (!alive) return; alive = false; s = std::move(shard); } l.unlock(); s.reset(); dir.reset(); }
  RaftGroup *group() { return shard->getRaftGroup(); }
};
struct LinkState { bool up = true, appends = true; int delay = 0; unsigned loss = 0; };
// one established connection, seen by the server
struct Served { Node &n; uint64_t generation; Client cl; Served(Node &n_, const std::string &from) : n(n_), generation(n_.generation), cl(from) {} bool deliver(const Args &a, Value &v, std::string &problem); };

struct Net : qclient::Transport { World &w; explicit Net(World &w_) : w(w_) {} std::unique_ptr<qclient::Channel> connect(const std::string &host, int port, qclient::Options &opts) override; };
struct World {
  std::deque<Node> nodes; std::mutex m; std::vector<std::string> problems; std::vector<std::vector<LinkState>> links; Net net{*this}; std::atomic<uint64_t> seed{1}, tick{1}, delivered{0}, lost{0}, late{0};
  // everything ever seen
  std::map<LogIndex, std::string> committed; std::map<LogIndex, std::string> committedBy; RaftTerm committedTerm = 0; std::map<RaftTerm, std::string> leaderOf; std::map<std::pair<LogIndex, RaftTerm>, std::pair<std::string, RaftTerm>> entries;
  std::mutex lateMtx; std::vector<std::thread> lateThreads; std::atomic<bool> over{false};
  void problem(const std::string &s) { std::scoped_lock l(m); if (problems.size() < 10) problems.push_back(s); }
  LinkState link(size_t a, size_t b) { std::scoped_lock l(m); return links[a][b]; }
  void leads(RaftTerm t, const std::string &who, const std::string &how) { std::scoped_lock l(m); auto it = leaderOf.emplace(t, who); if (!it.second && it.first->second != who && problems.size() < 10) problems.push_back("two leaders in term " + std::to_string(t) + ": " + it.first->second + " and " + who + " (" + how + ")"); }
  void inspect(size_t from, const Args &a) {   // what a leader claims about its log
    std::string cmd = a.empty() ? "" : lower(a[0]); if (cmd == "raft_heartbeat") { leads(atoll(a[1].c_str()), a[2], "heartbeat"); if (a[2] != server(from).toString()) problem("a heartbeat of " + nodeName(from) + " speaks for " + a[2]); return; } if (cmd != "raft_append_entries") return;
    if (a.size() < 3 || a[2].size() != 40) return problem("malformed append-entries sent by " + nodeName(from)); int64_t h[5]; for (int i = 0; i < 5; i++) h[i] = (int64_t) unbe8(std::string_view(a[2]).substr((size_t) i * 8)); leads(h[0], a[1], "append-entries"); if (a[1] != server(from).toString()) problem("append-entries of " + nodeName(from) + " speak for " + a[1]);
    if (h[4] != (int64_t) a.size() - 3) return problem("append-entries of " + nodeName(from) + " announce " + std::to_string(h[4]) + " entries, carry " + std::to_string(a.size() - 3)); RaftTerm prev = h[2]; LogIndex i = h[1];
    std::scoped_lock l(m); for (size_t k = 3; k < a.size(); k++) { int64_t t; memcpy(&t, a[k].data(), 8); i++; auto it = entries.emplace(std::make_pair(i, t), std::make_pair(a[k], prev)); if (!it.second && it.first->second != std::make_pair(a[k], prev) && problems.size() < 10) problems.push_back("two logs have different entries at index " + std::to_string(i) + ", term " + std::to_string(t) + ", or different entries before it"); if (t > h[0] && problems.size() < 10) problems.push_back("a leader sends an entry of a later term"); prev = t; }
  }
  // compare what a node says is committed (entry 0 is made when a node is created, spare nodes know no members then)
  // compare what a node says is committed with what all others said
  void sample(Node &n) {
    if (!n.alive) return; RaftGroup *g = n.group(); RaftJournal &j = *g->journal(); LogIndex sureUpTo; RaftTerm sureTerm; std::string sure; { std::scoped_lock l(m); sureUpTo = committed.empty() ? -1 : committed.rbegin()->first; sureTerm = committedTerm; if (sureUpTo >= 0) sure = committed[sureUpTo]; }
    auto s = g->state()->getSnapshot();
    if (s->status == RaftStatus::LEADER) { leads(s->term, server(n.id).toString(), "status"); if (s->term > sureTerm && sureUpTo >= 0) { RaftEntry e; if (!j.fetch(sureUpTo, e).ok()) problem("the leader of term " + std::to_string(s->term) + ", " + nodeName(n.id) + ", lacks the committed entry " + std::to_string(sureUpTo)); else if (e.serialize() != sure) problem("the leader of term " + std::to_string(s->term) + ", " + nodeName(n.id) + ", has another entry where " + std::to_string(sureUpTo) + " was committed"); } }
    LogIndex applied = g->stateMachine()->getLastApplied(), upTo = j.getCommitIndex(); if (applied > upTo) problem(nodeName(n.id) + " applied up to " + std::to_string(applied) + ", but committed up to " + std::to_string(upTo)); if (upTo >= j.getLogSize()) problem(nodeName(n.id) + " committed beyond its log");
    for (LogIndex i = n.checked + 1; i <= upTo; i++) {
      RaftEntry e; if (!j.fetch(i, e).ok()) { if (i >= j.getLogStart()) problem(nodeName(n.id) + " lacks entry " + std::to_string(i) + " which it committed"); continue; }
      std::string text = e.serialize(); std::scoped_lock l(m); auto it = committed.emplace(i, text); if (it.second) { committedBy[i] = nodeName(n.id); committedTerm = std::max(committedTerm, e.term); }
      else if (it.first->second != text && problems.size() < 10) problems.push_back("entry " + std::to_string(i) + " was committed as " + quote(it.first->second) + " by " + committedBy[i] + ", and as " + quote(text) + " by " + nodeName(n.id));
    }
    n.checked = std::max(n.checked, upTo);
  }
};

bool Served::deliver(const Args &a, Value &v, std::string &problem) {
  if (n.stopping) return false; std::shared_lock l(n.mtx); if (!n.alive || n.generation != generation || cl.dead) return false;
  cl.feed(a); cl.process(n.shard.get()); return readValue(cl, v, problem);
}
struct Chan : qclient::Channel {
  struct Item { Args a; std::promise<redisReplyPtr> p; };
  World &w; size_t from, to; std::vector<std::unique_ptr<qclient::Handshake>> hs; std::mutex m; std::condition_variable cv; std::deque<Item> q; bool stop = false; std::shared_ptr<Served> srv; Rng rng; std::thread t;
  Chan(World &w_, size_t f, size_t t_, std::vector<std::unique_ptr<qclient::Handshake>> &&h) : w(w_), from(f), to(t_), hs(std::move(h)), rng(w_.seed++), t([this] { run(); }) {}
  ~Chan() override { { std::scoped_lock l(m); stop = true; cv.notify_all(); } t.join(); }
  std::future<redisReplyPtr> submit(std::vector<std::string> &&r) override { std::scoped_lock l(m); q.push_back({std::move(r), {}}); auto f = q.back().p.get_future(); cv.notify_all(); return f; }
  void cut(Item *it) { srv.reset(); if (it) it->p.set_value(nullptr); std::deque<Item> gone; { std::scoped_lock l(m); gone.swap(q); } for (auto &x : gone) x.p.set_value(nullptr); }
  bool establish() {
    srv = std::make_shared<Served>(w.nodes[to], nodeName(from));
    for (auto &h : hs) { h->restart(); Args a = h->provideHandshake(); Value v = vStatus("OK"); std::string p; if (lower(a[0]) == "quarkdb_version") v = vStr("simulated"); else if (lower(a[0]) == "raft_handshake") { if (!srv->deliver(a, v, p)) return false; } else if (lower(a[0]) != "client") w.problem("unexpected greeting " + showArgs(a)); if (h->validateResponse(reply(v)) == qclient::Handshake::Status::INVALID) return false; }
    return true;
  }
  void run() {
    while (true) {
      Item it; { std::unique_lock l(m); cv.wait(l, [&] { return stop || !q.empty(); }); if (stop) break; it = std::move(q.front()); q.pop_front(); }
      w.inspect(from, it.a); LinkState there = w.link(from, to); sleepMs((int) rng.below((uint64_t) there.delay + 1)); bool arrives = there.up && (there.appends || lower(it.a[0]) != "raft_append_entries") && !rng.chance(there.loss, 1000);
      if (!arrives) { w.lost++; if (srv && rng.chance(1, 3)) belated(std::move(it.a)); else it.a.clear(); cut(&it); continue; }
      if (!srv || srv->generation != w.nodes[to].generation) { if (!establish()) { cut(&it); sleepMs(2); continue; } }
      Value v; std::string p; if (!srv->deliver(it.a, v, p)) { if (!p.empty()) w.problem("malformed reply to " + showArgs(it.a) + ": " + p); cut(&it); sleepMs(2); continue; }
      w.delivered++; LinkState back = w.link(to, from); if (!back.up || rng.chance(back.loss, 1000)) { w.lost++; cut(&it); continue; } sleepMs((int) rng.below((uint64_t) back.delay + 1)); it.p.set_value(reply(v));
    }
    cut(nullptr);
  }
  // the message was given up by the sender, but still sits somewhere in the network
  void belated(Args a) { std::scoped_lock l(w.lateMtx); if (w.over || w.lateThreads.size() > 200) return; auto s = srv; int ms = (int) rng.below(250); World *pw = &w; w.lateThreads.emplace_back([s, a, ms, pw] { sleepMs(ms); Value v; std::string p; if (s->deliver(a, v, p)) pw->late++; }); }
};
std::unique_ptr<qclient::Channel> Net::connect(const std::string &host, int, qclient::Options &opts) { return std::unique_ptr<qclient::Channel>(new Chan(w, (size_t) atoi(opts.password.c_str() + 1), (size_t) atoi(host.c_str() + 1), std::move(opts.handshakes))); }

// ---------------------------------------------------------------- clients
struct Op { std::vector<Args> a; bool block = false; uint64_t start = 0, end = 0; int conn = 0; size_t node = 0; bool answered = false; std::vector<Value> got; };
bool refused(const Value &v) { return v.t == '-' && (v.s.compare(0, 5, "MOVED") == 0 || v.s.compare(0, 15, "ERR unavailable") == 0); }
struct User {
  World &w; size_t id; Rng rng; std::vector<Op> ops; std::atomic<bool> stop{false}; int conns = 0, serial = 0; size_t hint = 0; uint64_t limit; std::thread t;
  User(World &w_, size_t i, uint64_t seed, uint64_t lim) : w(w_), id(i), rng(seed), limit(lim), t([this] { run(); }) {}
  ~User() { stop = true; if (t.joinable()) t.join(); }
  std::string token() { return "u" + std::to_string(id) + "." + std::to_string(serial++); }
  Args write() { switch (rng.below(5)) { case 0: return {"HSET", "h" + std::to_string(rng.below(2)), "f" + std::to_string(rng.below(3)), token()}; case 1: return {"DEQUE-PUSH-BACK", "q", token()}; case 2: return {"SADD", "s", token()}; default: return {"SET", "k" + std::to_string(rng.below(3)), token()}; } }
  Args read() { switch (rng.below(4)) { case 0: return {"HGET", "h" + std::to_string(rng.below(2)), "f" + std::to_string(rng.below(3))}; case 1: return {"DEQUE-LEN", "q"}; case 2: return {"SCARD", "s"}; default: return {"GET", "k" + std::to_string(rng.below(3))}; } }
  void run() {
    std::unique_ptr<Served> s; int fruitless = 0;
    while (!stop && ops.size() < limit) {
      if (!s || s->generation != s->n.generation || rng.chance(1, 40)) { size_t k = rng.chance(1, 4) ? rng.below(w.nodes.size()) : hint; s.reset(); { std::shared_lock l(w.nodes[k].mtx); if (w.nodes[k].alive) s.reset(new Served(w.nodes[k], "user")); } conns++; if (!s) { hint = rng.below(w.nodes.size()); sleepMs(3); continue; } }
      std::vector<Op> batch; size_t n = 1 + rng.below(rng.chance(1, 3) ? 8 : 2); std::string bytes;
      for (size_t i = 0; i < n; i++) { Op o; o.conn = conns; o.node = s->n.id; if (rng.chance(1, 8)) { o.block = true; size_t k = 1 + rng.below(3); for (size_t j = 0; j < k; j++) o.a.push_back(write()); } else o.a.push_back(rng.chance(2, 3) ? write() : read()); if (o.block) { bytes += encode({"MULTI"}); for (auto &a : o.a) bytes += encode(a); bytes += encode({"EXEC"}); } else bytes += encode(o.a[0]); batch.push_back(o); }
      uint64_t start = w.tick++; for (auto &o : batch) o.start = start; { if (s->n.stopping) { s.reset(); sleepMs(1); continue; } std::shared_lock l(s->n.mtx); if (!s->n.alive || s->generation != s->n.generation) { s.reset(); continue; } s->cl.raw.feed(bytes); s->cl.process(s->n.shard.get()); }
      bool all = true, moved = false; auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(rng.chance(1, 6) ? 20 : 400);
      for (auto &o : batch) {
        size_t want = o.block ? o.a.size() + 2 : 1; std::vector<Value> got; Value v; std::string problem;
        while (all && got.size() < want) { if (readValue(s->cl, v, problem)) got.push_back(v); else if (!problem.empty()) { w.problem("malformed reply to a client: " + problem); all = false; } else if (std::chrono::steady_clock::now() > until || stop) all = false; else sleepMs(1); }
        if (!all) break; o.end = w.tick++; o.answered = true; o.got = got; for (auto &x : got) if (refused(x)) { moved = true; if (x.s.compare(0, 5, "MOVED") == 0) { size_t at = x.s.rfind(" n"); if (at != x.s.npos) hint = (size_t) atoi(x.s.c_str() + at + 2) % w.nodes.size(); } else hint = rng.below(w.nodes.size()); }
      }
      for (auto &o : batch) ops.push_back(o);
      if (!all) { s.reset(); hint = rng.below(w.nodes.size()); } else if (moved) { if (rng.chance(2, 3)) s.reset(); sleepMs(2 + (int) rng.below(6)); fruitless++; } else fruitless = 0;
    }
  }
};

struct History {
  vf::Source &src; vf::Case &c; World w; std::vector<RaftServer> initial; std::vector<std::unique_ptr<User>> users; bool membership; int kills = 0, cuts = 0, coups = 0, changes = 0;
  History(vf::Source &s, vf::Case &c_, size_t members, size_t extra) : src(s), c(c_), membership(true) { setUp(members, extra); }
  History(vf::Source &s, vf::Case &c_, bool memb) : src(s), c(c_), membership(memb) {
    size_t members = src.chance(1, 3) ? 5 : src.chance(1, 4) ? 4 : 3, extra = membership ? src.draw(2) : 0; if (membership && members == 3 && src.flip()) extra++; setUp(members, extra);
  }
  void setUp(size_t members, size_t extra) {
    std::string base = c.scratch(); w.seed = src.draw(1u << 20) * 1000 + 1;
    for (size_t i = 0; i < members + extra; i++) w.nodes.emplace_back(i, base + "/" + nodeName(i), w); w.links.assign(members + extra, std::vector<LinkState>(members + extra)); for (size_t i = 0; i < members; i++) initial.push_back(server(i)); qclient::transport() = &w.net;
    for (auto &n : w.nodes) n.start(c, n.id < members ? initial : std::vector<RaftServer>{RaftServer::Null()}); c.note(std::to_string(members) + " members, " + std::to_string(extra) + " spare nodes");
  }
  ~History() { finish(); qclient::transport() = nullptr; }
  void finish() { users.clear(); { std::scoped_lock l(w.lateMtx); w.over = true; } for (auto &t : w.lateThreads) t.join(); w.lateThreads.clear(); for (auto &n : w.nodes) n.stop(); }
  void troubles() { std::scoped_lock l(w.m); if (!w.problems.empty()) c.fail(w.problems[0]); }
  void sampleAll() { for (auto &n : w.nodes) w.sample(n); troubles(); }
  int leader() { int best = -1; RaftTerm t = -1; for (auto &n : w.nodes) if (n.alive) { auto s = n.group()->state()->getSnapshot(); if (s->status == RaftStatus::LEADER && s->term > t) { t = s->term; best = (int) n.id; } } return best; }
  // an administrator's command; the answer if there is one
  std::string admin(size_t to, const Args &a) { if (!w.nodes[to].alive) return ""; Served s(w.nodes[to], "admin"); Value v; std::string p; if (!s.deliver(a, v, p)) return p; c.note("  " + nodeName(to) + ": " + showArgs(a) + " => " + v.show()); return v.show(); }
  void cut(std::function<bool(size_t, size_t)> up) { std::scoped_lock l(w.m); for (size_t a = 0; a < w.links.size(); a++) for (size_t b = 0; b < w.links.size(); b++) w.links[a][b].up = up(a, b); }
  void trouble() {
    cuts++; size_t n = w.nodes.size();
    switch (src.weighted({3, 3, 2, 2, 3, 2})) {
      case 0: { size_t x = src.draw(n); if (src.flip()) { int l = leader(); if (l >= 0) x = (size_t) l; } c.note(nodeName(x) + " is cut off"); cut([=](size_t a, size_t b) { return a != x && b != x; }); break; }
      case 1: { size_t mask = src.draw(1u << n); c.note("the network splits, side " + std::to_string(mask)); cut([=](size_t a, size_t b) { return ((mask >> a) & 1) == ((mask >> b) & 1); }); break; }
      case 2: { size_t x = src.draw(n), y = src.draw(n); bool both = src.flip(); c.note("no link from " + nodeName(x) + " to " + nodeName(y) + (both ? " and back" : "")); std::scoped_lock l(w.m); w.links[x][y].up = false; if (both) w.links[y][x].up = false; break; }
      case 3: { size_t x = src.draw(n); int d = (int) src.draw(25); unsigned loss = (unsigned) src.draw(200); c.note("slow and lossy links at " + nodeName(x)); std::scoped_lock l(w.m); for (size_t y = 0; y < n; y++) { w.links[x][y].delay = d; w.links[y][x].loss = loss; } break; }
      case 4: heal(); break;
      default: { size_t x = src.draw(n), y = src.draw(n); c.note("log entries do not pass from " + nodeName(x) + " to " + nodeName(y)); std::scoped_lock l(w.m); w.links[x][y].appends = false; break; }
    }
  }
  void heal() { c.note("the network recovers"); std::scoped_lock l(w.m); for (auto &r : w.links) for (auto &x : r) x = LinkState(); }
  void kill() { size_t x = src.draw(w.nodes.size()); if (src.chance(1, 3)) { int l = leader(); if (l >= 0) x = (size_t) l; } if (!w.nodes[x].alive) return; c.note(nodeName(x) + " is stopped"); w.sample(w.nodes[x]); w.nodes[x].stop(); kills++; }
  void revive() { std::vector<size_t> d; for (auto &n : w.nodes) if (!n.alive) d.push_back(n.id); if (d.empty()) return; size_t x = src.pick(d); c.note(nodeName(x) + " is started"); w.nodes[x].start(c, initial); }
  void member() {
    static const std::vector<std::string> cmds = {"RAFT_ADD_OBSERVER", "RAFT_PROMOTE_OBSERVER", "RAFT_DEMOTE_TO_OBSERVER", "RAFT_REMOVE_MEMBER"}; int l = leader(); size_t to = l >= 0 && !src.chance(1, 5) ? (size_t) l : src.draw(w.nodes.size()); RaftServer who = server(src.draw(w.nodes.size())); std::string r = admin(to, {src.pick(cmds), who.toString()}); if (r.find("OK") != r.npos) changes++;
  }
  void run(size_t steps) {
    size_t nu = 1 + src.draw(3); for (size_t i = 0; i < nu; i++) users.emplace_back(new User(w, i, w.seed + 77 + i, 600)); sleepMs(60 + (int) src.draw(150));
    while (src.more(steps)) {
      VF_SPAN(src);
      switch (src.weighted({6, 6, 2, 3, 1, 1, membership ? 5u : 0u})) {
        case 0: break; case 1: trouble(); break; case 2: kill(); break; case 3: revive(); break;
        case 4: { size_t x = src.draw(w.nodes.size()); if (w.nodes[x].alive) { coups++; admin(x, {"RAFT_ATTEMPT_COUP"}); } break; }
        case 5: { size_t x = src.draw(w.nodes.size()); if (w.nodes[x].alive) admin(x, {"RAFT_OBSERVE_TERM", std::to_string(w.nodes[x].group()->state()->getSnapshot()->term + 1)}); break; }
        default: member();
      }
      sleepMs((int) src.draw(src.flip() ? 15 : 100)); sampleAll();
    }
    c.note("-- the end: everything recovers"); for (auto &u : users) u->stop = true; heal(); for (auto &n : w.nodes) if (!n.alive) n.start(c, initial); users.size(); for (auto &u : users) u->t.join();
    settle(); replay(); finish(); troubles();
    c.nontrivial(w.committed.size() > 8 && w.leaderOf.size() >= 2); if (kills) c.label("restarts"); if (cuts) c.label("network trouble"); if (changes) c.label("membership changed"); if (w.late) c.label("late messages"); if (w.leaderOf.size() > 3) c.label("more than three leaders");
  }
  // ---- a directed history: a change of membership which its leader could not complete, and another one by the next leader
  bool eventually(std::function<bool()> f, int ms = 15000) { for (auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms); std::chrono::steady_clock::now() < until;) { sampleAll(); if (f()) return true; sleepMs(2); } return false; }
  bool leads(size_t x) { return w.nodes[x].group()->state()->getSnapshot()->status == RaftStatus::LEADER; }
  bool makeLeader(size_t x) { return eventually([&] { if (leads(x)) return true; Served s(w.nodes[x], "admin"); Value v; std::string p; s.deliver({"RAFT_ATTEMPT_COUP"}, v, p); sleepMs(120); return leads(x); }); }
  void twoConfigurations() {
    size_t a = src.draw(4), b = (a + 1 + src.draw(3)) % 4, slow = b; while (slow == a || slow == b) slow = src.draw(4); size_t extra = 4, other = 6 - a - b - slow; bool remove = src.flip(); auto alone = [&](std::vector<size_t> g) { cut([=](size_t x, size_t y) { bool i = std::count(g.begin(), g.end(), x), j = std::count(g.begin(), g.end(), y); return i == j; }); };
    c.note("first leader " + nodeName(a) + ", second leader " + nodeName(b) + ", slow " + nodeName(slow)); if (!makeLeader(a)) { c.note("no leader"); c.discard(); } if (!eventually([&] { return admin(a, {"RAFT_ADD_OBSERVER", server(extra).toString()}).find("OK") != std::string::npos; })) c.discard();
    if (!eventually([&] { for (auto &n : w.nodes) if (n.group()->journal()->getCommitIndex() != w.nodes[a].group()->journal()->getLogSize() - 1) return false; return true; })) c.discard();
    alone({a, extra}); std::string r = admin(a, {"RAFT_PROMOTE_OBSERVER", server(extra).toString()}); if (r.find("OK") == r.npos || !eventually([&] { return w.nodes[extra].group()->journal()->getLogSize() == w.nodes[a].group()->journal()->getLogSize(); }, 500)) { c.note("the first change did not start"); c.discard(); }
    { std::scoped_lock l(w.m); w.links[b][slow].appends = false; w.links[other][slow].appends = false; w.links[slow][other].appends = false; w.links[slow][b].appends = false; }
    for (int i = 0; i < 6 && !leads(b); i++) { w.nodes[b].group()->heartbeatTracker()->triggerTimeout(); eventually([&] { return leads(b); }, 150); } if (!leads(b)) { c.note("another one leads"); c.discard(); } c.note(nodeName(b) + " leads now"); bool changed = eventually([&] { return leads(b) && admin(b, {remove ? "RAFT_REMOVE_MEMBER" : "RAFT_DEMOTE_TO_OBSERVER", server(a).toString()}).find("OK") != std::string::npos; }, 700); if (changed) { c.label("second change accepted"); c.note("the second change was accepted"); } sleepMs(100); sampleAll();
    { std::scoped_lock l(w.m); for (auto &x : w.links) for (auto &y : x) y.appends = true; } alone({b, other}); c.note("the other side goes on"); eventually([&] { return leads(a) || leads(slow) || leads(extra); }, 2000); sleepMs(200); sampleAll(); heal(); eventually([&] { return leader() >= 0; }, 3000); sleepMs(200); sampleAll(); c.nontrivial();
  }
  int last = -1;
  void settle() {
    auto begin = std::chrono::steady_clock::now(); std::string why; int tries = 0;
    while (std::chrono::steady_clock::now() - begin < std::chrono::seconds(40)) {
      sampleAll(); sleepMs(20); int l = leader(); if (l < 0) { why = "nobody leads"; continue; }
      Client cl("final"); bool ok = false; { Node &n = w.nodes[(size_t) l]; std::shared_lock g(n.mtx); cl.feed({"SET", "final", std::to_string(tries++)}); cl.process(n.shard.get()); }
      Value v; std::string p; for (int i = 0; i < 300 && !ok; i++) { if (readValue(cl, v, p)) { ok = v == vStatus("OK"); break; } sleepMs(1); } if (!ok) { why = "the leader does not complete a write"; continue; }
      Node &n = w.nodes[(size_t) l]; auto m = n.group()->journal()->getMembership(); std::vector<RaftServer> all = m.nodes; all.insert(all.end(), m.observers.begin(), m.observers.end()); bool same = false;
      for (int i = 0; i < 200 && !same; i++) { same = true; LogIndex size = n.group()->journal()->getLogSize(), commit = n.group()->journal()->getCommitIndex(); if (commit != size - 1) { same = false; why = "the leader's log is not all committed"; } for (auto &s : all) { size_t k = (size_t) atoi(s.hostname.c_str() + 1); RaftGroup *g = w.nodes[k].group(); if (g->journal()->getLogSize() != size || g->journal()->getCommitIndex() != commit || g->stateMachine()->getLastApplied() != commit) { same = false; why = nodeName(k) + " does not catch up with the leader"; } } if (!same) sleepMs(5); }
      if (!same) continue; sampleAll(); auto s = n.group()->state()->getSnapshot(); if (s->status != RaftStatus::LEADER) continue;
      auto raw = [&](size_t k) { std::map<std::string, std::string> x; auto it = w.nodes[k].group()->stateMachine()->getRawIterator(); for (it->SeekToFirst(); it->Valid(); it->Next()) x[it->key().ToString()] = it->value().ToString(); return x; };
      auto mine = raw((size_t) l); for (auto &x : all) { size_t k = (size_t) atoi(x.hostname.c_str() + 1); auto theirs = raw(k); if (theirs != mine) { if (leader() != l) goto again; c.fail("the same log led to different data:" + diffMaps(mine, theirs, nodeName((size_t) l), nodeName(k))); } }
      last = l; return;
      again:;
    }
    c.fail("with everything repaired for 40 seconds: " + why);
  }
  static std::vector<Args> commandsOf(const Args &a) {
    if (lower(a[0]) != "tx_readwrite" || a.size() != 3) return {a}; std::vector<Args> r; const std::string &s = a[1]; size_t at = 0; auto num = [&] { uint64_t x = unbe8(std::string_view(s).substr(at)); at += 8; return x; }; uint64_t n = num(); for (uint64_t i = 0; i < n; i++) { Args x; uint64_t k = num(); for (uint64_t j = 0; j < k; j++) { uint64_t len = num(); x.push_back(s.substr(at, len)); at += len; } r.push_back(x); } return r;
  }
  // the log, one command at a time; and what every client was told
  void replay() {
    RaftJournal &j = *w.nodes[(size_t) last].group()->journal(); LogIndex upTo = j.getCommitIndex(); Model m; size_t seq = 0; struct Done { size_t seq; Value v; LogIndex idx; }; std::map<std::string, Done> done; std::map<std::string, std::vector<std::pair<size_t, Value>>> versions; std::map<std::string, Args> reads;
    for (auto &u : users) for (auto &o : u->ops) if (!o.block && !isWrite(o.a[0])) { reads[showArgs(o.a[0])] = o.a[0]; } for (auto &[k, a] : reads) versions[k].push_back({0, m.apply(a)});
    for (LogIndex i = 0; i <= upTo; i++) { Entry e = entryAt(c, j, i); if (lower(e.a[0]).compare(0, 8, "journal_") == 0) continue; for (auto &a : commandsOf(e.a)) { seq++; Value v = m.apply(a); const std::string &tok = a.back(); if (tok[0] == 'u') { if (!done.emplace(tok, Done{seq, v, i}).second) c.fail("a client's " + showArgs(a) + " is in the log twice"); } for (auto &[k, r] : reads) { Value now = m.apply(r); auto &l = versions[k]; if (!(l.back().second == now)) l.push_back({seq, now}); } } }
    size_t acked = 0, unknown = 0, readsSeen = 0; std::vector<std::pair<uint64_t, size_t>> finished, started;
    for (auto &u : users) {
      std::map<int, size_t> bound, order; 
      for (auto &o : u->ops) {
        if (!o.answered) { unknown++; } std::string what = "u" + std::to_string(u->id) + " at " + nodeName(o.node) + ": " + (o.block ? "MULTI " : "") + showArgs(o.a[0]);
        auto placed = [&](const Args &a, const Value *v) { auto it = done.find(a.back()); if (v) { if (it == done.end()) c.fail(what + " was answered " + v->show() + ", but is not in the log"); if (!Model::agree(*v, it->second.v)) c.fail(what + " was answered " + v->show() + ", where the log says " + it->second.v.show()); acked++; finished.push_back({o.end, it->second.seq}); } if (it != done.end()) { started.push_back({o.start, it->second.seq}); if (it->second.seq <= order[o.conn]) c.fail(what + " took effect before an earlier request of its connection"); order[o.conn] = it->second.seq; if (v) bound[o.conn] = it->second.seq; } };
        if (o.block) {
          if (!o.answered) { for (auto &a : o.a) placed(a, nullptr); continue; }
          c.equal(o.got[0], vStatus("OK"), what); for (size_t i = 0; i < o.a.size(); i++) c.equal(o.got[i + 1], vStatus("QUEUED"), what); const Value &r = o.got.back(); if (refused(r)) { for (auto &a : o.a) placed(a, nullptr); continue; } c.require(r.t == '*' && r.v.size() == o.a.size(), what + ": EXEC answered " + r.show()); LogIndex at = -1; for (size_t i = 0; i < o.a.size(); i++) { placed(o.a[i], &r.v[i]); LogIndex x = done[o.a[i].back()].idx; if (i && x != at) c.fail(what + ": a block was torn"); at = x; }
        } else if (isWrite(o.a[0])) placed(o.a[0], o.answered && !refused(o.got[0]) ? &o.got[0] : nullptr);
        else if (o.answered && !refused(o.got[0])) {
          readsSeen++; auto &l = versions[showArgs(o.a[0])]; size_t lo = bound[o.conn]; bool ok = false; for (size_t k = 0; k < l.size() && !ok; k++) { bool alive = k + 1 == l.size() || l[k + 1].first > lo; if (alive && Model::agree(o.got[0], l[k].second)) { ok = true; bound[o.conn] = std::max(lo, l[k].first); } }
          if (!ok) c.fail(what + " was answered " + o.got[0].show() + ", which was never true after what this connection had seen");
        }
      }
    }
    // what finished before something else began comes first
    std::sort(finished.begin(), finished.end()); std::sort(started.begin(), started.end()); size_t f = 0, top = 0; for (auto &[t, s] : started) { while (f < finished.size() && finished[f].first < t) top = std::max(top, finished[f++].second); if (top > s) c.fail("a write which began after another one was answered comes before it in the log"); }
    if (acked > 20) c.label("more than 20 writes acknowledged"); if (unknown) c.label("unanswered requests"); if (readsSeen) c.label("reads checked");
  }
};
}
VF_PROP(R10, cluster_clients, 24, 1200, vf::kConcurrent) { History(src, c, false).run(20); }
VF_PROP(R09, cluster, 48, 3000, vf::kConcurrent) { History(src, c, false).run(20); }
VF_PROP(R09, cluster_membership, 40, 3000, vf::kConcurrent) { History(src, c, true).run(25); }
VF_PROP(R09, cluster_two_configurations, 16, 400, vf::kConcurrent) { History h(src, c, 4, 1); h.twoConfigurations(); }
VF_RULE(R09, "histories with at least four duplicate, late, conflicting or refused messages, and more than two entries committed; clusters with at least two leaders and more than eight entries committed");
