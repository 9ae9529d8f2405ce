// N04 sessions against a whole node, N05 authentication; and, through a node, replies to every command (N02) and forged commands (N07).
#include "store.hh"
#include "Configuration.hh"
#include "QuarkDBNode.hh"
#include "ShardDirectory.hh"
#include "Status.hh"
#include "auth/AuthenticationDispatcher.hh"
#include "redis/Authenticator.hh"
#include "raft/RaftTimeouts.hh"
#include <atomic>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <sys/syscall.h>
#include <time.h>
using namespace quarkdb;
using vf::quote;

// ---------------------------------------------------------------- a monotonic clock under the harness' control: frozen, or running ahead
static std::atomic<bool> gFrozen{false};
static std::atomic<int64_t> gFrozenNs{0}, gSkewNs{0};
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) __THROW {
  if (id == CLOCK_MONOTONIC && gFrozen) { int64_t n = gFrozenNs; ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
  int rc = (int) syscall(SYS_clock_gettime, id, ts);
  if (id == CLOCK_MONOTONIC && gSkewNs) { int64_t n = ts->tv_sec * 1000000000ll + ts->tv_nsec + gSkewNs; ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; }
  return rc;
}
struct ClockScope { ClockScope() { gFrozen = false; gSkewNs = 0; } ~ClockScope() { gFrozen = false; gSkewNs = 0; } };

namespace {
std::string encode(const Args &a) { std::string s = "*" + std::to_string(a.size()) + "\r\n"; for (auto &x : a) s += "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n"; return s; }
struct HostLink : MemLink { std::string host; explicit HostLink(std::string h) : host(std::move(h)) {} const char *Host() override { return host.c_str(); } };

struct Client {
  HostLink raw; Link link; std::unique_ptr<Connection> conn; size_t read = 0; bool dead = false;
  explicit Client(const std::string &host) : raw(host), link(&raw), conn(new Connection(&link)) {}
  // everything which has arrived is processed; the replies come back parsed
  std::vector<Value> process(vf::Case &c, Dispatcher *d, const std::string &what) {
    InFlightTracker tracker(true); for (int idle = 0; idle < 2 && !dead;) { size_t before = raw.unread(); if (conn->processRequests(d, tracker) < 0) dead = true; if (raw.unread() == before) idle++; }
    if (!dead) c.equal(raw.unread(), 0u, what + ": bytes left unread");
    std::string out = raw.sent(), fresh = out.substr(read); read = out.size(); RespReader r(fresh); std::vector<Value> got;
    while (!r.atEnd()) { auto v = r.read(); if (!v) c.fail(what + ": malformed reply: " + r.error + " in " + quote(fresh)); got.push_back(*v); }
    return got;
  }
  std::vector<Value> send(vf::Case &c, Dispatcher *d, const std::string &bytes, const std::string &what) { raw.feed(bytes); return process(c, d, what); }
  Value ask(vf::Case &c, Dispatcher *d, const Args &a) { auto v = send(c, d, encode(a), showArgs(a)); c.equal(v.size(), 1u, "replies to " + showArgs(a)); return v[0]; }
};
struct Node {
  std::string path; std::unique_ptr<QuarkDBNode> node;
  explicit Node(vf::Case &c, const std::string &password = "", bool strict = false) : path(c.scratch() + "/shard") {
    Status st; std::unique_ptr<StateMachine> none; std::unique_ptr<ShardDirectory> d(ShardDirectory::create(path, "c", "s", std::move(none), st)); c.require(st.ok() && d, "cannot create a shard"); d.reset();
    std::string conf = "redis.mode standalone\nredis.database " + path + "\n"; if (!password.empty()) conf += "redis.password " + password + "\n"; if (strict) conf += "redis.require_password_for_localhost true\n";
    Configuration cfg; c.require(Configuration::fromString(conf, cfg), "the configuration was refused"); node.reset(new QuarkDBNode(cfg, defaultTimeouts));
  }
  Dispatcher *d() { return node.get(); }
};
struct Quiet { Quiet() { Link::setConnectionLogging(false); } }; Quiet quietNode;

void noEmpties(Pool &p) { for (auto *v : {&p.keys, &p.fields, &p.hints, &p.holders}) { for (auto &x : *v) if (x.empty()) x = "e"; std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); } }
Args noEmpties(Args a) { for (auto &x : a) if (x.empty()) x = "e"; return a; }
std::string packBlock(const std::vector<Args> &b) { std::string s = be8(b.size()); for (auto &a : b) { s += be8(a.size()); for (auto &x : a) s += be8(x.size()) + x; } return s; }
std::string respell(vf::Source &src, std::string s) { for (auto &ch : s) if (isalpha((unsigned char) ch) && src.flip()) ch = (char) (ch ^ 32); return s; }

// what the node should say and do, one request at a time
struct Session {
  std::unique_ptr<Client> cl; bool multi = false; std::vector<Args> queue; std::string out, name; size_t fed = 0;
  struct Sent { size_t end; Args a; bool packed; std::vector<Args> block; bool phantom, valid; }; std::deque<Sent> sent;
};
bool isCmd(const Args &a, const char *n) { return lower(a[0]) == n; }
const std::vector<std::string> kForged = {"TIMESTAMPED_LEASE_GET", "TIMESTAMPED_LEASE_ACQUIRE", "TIMESTAMPED_LEASE_RELEASE", "timestamped-lease-acquire"};

struct Sessions {
  vf::Source &src; vf::Case &c; Node n; Model m; Pool p; std::vector<Session> s; int blocks = 0, refused = 0, cutInside = 0, pipelined = 0, packed = 0;
  Mix mix{{fStr, 6}, {fHash, 5}, {fCount, 2}, {fSet, 4}, {fDeq, 4}, {fLh, 4}, {fLhFallback, 2}, {fKeyspace, 3}, {fConfig, 1}, {fFlush, 1}};
  Sessions(vf::Source &s_, vf::Case &c_) : src(s_), c(c_), n(c_), p(genPool(s_)) { noEmpties(p); s.resize(1 + src.draw(3)); for (size_t i = 0; i < s.size(); i++) connect(s[i]); }
  void connect(Session &x) { x = Session(); x.cl.reset(new Client("host" + std::to_string(src.draw(3)))); }
  Args data() { return noEmpties(genCommand(src, p, mix, m)); }
  void compose(Session &x) {
    Session::Sent r{0, {}, false, {}, false, true};
    switch (src.weighted({14, 3, 3, 1, 2, 3, 2})) {
      case 0: r.a = data(); break;
      case 1: r.a = {"MULTI"}; if (src.chance(1, 8)) r.a.push_back("x"); break;
      case 2: r.a = {"EXEC"}; break;
      case 3: r.a = {"DISCARD"}; break;
      case 4: { static const std::vector<Args> ctl = {{"PING"}, {"PING", "a\r\nb"}, {"PING", "a", "b"}, {"CLIENT", "SETNAME", "x"}, {"CLIENT", "GETNAME"}, {"CLIENT"}, {"CLIENT", "x"}, {"CONVERT_INT_TO_STRING", "72623859790382856"}, {"NOSUCH", "x"}, {"GETT"}, {"RAFT_INFO"}, {"QUARKDB_DETACH"}, {"RECOVERY_INFO"}, {"AUTH", "x"}, {"QUARKDB_VERSION"}, {"CLIENT_ID"}}; r.a = src.pick(ctl); break; }
      case 5: {
        r.packed = true; packed++; size_t k = src.size(5); bool w = false; for (size_t i = 0; i < k; i++) { Args a = data(); r.block.push_back(a); w |= isWrite(a); }
        r.phantom = src.flip(); std::string body = packBlock(r.block); static const std::vector<std::string> rw = {"TX_READWRITE", "MULTIOP_READWRITE"}, ro = {"TX_READONLY", "MULTIOP_READ"}; r.a = {src.pick(w ? rw : ro), body, r.phantom ? "phantom" : "real"};
        if (k == 0) r.valid = false;   // nothing to run: refused, but answered
        switch (src.draw(16)) {
          case 0: r.valid = false; r.a[1] = body.substr(0, src.draw(body.size())); if (r.a[1].empty()) r.a[1] = "x"; break;
          case 1: r.valid = false; r.a[1] += "x"; break;
          case 2: r.valid = false; r.a[2] = src.flip() ? "Phantom" : "x"; break;
          case 3: r.valid = false; if (src.flip()) r.a.pop_back(); else r.a.push_back("x"); break;
          case 4: { auto b = r.block; Args f = {src.pick(std::vector<std::string>{"MULTI", "EXEC", "PING", "NOSUCH", "FLUSHALLL", "PUBLISH", "AUTH"}), "x"}; if (src.flip()) f = {respell(src, src.pick(kForged)), src.pick(p.keys), "forger", "1000", be8(0)}; b.insert(b.begin() + (long) src.draw(b.size() + 1), f); r.valid = false; r.a[0] = "TX_READWRITE"; r.a[1] = packBlock(b); break; }
          case 5: if (k) { r.valid = false; r.a[0] = w ? "TX_READONLY" : "TX_READWRITE"; } break;
          case 6: { auto b = r.block; b.push_back({"TX_READWRITE", packBlock({{"SET", src.pick(p.keys), "nested"}}), "real"}); r.valid = false; r.a[0] = "TX_READWRITE"; r.a[1] = packBlock(b); break; }
        }
        break; }
      default: { r.a = {respell(src, src.pick(kForged)), src.pick(p.keys), "forger", "1000", be8(1)}; if (src.flip()) r.a.resize(2); break; }
    }
    if (!r.packed && src.chance(1, 8)) r.a[0] = respell(src, r.a[0]);
    x.out += encode(r.a); r.end = x.out.size(); x.sent.push_back(r); c.note("client " + std::to_string(&x - &s[0]) + " > " + (r.packed ? r.a[0] + " " + (r.a.size() > 2 ? r.a[2] : "") + (r.valid ? "" : " (malformed)") : showArgs(r.a)) + (r.packed ? [&] { std::string t; for (auto &a : r.block) t += " {" + showArgs(a) + "}"; return t; }() : ""));
  }
  Value one(const Args &a) { m.beginTx(); return m.apply(a); }
  // the replies expected for one request; an empty text in an error means: any error
  std::vector<Value> expect(Session &x, const Session::Sent &r) {
    auto err = [&] { refused++; return std::vector<Value>{vErr("")}; };
    if (r.packed) { if (x.multi || !r.valid) return err(); blocks++; std::vector<Value> v; for (auto &a : r.block) v.push_back(one(a)); if (r.phantom) return v; return {vArr(v)}; }
    const Args &a = r.a; auto req = toRequest(a); auto type = req.getCommandType();
    if (isCmd(a, "multi")) { if (a.size() != 1 || x.multi) return err(); x.multi = true; return {vStatus("OK")}; }
    if (isCmd(a, "exec")) { if (!x.multi) return err(); x.multi = false; std::vector<Value> v; for (auto &q : x.queue) v.push_back(one(q)); x.queue.clear(); blocks++; return {vArr(v)}; }
    if (isCmd(a, "discard")) { if (!x.multi) return err(); x.multi = false; x.queue.clear(); return {vStatus("OK")}; }
    std::string canon = lower(a[0]); for (auto &ch : canon) if (ch == '-') ch = '_'; bool forged = canon.rfind("timestamped_", 0) == 0;
    if (x.multi) { if (forged || (type != CommandType::READ && type != CommandType::WRITE)) return err(); x.queue.push_back(a); return {vStatus("QUEUED")}; }
    if (forged) return err();
    if (type == CommandType::READ || type == CommandType::WRITE) return {one(a)};
    if (isCmd(a, "ping")) return a.size() == 1 ? std::vector<Value>{vStatus("PONG")} : a.size() == 2 ? std::vector<Value>{vStr(a[1])} : err();
    if (isCmd(a, "client") && a.size() == 3) { x.name = "x"; return {vStatus("OK")}; }
    if (isCmd(a, "client") && a.size() == 2 && a[1] == "GETNAME") return {vStr(clientName(x))};
    if (isCmd(a, "convert_int_to_string")) return {vArr({vStr("As int64_t: \x01\x02\x03\x04\x05\x06\x07\x08"), vStr("As uint64_t: \x01\x02\x03\x04\x05\x06\x07\x08")})};
    if (isCmd(a, "quarkdb_version")) return {vStr("?")};
    if (isCmd(a, "client_id")) return {vStatus(x.cl->conn->getID())};
    return err();
  }
  std::string clientName(Session &x) { return x.name; }
  void deliver(size_t at) {
    Session &x = s[at]; size_t left = x.out.size() - x.fed; if (!left) return; size_t take = left; std::string me = "client " + std::to_string(at);
    switch (src.draw(3)) { case 0: break; case 1: take = 1 + src.draw(left); break; default: { size_t k = src.draw(x.sent.size()); take = x.sent[k].end - x.fed; } }
    x.cl->raw.chunk(src.chance(1, 4) ? 1 + src.draw(30) : SIZE_MAX); x.cl->raw.feed(std::string_view(x.out).substr(x.fed, take)); x.fed += take;
    std::vector<std::pair<std::string, Value>> want; int whole = 0;
    while (!x.sent.empty() && x.sent.front().end <= x.fed) { auto r = x.sent.front(); x.sent.pop_front(); for (auto &v : expect(x, r)) want.push_back({r.packed ? r.a[0] : showArgs(r.a), v}); whole++; }
    if (!x.sent.empty() && x.sent.front().end - encode(x.sent.front().a).size() < x.fed) cutInside++; if (whole > 2) pipelined++;
    c.note(me + " sends " + std::to_string(take) + " bytes, completing " + std::to_string(whole) + " requests");
    auto got = x.cl->process(c, n.d(), me); c.require(!x.cl->dead, me + ": the connection was given up");
    for (size_t i = 0; i < want.size() || i < got.size(); i++) {
      if (i >= got.size()) c.fail(me + ": no reply to " + want[i].first + " (expected " + want[i].second.show() + ")");
      if (i >= want.size()) c.fail(me + ": a reply too many: " + got[i].show());
      if (want[i].second == vStr("?")) { c.require(got[i].t == '$', me + ": " + want[i].first + " answered " + got[i].show()); continue; }
      if (!Model::agree(got[i], want[i].second)) c.fail(me + ": " + want[i].first + " answered " + got[i].show() + ", expected " + want[i].second.show());
    }
  }
  void run(int avg) {
    static const std::vector<size_t> limits = {1, 2, 3, 5, 100}; size_t limit = src.pick(limits); Connection::setPhantomBatchLimit(limit); c.note("batch limit " + std::to_string(limit) + ", keys " + vf::Case::show(p.keys));
    for (size_t i = 0; i < s.size(); i++) s[i].name = "";
    while (src.more((unsigned) avg)) {
      VF_SPAN(src); size_t at = src.draw(s.size());
      switch (src.weighted({10, 5, 1})) {
        case 0: { size_t k = 1 + src.draw(src.flip() ? 2 : 9); for (size_t i = 0; i < k; i++) { VF_SPAN(src); compose(s[at]); } break; }
        case 1: deliver(at); break;
        default: c.note("client " + std::to_string(at) + " goes away" + (s[at].multi ? " in the middle of a block" : "")); if (!s[at].sent.empty()) c.label("left with requests unsent"); connect(s[at]); c.label("reconnected");
      }
    }
    for (size_t i = 0; i < s.size(); i++) while (s[i].fed < s[i].out.size()) deliver(i);
    Client fresh("auditor"); auditWith(c, [&](const std::vector<Args> &q) { std::vector<Args> e; std::string b; for (auto &a : q) b += encode(a); auto v = fresh.send(c, n.d(), b, "audit"); c.equal(v.size(), q.size(), "replies to the final audit"); return v; }, m, p, "at the end");
    c.nontrivial(pipelined > 0 && cutInside > 0 && (blocks > 0 || refused > 1));
  }
};
}

// ------------------------------------------------------------------------------------------------ N04
VF_PROP(N04, sessions, 4000, 100000, vf::kNone) { Sessions(src, c).run(35); }
VF_RULE(N04, "sessions in which several requests completed at once, a request was cut in the middle, and a block ran or several requests were refused");

// ------------------------------------------------------------------------------------------------ N05
namespace {
std::string hmac(const std::string &key, const std::string &text) { unsigned char out[EVP_MAX_MD_SIZE]; unsigned len = 0; HMAC(EVP_sha256(), key.data(), (int) key.size(), (const unsigned char *) text.data(), text.size(), out, &len); return std::string((char *) out, len); }
// something which is not quite s
std::string spoil(vf::Source &src, const std::string &s) {
  std::string t = s; if (t.empty()) return "x";
  switch (src.draw(8)) {
    case 0: { size_t i = src.draw(t.size()); t[i] = (char) (t[i] ^ (1 << src.draw(8))); break; }
    case 1: t.resize(src.draw(t.size())); break;
    case 2: t += src.flip() ? std::string(1, t.back()) : std::string(1, '\0'); break;
    case 3: t.back() = (char) (t.back() + 1); break;
    case 4: t = respell(src, t); break;
    case 5: t = t.substr(1); break;
    case 6: std::reverse(t.begin(), t.end()); break;
    default: t = std::string(t.size(), '\0');
  }
  return t;
}
std::string genSecret(vf::Source &src, bool plain) { size_t n = src.chance(1, 3) ? 32 : 32 + src.draw(src.chance(1, 6) ? 120 : 20); std::string s; for (size_t i = 0; i < n; i++) s += plain ? "abcdefghijKLMNOP0123456789-_+/"[src.draw(30)] : (char) src.draw(256); return s; }
}
// the two primitives: what is asked for, what is accepted, and until when
VF_PROP(N05, challenge_and_signature, 20000, 200000, vf::kNone) {
  ClockScope scope; gFrozen = true; int64_t now = 1000000000000ll + (int64_t) src.draw(1u << 30); gFrozenNs = now; const int64_t minute = 60000000000ll;
  std::string key = genSecret(src, false), otherKey = src.flip() ? genSecret(src, false) : spoil(src, key); if (otherKey.size() < 32) otherKey += std::string(32, 'k');
  Authenticator a(key); std::vector<std::string> challenges; bool open = false; int64_t until = 0; std::string current, lastOwn; int accepted = 0, refused = 0;
  auto rnd64 = [&] { std::string s; for (int i = 0; i < 64; i++) s += (char) src.draw(src.chance(1, 3) ? 3 : 256); return s; };
  while (src.more(10)) {
    VF_SPAN(src);
    if (challenges.empty() || src.chance(1, 3)) {
      std::string theirs = rnd64(), mine = rnd64(); if (mine == theirs) mine[0] ^= 1; std::string got; bool own = src.flip(); int64_t ms = (int64_t) src.draw(1ull << 42);
      if (own) got = a.generateChallenge(theirs); else { got = a.generateChallenge(theirs, std::chrono::system_clock::time_point(std::chrono::milliseconds(ms)), mine); c.require(got.find(mine) != got.npos && got.find(std::to_string(ms)) != got.npos, "a challenge without the server's random bytes or time: " + quote(got)); }
      c.require(got.compare(0, 64, theirs) == 0, "a challenge does not begin with the client's random bytes"); c.require(got.size() >= 128, "a challenge of only " + std::to_string(got.size()) + " bytes");
      if (own) { for (auto &x : challenges) c.require(x.substr(64) != got.substr(64), "the same challenge twice"); if (lastOwn.size() == got.size()) { int diff = 0; for (size_t k = 64; k < got.size(); k++) diff += got[k] != lastOwn[k]; c.require(diff >= 40, "two challenges hardly differ: in " + std::to_string(diff) + " bytes"); } lastOwn = got; }
      challenges.push_back(got); current = got; open = true; until = now + minute; c.note("challenge"); continue;
    }
    switch (src.draw(5)) { case 0: now += minute; break; case 1: now += minute + 1; break; case 2: now += minute - 1; break; case 3: now += (int64_t) src.draw(2 * minute); break; default: break; } gFrozenNs = now;
    std::string sig; bool right = false;
    switch (src.weighted({5, 3, 2, 2})) {
      case 0: sig = hmac(key, current); right = true; break;
      case 1: sig = spoil(src, hmac(key, current)); break;
      case 2: sig = hmac(key, src.flip() ? src.pick(challenges) : spoil(src, current)); break;
      default: sig = hmac(otherKey, current);
    }
    right = sig == hmac(key, current); bool want = open && right && now <= until; auto st = a.validateSignature(sig); c.note(std::string(right ? "right" : "wrong") + " signature " + std::to_string((now - until) / 1000000) + " ms after the deadline" + (open ? "" : ", no challenge open"));
    c.equal(st == Authenticator::ValidationStatus::kOk, want, "signature accepted"); if (open && right && !want) c.require(st == Authenticator::ValidationStatus::kDeadlinePassed, "a late signature is not reported as late"); if (open && !right && now <= until) c.require(st == Authenticator::ValidationStatus::kInvalidSignature, "a wrong signature is not reported as wrong");
    open = false; (want ? accepted : refused)++;
  }
  std::string text = src.bytes(200); std::string k2 = genSecret(src, false); c.equal(Authenticator::generateSignature(text, k2), hmac(k2, text), "signature");
  c.nontrivial(accepted > 0 && refused > 0);
}
VF_PROP(N05, secrets_and_arguments, 10000, 50000, vf::kNone) {
  std::string secret = src.chance(1, 4) ? src.bytes(31) : src.chance(1, 6) ? "" : genSecret(src, false); bool bad = !secret.empty() && secret.size() < 32; c.note("secret " + quote(secret));
  bool threw = false; std::unique_ptr<AuthenticationDispatcher> d; try { d.reset(new AuthenticationDispatcher(secret)); } catch (const FatalException &) { threw = true; } c.equal(threw, bad, "a secret of " + std::to_string(secret.size()) + " bytes refused"); bool threw2 = false; try { Authenticator a(secret); } catch (const FatalException &) { threw2 = true; } c.equal(threw2, bad, "a secret refused by the authenticator"); if (bad) { c.nontrivial(); return; }
  struct Who { bool auth = false; std::unique_ptr<Authenticator> a; std::string open; std::vector<std::string> all; }; std::vector<Who> who(2); std::vector<std::string> sigs; int good = 0, wrong = 0;
  while (src.more(12)) {
    VF_SPAN(src); size_t i = src.draw(2); Who &w = who[i]; bool before = w.auth; Args a; bool ok = false; int kind = (int) src.draw(3);
    if (kind == 0) { a = {"AUTH", src.flip() && !secret.empty() ? secret : spoil(src, secret)}; if (src.chance(1, 8)) a.push_back("x"); ok = !secret.empty() && a.size() == 2 && a[1] == secret; }
    else if (kind == 1) { std::string r; for (int k = 0; k < 64; k++) r += (char) src.draw(256); if (src.chance(1, 4)) r = spoil(src, r); a = {"HMAC_AUTH_GENERATE_CHALLENGE", r}; if (src.chance(1, 10)) a.push_back(r); }
    else { std::string sig = sigs.empty() || src.chance(1, 2) ? hmac(secret, w.all.empty() ? "x" : w.all.back()) : src.pick(sigs); if (src.chance(1, 3)) sig = spoil(src, sig); a = {"HMAC-AUTH-VALIDATE-CHALLENGE", sig}; if (src.chance(1, 10)) a.push_back(sig); ok = !secret.empty() && a.size() == 2 && !w.open.empty() && sig == hmac(secret, w.open); }
    for (auto &x : a) if (x.empty()) x = "e"; if (kind == 0) ok = !secret.empty() && a.size() == 2 && a[1] == secret;
    a[0] = respell(src, a[0]); RedisRequest r = toRequest(a); Value v = readOne(c, d->dispatch(r, w.auth, w.a).val, a[0]); c.note("connection " + std::to_string(i) + ": " + showArgs(a) + " -> " + v.show());
    if (kind == 1 && a.size() == 2 && a[1].size() == 64 && !secret.empty()) { c.require(v.t == '$', "no challenge given"); c.require(v.s.size() >= 128 && v.s.compare(0, 64, a[1]) == 0, "a weak challenge"); for (auto &x : who) for (auto &o : x.all) c.require(o.substr(64) != v.s.substr(64), "the same challenge twice"); w.open = v.s; w.all.push_back(v.s); sigs.push_back(hmac(secret, v.s)); }
    else if (kind == 1) c.require(v.isErr(), "a bad request for a challenge was answered " + v.show());
    if (kind == 2 && a.size() == 2) w.open.clear();
    if (kind != 1) { if (ok) c.require(v == vStatus("OK"), "rightful authentication answered " + v.show()); else c.require(v.isErr(), "wrongful authentication answered " + v.show()); (ok ? good : wrong)++; }
    if (secret.empty()) c.require(w.auth, "no password is set, yet not authorized"); else if (ok) c.require(w.auth, "authenticated, but not authorized"); else c.require(!w.auth || before, "authorized without proof");
  }
  c.nontrivial(good > 0 && wrong > 0);
}
namespace {
enum Auth { kNo, kYes, kMaybe };   // kMaybe: was authenticated, then an authentication command failed
struct Peer { std::unique_ptr<Client> cl; Auth auth = kNo; bool exempt = false; std::string open; bool late = false; int64_t openedAt = 0; std::vector<std::string> given; bool monitor = false; };
}
VF_PROP(N05, histories, 3000, 60000, vf::kNone) {
  ClockScope scope; std::string secret = src.chance(1, 12) ? "" : genSecret(src, true); bool strict = src.flip() && !secret.empty(); Node n(c, secret, strict); c.note("password " + quote(secret) + (strict ? ", also for localhost" : ""));
  static const std::vector<std::string> hosts = {"remote.example.org", "localhost", "localhost.localdomain", "localhost6", "localhost6.localdomain6", "localhost.example.org", "LOCALHOST", "mylocalhost", "127.0.0.1.example.org"};
  auto local = [](const std::string &h) { return h == "localhost" || h == "localhost.localdomain" || h == "localhost6" || h == "localhost6.localdomain6"; };
  std::vector<Peer> peers(2 + src.draw(3)); std::vector<std::string> sigs; std::map<std::string, std::string> data; int good = 0, bad = 0, kept = 0; std::string everything;
  auto connect = [&](size_t i) { Peer p; std::string h = src.flip() ? hosts[0] : src.pick(hosts); p.cl.reset(new Client(h)); p.exempt = secret.empty() || (local(h) && !strict); p.auth = p.exempt ? kYes : kNo; c.note("connection " + std::to_string(i) + " comes from " + h); peers[i] = std::move(p); };
  for (size_t i = 0; i < peers.size(); i++) connect(i);
  Client watcher(strict ? hosts[0] : "localhost"); auto authenticate = [&](Client &cl) { if (secret.empty() || !strict) return; Value ch = cl.ask(c, n.d(), {"HMAC_AUTH_GENERATE_CHALLENGE", std::string(64, 'w')}); Value ok = cl.ask(c, n.d(), {"HMAC_AUTH_VALIDATE_CHALLENGE", hmac(secret, ch.s)}); c.require(ok == vStatus("OK"), "a rightful client was refused: " + ok.show()); };
  authenticate(watcher); Client mon(strict ? hosts[0] : "localhost"); authenticate(mon); c.require(mon.ask(c, n.d(), {"MONITOR"}) == vStatus("OK"), "monitoring was refused");
  int64_t skew = 0;
  while (src.more(25)) {
    VF_SPAN(src); size_t i = src.draw(peers.size()); Peer &p = peers[i]; std::string me = "connection " + std::to_string(i);
    auto outcome = [&](const Value &v, bool ok, const std::string &what) {
      if (ok) { c.require(v == vStatus("OK"), me + ": " + what + " was rightful, answered " + v.show()); p.auth = kYes; good++; }
      else { c.require(v.isErr(), me + ": " + what + " was accepted: " + v.show()); if (p.auth == kYes) p.auth = kMaybe; bad++; }
      if (p.exempt) p.auth = kYes;
    };
    switch (src.weighted({3, 4, 5, 6, 2, 1, 2, 2})) {
      case 0: { std::string w = src.flip() && !secret.empty() ? secret : spoil(src, secret); if (w.empty()) w = "e"; Args a = {respell(src, "AUTH"), w}; if (src.chance(1, 10)) a.push_back(w); c.note(me + ": " + showArgs(a)); outcome(p.cl->ask(c, n.d(), a), !secret.empty() && a.size() == 2 && w == secret, "AUTH"); break; }
      case 1: {
        std::string r; for (int k = 0; k < 64; k++) r += (char) src.draw(256); if (src.chance(1, 6)) r = spoil(src, r); if (r.empty()) r = "e"; Args a = {respell(src, "HMAC_AUTH_GENERATE_CHALLENGE"), r}; Value v = p.cl->ask(c, n.d(), a); c.note(me + ": asks for a challenge with " + std::to_string(r.size()) + " bytes");
        if (r.size() == 64 && !secret.empty()) { c.require(v.t == '$' && v.s.size() >= 128 && v.s.compare(0, 64, r) == 0, me + ": asked for a challenge, got " + v.show()); for (auto &q : peers) for (auto &o : q.given) c.require(o.substr(64) != v.s.substr(64), "the same challenge twice"); p.open = v.s; p.openedAt = skew; p.given.push_back(v.s); sigs.push_back(hmac(secret, v.s)); everything += v.s; }
        else c.require(v.isErr(), me + ": a bad request for a challenge got " + v.show());
        if (p.auth == kYes) p.auth = kMaybe; if (p.exempt) p.auth = kYes; break; }
      case 2: {
        std::string sig; switch (src.weighted({5, 2, 2, 1})) { case 0: sig = p.given.empty() ? "e" : hmac(secret, p.given.back()); break; case 1: sig = sigs.empty() ? "e" : src.pick(sigs); break; case 2: sig = spoil(src, p.given.empty() ? std::string(32, 'e') : hmac(secret, p.given.back())); break; default: sig = secret.empty() ? "e" : secret; } if (sig.empty()) sig = "e";
        Args a = {respell(src, "HMAC_AUTH_VALIDATE_CHALLENGE"), sig}; bool late = skew - p.openedAt > 60000000000ll; bool ok = !secret.empty() && !p.open.empty() && !late && sig == hmac(secret, p.open); c.note(me + ": " + (ok ? "signs its challenge" : "wrong, late or unasked-for signature")); Value v = p.cl->ask(c, n.d(), a); outcome(v, ok, "a signature"); p.open.clear(); break; }
      case 3: {   // data commands, pipelined
        size_t k = 1 + src.draw(4); std::vector<Args> as; std::string b; for (size_t j = 0; j < k; j++) { std::string key(1, (char) ('a' + src.draw(3))); as.push_back(src.flip() ? Args{"SET", key, me + std::to_string(src.draw(1000))} : src.chance(1, 4) ? Args{"PING"} : Args{"GET", key}); b += encode(as.back()); }
        auto v = p.cl->send(c, n.d(), b, me); c.equal(v.size(), k, me + ": replies to a pipeline of " + std::to_string(k)); bool denied = v[0].isErr() && v[0].s.rfind("NOAUTH", 0) == 0; c.note(me + ": pipeline of " + std::to_string(k) + (denied ? " refused" : " accepted"));
        if (p.auth == kMaybe) p.auth = denied ? kNo : kYes; c.equal(denied, p.auth == kNo, me + ": refused"); kept += denied;
        for (size_t j = 0; j < k; j++) { if (denied) { c.require(v[j].isErr() && v[j].s.rfind("NOAUTH", 0) == 0, me + ": an unauthenticated client's " + showArgs(as[j]) + " answered " + v[j].show()); continue; } Value want; if (as[j][0] == "SET") { data[as[j][1]] = as[j][2]; want = vStatus("OK"); } else if (as[j][0] == "PING") want = vStatus("PONG"); else want = data.count(as[j][1]) ? vStr(data[as[j][1]]) : vNull(); c.equal(v[j], want, me + ": " + showArgs(as[j])); }
        break; }
      case 4: {   // blocks and other commands which must not get through either
        static const std::vector<std::vector<Args>> tries = {{{"MULTI"}, {"SET", "a", "sneaked"}, {"EXEC"}}, {{"MULTI"}, {"GET", "a"}, {"DISCARD"}}, {{"TX_READWRITE", packBlock({{"SET", "a", "sneaked"}, {"SET", "b", "sneaked"}}), "phantom"}}, {{"TX_READWRITE", packBlock({{"SET", "a", "sneaked"}, {"GET", "b"}}), "real"}}, {{"TX_READONLY", packBlock({{"GET", "a"}}), "real"}}, {{"PUBLISH", "x", "sneaked"}}, {{"SUBSCRIBE", "x"}}, {{"FLUSHALL"}}, {{"RAW_SCAN", "a"}}, {{"MONITOR"}}, {{"QUARKDB_INFO"}}, {{"CLIENT_ID"}}, {{"CONFIG_SET", "a", "b"}}, {{"DEBUG", "x"}}, {{"NOSUCH"}}, {{"RECOVERY_INFO"}}, {{"QUARKDB_CHECKPOINT", n.path + "-sneaked"}}};
        if (p.auth != kNo) break; auto &t = src.pick(tries); std::string b; for (auto &a : t) b += encode(a); c.note(me + ": tries " + showArgs(t[0])); auto v = p.cl->send(c, n.d(), b, me); c.require(!v.empty(), me + ": no answer"); kept++;
        for (auto &x : v) { bool shown = x.t == '*' || x.t == '$' || x.t == ':'; c.require(!shown, me + ": unauthenticated, yet shown " + x.show()); } c.require(v.back().isErr() || t.back()[0] == "DISCARD", me + ": unauthenticated, yet " + showArgs(t.back()) + " answered " + v.back().show());
        c.require(access((n.path + "-sneaked").c_str(), F_OK) != 0, "an unauthenticated client made a checkpoint"); break; }
      case 5: c.note("two minutes go by"); skew += 120000000000ll; gSkewNs = skew; break;
      case 6: { c.note(me + " is replaced"); connect(i); break; }
      default: {  // large requests are not even read from strangers
        if (p.auth == kMaybe) break; size_t k = 5 + src.draw(3); Args a = {"DEL"}; while (a.size() < k) a.push_back("nosuch" + std::to_string(a.size())); p.cl->raw.feed(encode(a)); auto v = p.cl->process(c, n.d(), me); c.note(me + ": sends a request of " + std::to_string(k) + " elements");
        if (p.auth == kNo) { c.require(p.cl->dead && v.empty(), me + ": a stranger's request of " + std::to_string(k) + " elements was read"); connect(i); } else c.require(v.size() == 1 && v[0] == vInt(0), me + ": an authenticated client's long request was not answered"); break; }
    }
  }
  for (auto &[k, v] : data) c.equal(watcher.ask(c, n.d(), {"GET", k}), vStr(v), "value of " + k + " at the end");
  Value keys = watcher.ask(c, n.d(), {"KEYS", "*"}); c.equal(keys.v.size(), data.size(), "keys at the end");
  std::string seen = mon.raw.sent(); if (!secret.empty()) c.require(seen.find(secret) == seen.npos, "the password is shown to a monitor"); c.require(seen.find("sneaked") == seen.npos, "a monitor saw a command of an unauthenticated client");
  c.nontrivial(good > 0 && bad > 1 && kept > 0);
}
VF_RULE(N05, "histories with rightful and wrongful attempts, and commands refused in between; a bad secret refused");

// ------------------------------------------------------------------------------------------------ N02, through a node: every command, any arguments, exactly one well-formed reply
VF_PROP(N02, every_command_answers, 2000, 40000, vf::kNone) {
  Node n(c); std::vector<std::unique_ptr<Client>> cl; for (int i = 0; i < 2; i++) cl.emplace_back(new Client(i ? "localhost" : "a\r\nb"));
  static const std::set<std::string> skip = {"debug", "monitor", "artificially_slow_write_never_use_this", "multi", "exec", "discard", "tx_readonly", "tx_readwrite", "multiop_read", "multiop_readwrite", "subscribe", "psubscribe", "unsubscribe", "punsubscribe", "quarkdb_manual_compaction"};
  std::vector<std::string> names; for (auto &[k, v] : redis_cmd_map) if (!skip.count(k)) names.push_back(k); Pool p = genPool(src); noEmpties(p); Model none; Mix mix{{fStr, 3}, {fHash, 3}, {fSet, 3}, {fDeq, 3}, {fLh, 3}, {fVh, 2}, {fCount, 1}, {fConfig, 1}}; int oks = 0, errs = 0;
  static const std::vector<std::string> special = {"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "*", "a*", "COUNT", "MATCH", "next:", "next:x", "cursor", "\r\n", "+OK\r\n", "$-1\r\n", "1.5", "nan", "12345678", "set", "get", "getname", "setname", "s#", "!", "MATCHLOC", "WITHLOCALITY", "count", "a\nb", "a\rb"};
  Client *mon = nullptr; Client monitor("m"); bool mons = src.chance(1, 3); if (mons) { monitor.ask(c, n.d(), {"MONITOR"}); mon = &monitor; } size_t seen = 0;
  while (src.more(40)) {
    VF_SPAN(src); Client &k = *cl[src.draw(2)]; Args a;
    auto key = [&] { return src.pick(p.keys); };
    if (src.chance(1, 3)) { static const std::vector<Args> shapes = {{"SCAN", "0"}, {"SCAN", "0", "MATCH", "a*"}, {"SCAN", "0", "COUNT", "2"}, {"HSCAN", "K", "0"}, {"HSCAN", "K", "0", "COUNT", "1"}, {"SSCAN", "K", "0"}, {"LHSCAN", "K", "0"}, {"LHSCAN", "K", "0", "COUNT", "1"}, {"LHSCAN", "K", "0", "MATCHLOC", "a"}, {"DEQUE_SCAN_BACK", "K", "0"}, {"DEQUE_SCAN_BACK", "K", "0", "COUNT", "1"}, {"RAW_SCAN", "K"}, {"RAW_SCAN", "!", "COUNT", "3"}, {"RAW_SCAN_TOMBSTONES", "K"}, {"RAW_GET_ALL_VERSIONS", "K"}, {"KEYS", "*"}, {"KEYS", "K"}, {"TYPE", "K"}, {"EXISTS", "K", "K"}, {"VHGETALL", "K"}, {"LHGET_WITH_FALLBACK", "K", "K", "K"}, {"LHDEL_WITH_FALLBACK", "K", "K", "K"}, {"LHSET_AND_DEL_FALLBACK", "K", "K", "K", "K", "K"}, {"CONVERT_HASH_FIELD_TO_LHASH", "K", "K", "K", "K", "K"}, {"LEASE_ACQUIRE", "K", "K", "10000"}, {"LEASE_GET", "K"}, {"LEASE_RELEASE", "K"}, {"LEASE_GET_PENDING_EXPIRATION_EVENTS"}, {"CLOCK_GET"}, {"CONVERT_STRING_TO_INT", "12345678"}, {"CONVERT_INT_TO_STRING", "1"}, {"CLIENT", "GETNAME"}, {"CLIENT", "SETNAME", "K"}, {"COMMAND_STATS"}, {"QUARKDB_HEALTH"}, {"QUARKDB_LEVEL_STATS"}, {"QUARKDB_CHECKPOINT", "K"}, {"PUBLISH", "K", "K"}, {"QUARKDB_VERIFY_CHECKSUM"}, {"FLUSHALL"}, {"HCLONE", "K", "K"}}; a = src.pick(shapes); for (auto &x : a) if (x == "K") x = key(); }
    else if (src.flip()) a = noEmpties(genCommand(src, p, mix, none)); else { a = {respell(src, src.pick(names))}; size_t m = src.draw(src.flip() ? 4 : 8); for (size_t i = 0; i < m; i++) switch (src.draw(5)) { case 0: a.push_back(src.pick(p.keys)); break; case 1: a.push_back(src.pick(p.fields)); break; case 2: { std::string b = src.bytes(9); a.push_back(b.empty() ? "e" : b); break; } default: a.push_back(src.pick(special)); } }
    std::string canon = lower(a[0]); for (auto &ch : canon) if (ch == '-') ch = '_'; if ((canon == "quarkdb_checkpoint" || canon == "raft_checkpoint") && a.size() > 1) a[1] = c.scratch() + "/cp";
    c.note(showArgs(a)); auto v = k.send(c, n.d(), encode(a), showArgs(a)); c.require(!k.dead, "the connection was given up on " + showArgs(a)); c.equal(v.size(), 1u, "replies to " + showArgs(a)); c.require(v[0].t != '>', "a push message in reply to " + showArgs(a)); (v[0].isErr() ? errs : oks)++; c.label((v[0].isErr() ? "refused " : "answered ") + canon);
    c.require(!v[0].isErr() || v[0].s.find("internal dispatching error") == v[0].s.npos || canon.rfind("quarkdb_", 0) == 0 || canon.rfind("raft_", 0) == 0, showArgs(a) + " is known but answered " + v[0].show());
  }
  if (mon) { std::string out = mon->raw.sent(); RespReader r(out); while (!r.atEnd()) { auto v = r.read(); if (!v) c.fail("a monitor received malformed data: " + r.error + " in " + quote(out.substr(r.pos > 60 ? r.pos - 60 : 0))); c.require(v->t == '+', "a monitor received " + v->show()); seen++; } c.require((int) seen <= oks + errs + 1, "a monitor saw more commands than were sent"); c.label("monitored"); }
  c.nontrivial(oks > 3 && errs > 1);
}
VF_RULE(N02, "a structured reply; text with line terminators or unusual bytes; sessions with answered and refused commands");

// ------------------------------------------------------------------------------------------------ N07, through a node: leases run on the server's clock
VF_PROP(N07, leases_through_a_node, 1200, 20000, vf::kNone) {
  Node n(c); Client a("x"), b("y"); struct Held { std::string by; int64_t dur; }; std::map<std::string, Held> held; int forged = 0, refusals = 0;
  while (src.more(20)) {
    VF_SPAN(src); Client &k = src.flip() ? a : b; std::string key(1, (char) ('a' + src.draw(3))), who = src.flip() ? "me" : "you"; int64_t dur = 1000000 + (int64_t) src.draw(1000000); bool multi = src.chance(1, 4); std::string name; Args q; Value want; auto it = held.find(key);
    switch (src.weighted({4, 2, 2, 3})) {
      case 0: q = {"LEASE_ACQUIRE", key, who, std::to_string(dur)}; if (it == held.end()) { want = vStatus("ACQUIRED"); held[key] = {who, dur}; } else if (it->second.by == who) { want = vStatus("RENEWED"); it->second.dur = dur; } else { want = vErr(""); refusals++; } break;
      case 1: q = {"LEASE_RELEASE", key}; want = it == held.end() ? vNull() : vStatus("OK"); held.erase(key); break;
      case 2: q = {"LEASE_GET", key}; want = it == held.end() ? vNull() : vStr("holder"); break;
      default: q = {respell(src, src.pick(kForged)), key, "forger", "100000", be8(src.flip() ? ~0ull >> 1 : 0)}; want = vErr(""); forged++;
    }
    bool isForged = q.back().size() == 8 && q.size() == 5; if (src.flip()) q[0] = respell(src, q[0]); Value got;
    if (multi) { auto v = k.send(c, n.d(), encode({"MULTI"}) + encode(q) + encode({"EXEC"}), "block"); c.equal(v.size(), 3u, "replies"); if (isForged) { c.require(v[1].isErr(), "a forged command was queued"); c.equal(v[2], vArr({}), "reply to EXEC"); got = v[1]; } else { c.equal(v[1], vStatus("QUEUED"), "queued"); c.require(v[2].t == '*' && v[2].v.size() == 1, "reply to EXEC: " + v[2].show()); got = v[2].v[0]; } } else got = k.ask(c, n.d(), q);
    c.note(showArgs(q) + (multi ? " in a block" : "") + " -> " + got.show());
    if (want == vStr("holder")) { c.require(got.t == '*' && got.v.size() == 2, showArgs(q) + " answered " + got.show()); c.equal(got.v[0].s, "HOLDER: " + held[key].by, "holder of lease " + key); std::string rem = got.v[1].s; c.require(rem.rfind("REMAINING: ", 0) == 0 && rem.size() > 14, "remaining time: " + quote(rem)); int64_t left = atoll(rem.c_str() + 11); c.require(left <= held[key].dur && left > held[key].dur - 300000, "lease " + key + " of " + std::to_string(held[key].dur) + " ms has " + rem); }
    else if (want.isErr()) c.require(got.isErr(), showArgs(q) + " answered " + got.show()); else c.equal(got, want, showArgs(q));
  }
  c.nontrivial(forged > 0 && refusals > 0);
}
