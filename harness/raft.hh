// Shared by the raft checks: a client on an in-memory link, replies as the network library would deliver them.
#pragma once
#include "store.hh"
#include "Connection.hh"
#include "Formatter.hh"
#include "Link.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include "Status.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftCommon.hh"
#include "raft/RaftConfig.hh"
#include "raft/RaftContactDetails.hh"
#include "raft/RaftDirector.hh"
#include "raft/RaftDispatcher.hh"
#include "raft/RaftGroup.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftReplicator.hh"
#include "raft/RaftState.hh"
#include "raft/RaftTalker.hh"
#include "raft/RaftTimeouts.hh"
#include "raft/RaftTrimmer.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftWriteTracker.hh"
#include "pubsub/Publisher.hh"
#include "utils/InFlightTracker.hh"
#include <qclient/QClient.hh>

namespace raftcheck {
using namespace quarkdb;
using vf::quote;
using qclient::redisReplyPtr;

inline redisReply *rawReply(const Value &v) {
  switch (v.t) {
    case '+': return qclient::makeText(REDIS_REPLY_STATUS, v.s);
    case '-': return qclient::makeText(REDIS_REPLY_ERROR, v.s);
    case '$': return qclient::makeText(REDIS_REPLY_STRING, v.s);
    case ':': return qclient::makeInteger(std::stoll(v.s));
    case '0': return qclient::makeReply(REDIS_REPLY_NIL);
    default: { std::vector<redisReply *> e; for (auto &x : v.v) e.push_back(rawReply(x)); return qclient::makeArray(e); }
  }
}
inline redisReplyPtr reply(const Value &v) { return qclient::own(rawReply(v)); }
inline std::future<redisReplyPtr> ready(redisReplyPtr r) { std::promise<redisReplyPtr> p; p.set_value(std::move(r)); return p.get_future(); }
inline std::string encode(const Args &a) { std::string s = "*" + std::to_string(a.size()) + "\r\n"; for (auto &x : a) s += "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n"; return s; }
inline std::string le8(int64_t v) { std::string s(8, 0); memcpy(&s[0], &v, 8); return s; }
inline std::string packEntry(int64_t term, const Args &a) { std::string s = le8(term); for (auto &x : a) s += le8((int64_t) x.size()) + x; return s; }
inline RedisRequest req(const Args &a) { return toRequest(a); }
inline Args args(const RedisRequest &r) { Args a; for (size_t i = 0; i < r.size(); i++) a.emplace_back(r[i]); return a; }
inline std::string showServers(const std::vector<RaftServer> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x.toString(); return s; }

struct HostLink : MemLink { std::string host; explicit HostLink(std::string h) : host(std::move(h)) {} const char *Host() override { return host.c_str(); } };
struct Client {
  HostLink raw; Link link; std::unique_ptr<Connection> conn; size_t read = 0; bool dead = false;
  explicit Client(const std::string &host) : raw(host), link(&raw), conn(new Connection(&link)) {}
  void feed(const Args &a) { raw.feed(encode(a)); }
  void process(Dispatcher *d) { InFlightTracker tracker(true); for (int idle = 0; idle < 2 && !dead;) { size_t before = raw.unread(); if (conn->processRequests(d, tracker) < 0) dead = true; if (raw.unread() == before) idle++; } }
  // replies complete by now; nothing is left behind but a partial one
  std::vector<Value> replies(vf::Case &c, const std::string &what) {
    std::string out = raw.sent(), fresh = out.substr(read); RespReader r(fresh); std::vector<Value> got;
    while (!r.atEnd()) { size_t at = r.pos; auto v = r.read(); if (!v) { if (!r.error.empty()) c.fail(what + ": malformed reply: " + r.error + " in " + quote(fresh)); r.pos = at; break; } got.push_back(*v); }
    read += r.pos; return got;
  }
  // one request which is answered at once
  Value ask(vf::Case &c, Dispatcher *d, const Args &a) { feed(a); process(d); auto v = replies(c, showArgs(a)); c.equal(v.size(), 1u, "replies to " + showArgs(a)); return v[0]; }
};
struct NoConnectionLogs { NoConnectionLogs() { Link::setConnectionLogging(false); } };

struct Entry { RaftTerm term = 0; Args a; bool operator==(const Entry &o) const { return term == o.term && a == o.a; } bool operator!=(const Entry &o) const { return !(*this == o); } std::string show() const { return "(" + std::to_string(term) + ": " + showArgs(a) + ")"; } };
inline Entry entryAt(vf::Case &c, RaftJournal &j, LogIndex i) { RaftEntry e; c.require(j.fetch(i, e).ok(), "no journal entry " + std::to_string(i)); return Entry{e.term, args(e.request)}; }
}
