// Stand-in for the qclient submodule, which is not part of this checkout: just enough of its interface for the sources
// of /repo to compile, with the network replaced by a transport which the harness provides.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <future>
#include <map>
#include <iostream>
#include <list>
#include <memory>
#include <queue>
#include <set>
#include <mutex>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <vector>

#define REDIS_REPLY_STRING 1
#define REDIS_REPLY_ARRAY 2
#define REDIS_REPLY_INTEGER 3
#define REDIS_REPLY_NIL 4
#define REDIS_REPLY_STATUS 5
#define REDIS_REPLY_ERROR 6
#define REDIS_REPLY_PUSH 7
struct redisReply { int type; long long integer; size_t len; char *str; size_t elements; redisReply **element; };

namespace qclient {
using redisReplyPtr = std::shared_ptr<redisReply>;
inline void freeReplyTree(redisReply *r) {
  if (!r) return;
  for (size_t i = 0; i < r->elements; i++) freeReplyTree(r->element[i]);
  free(r->element); free(r->str); delete r;
}
inline redisReply *makeReply(int type) { return new redisReply{type, 0, 0, nullptr, 0, nullptr}; }
inline redisReply *makeText(int type, std::string_view s) {
  // as hiredis does: a terminating NUL follows the text
  redisReply *r = makeReply(type); r->len = s.size(); r->str = (char *) malloc(s.size() + 1); memcpy(r->str, s.data(), s.size()); r->str[s.size()] = 0; return r;
}
inline redisReply *makeInteger(long long v) { redisReply *r = makeReply(REDIS_REPLY_INTEGER); r->integer = v; return r; }
inline redisReply *makeArray(const std::vector<redisReply *> &v) {
  redisReply *r = makeReply(REDIS_REPLY_ARRAY); r->elements = v.size(); r->element = (redisReply **) calloc(v.size() + 1, sizeof(void *));
  for (size_t i = 0; i < v.size(); i++) r->element[i] = v[i];
  return r;
}
inline redisReplyPtr own(redisReply *r) { return redisReplyPtr(r, freeReplyTree); }
inline std::string describeRedisReply(const redisReply *r, const std::string & = "") {
  if (!r) return "nullptr";
  std::ostringstream ss;
  switch (r->type) {
    case REDIS_REPLY_INTEGER: ss << "(integer) " << r->integer; break;
    case REDIS_REPLY_NIL: ss << "(nil)"; break;
    case REDIS_REPLY_ARRAY: ss << "["; for (size_t i = 0; i < r->elements; i++) ss << (i ? ", " : "") << describeRedisReply(r->element[i]); ss << "]"; break;
    case REDIS_REPLY_ERROR: ss << "(error) " << std::string(r->str, r->len); break;
    default: ss << "\"" << std::string(r->str, r->len) << "\"";
  }
  return ss.str();
}
inline std::string describeRedisReply(const redisReplyPtr &r) { return describeRedisReply(r.get()); }

// ---- TLS: inactive, bytes go straight through
struct TlsConfig { bool active = false; std::string certificatePath, keyPath, keyPassword; TlsConfig() {} TlsConfig(const std::string &a, const std::string &b, const std::string &c = "") : active(true), certificatePath(a), keyPath(b), keyPassword(c) {} };
enum class FilterType { SERVER, CLIENT };
struct RecvStatus { bool connectionAlive = true; int errcode = 0; int bytesRead = 0; RecvStatus() {} RecvStatus(bool a, int b, int c) : connectionAlive(a), errcode(b), bytesRead(c) {} };
using LinkStatus = int;
class TlsFilter {
public:
  TlsFilter(const TlsConfig &, FilterType, std::function<RecvStatus(char *, int, int)> r, std::function<LinkStatus(const char *, int)> s) : recv_(r), send_(s) {}
  RecvStatus recv(char *b, int n, int t) { return recv_(b, n, t); }
  LinkStatus send(const char *b, int n) { return send_(b, n); }
  LinkStatus close(int) { return 1; }
private:
  std::function<RecvStatus(char *, int, int)> recv_; std::function<LinkStatus(const char *, int)> send_;
};

// ---- options
enum class LogLevel { kFatal, kError, kWarn, kInfo, kDebug };
inline std::string logLevelToString(LogLevel) { return "LEVEL"; }
class Logger { public: virtual ~Logger() {} virtual void print(LogLevel, int, const std::string &, const std::string &) = 0; protected: LogLevel logLevel = LogLevel::kInfo; };
class Handshake {
public:
  enum class Status { INVALID, VALID_INCOMPLETE, VALID_COMPLETE };
  virtual ~Handshake() {}
  virtual std::vector<std::string> provideHandshake() = 0;
  virtual Status validateResponse(const redisReplyPtr &reply) = 0;
  virtual void restart() = 0;
  virtual std::unique_ptr<Handshake> clone() const = 0;
};
class SetClientNameHandshake : public Handshake {
public:
  SetClientNameHandshake(const std::string &n) : name(n) {}
  std::vector<std::string> provideHandshake() override { return {"CLIENT", "SETNAME", name}; }
  Status validateResponse(const redisReplyPtr &) override { return Status::VALID_COMPLETE; }
  void restart() override {}
  std::unique_ptr<Handshake> clone() const override { return std::make_unique<SetClientNameHandshake>(name); }
private:
  std::string name;
};
struct RetryStrategy { static RetryStrategy NoRetries() { return {}; } };
struct BackpressureStrategy { static BackpressureStrategy Default() { return {}; } };
struct Options {
  bool transparentRedirects = true; RetryStrategy retryStrategy; BackpressureStrategy backpressureStrategy; std::shared_ptr<Logger> logger; TlsConfig tlsconfig;
  std::string password; std::vector<std::unique_ptr<Handshake>> handshakes;
  void chainHmacHandshake(const std::string &p) { password = p; }
  void chainHandshake(std::unique_ptr<Handshake> h) { handshakes.push_back(std::move(h)); }
};

// ---- the network, provided by the harness
class Channel { public: virtual ~Channel() {} virtual std::future<redisReplyPtr> submit(std::vector<std::string> &&request) = 0; };
class Transport { public: virtual ~Transport() {} virtual std::unique_ptr<Channel> connect(const std::string &host, int port, Options &opts) = 0; };
inline Transport *&transport() { static Transport *t = nullptr; return t; }
inline std::future<redisReplyPtr> noReply() { std::promise<redisReplyPtr> p; p.set_value(nullptr); return p.get_future(); }

class QClient {
public:
  QClient(const std::string &host, int port, Options &&o) : opts_(std::move(o)) { if (transport()) channel_ = transport()->connect(host, port, opts_); }
  template <typename Container> std::future<redisReplyPtr> execute(const Container &c) {
    std::vector<std::string> v; for (size_t i = 0; i < c.size(); i++) v.emplace_back(c[i]);
    return channel_ ? channel_->submit(std::move(v)) : noReply();
  }
  template <typename... A> std::future<redisReplyPtr> exec(const A &...a) { return execute(std::vector<std::string>{std::string(a)...}); }
private:
  Options opts_; std::unique_ptr<Channel> channel_;
};
}
