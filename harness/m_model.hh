// A reference model of the data model: what each command should answer and leave behind.
#pragma once
#include "resp.hh"
#include <cmath>
#include <deque>

using Args = std::vector<std::string>;
inline std::string showArgs(const Args &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + vf::quote(x, 40); return s; }
inline std::string lower(std::string s) { for (auto &c : s) c = (char) tolower((unsigned char) c); return s; }
inline std::string be8(uint64_t x) { std::string s(8, 0); for (int i = 0; i < 8; i++) s[i] = (char)(x >> (56 - 8 * i)); return s; }
inline uint64_t unbe8(std::string_view s) { uint64_t x = 0; for (int i = 0; i < 8; i++) x = x << 8 | (unsigned char) s[i]; return x; }

// canonical integers: optional sign, digits, in range
inline bool parseI(const std::string &s, int64_t &out) {
  size_t i = 0; bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
  if (i >= s.size()) return false;
  unsigned __int128 v = 0;
  for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > ((unsigned __int128) 1 << 64)) return false; }
  if (neg ? v > ((unsigned __int128) 1 << 63) : v >= ((unsigned __int128) 1 << 63)) return false;
  out = neg ? (int64_t) (0 - (uint64_t) v) : (int64_t) v; return true;
}
inline bool parseF(const std::string &s, double &out) {
  if (s.empty() || isspace((unsigned char) s[0]) || s.find('\0') != s.npos) return false;
  char *e; errno = 0; out = strtod(s.c_str(), &e); return *e == 0 && std::isfinite(out);
}

enum Kind : char { kNone = 0, kStr, kHash, kSet, kDeq, kLh, kLease, kVh };
struct Obj {
  Kind k = kNone;
  std::string str;                                             // string value, lease holder
  std::map<std::string, std::string> h;                        // hash, set (values empty), versioned hash
  std::deque<std::string> d;
  std::map<std::string, std::pair<std::string, std::string>> lh; // field -> hint, value
  uint64_t start = 0, end = 0, version = 0;                    // lease anchor and deadline; versioned hash version
  bool operator==(const Obj &o) const { return k == o.k && str == o.str && h == o.h && d == o.d && lh == o.lh && start == o.start && end == o.end && version == o.version; }
};
inline const char *typeName(Kind k) { static const char *n[] = {"none", "string", "hash", "set", "deque", "locality hash", "lease", "versioned hash"}; return n[k]; }

struct Revision { std::string key; uint64_t version; std::map<std::string, std::string> updates; };

class Model {
public:
  std::map<std::string, Obj> keys;
  std::map<std::string, std::string> config;
  uint64_t clock = 0;
  std::set<std::string> bumped;                    // versioned hashes already bumped by the running transaction
  std::map<std::string, std::map<std::string, std::string>> revision; // changes of the running transaction
  bool operator==(const Model &o) const { return keys == o.keys && config == o.config && clock == o.clock; }

  static Value wrongType() { return vErr("WRONGTYPE"); }
  static Value other() { return vErr(""); }
  // error texts are not part of the contract, only whether it is a type error
  static bool agree(const Value &got, const Value &want) {
    if (want.t == '-') return got.t == '-' && (want.s == "WRONGTYPE") == (got.s.find("WRONGTYPE") != got.s.npos);
    if (want.t == '*' && got.t == '*') { if (want.v.size() != got.v.size()) return false; for (size_t i = 0; i < want.v.size(); i++) if (!agree(got.v[i], want.v[i])) return false; return true; }
    return got == want;
  }

  std::vector<Revision> beginTx() { bumped.clear(); revision.clear(); return {}; }
  std::vector<Revision> endTx() {
    std::vector<Revision> out;
    for (auto &[k, u] : revision) { auto it = keys.find(k); out.push_back({k, it == keys.end() ? 0 : it->second.version, u}); }
    return out;
  }

  Value apply(const Args &a);
  std::vector<std::string> matching(const std::string &prefix) const { std::vector<std::string> r; for (auto &[k, o] : keys) if (startsWith(k, prefix)) r.push_back(k); return r; }
  const Obj *find(const std::string &k) const { auto it = keys.find(k); return it == keys.end() ? nullptr : &it->second; }
private:
  Obj *get(const std::string &k) { auto it = keys.find(k); return it == keys.end() ? nullptr : &it->second; }
  // existing or fresh object of that kind; null when the key holds another kind
  Obj *want(const std::string &k, Kind kind) { Obj *o = get(k); if (o && o->k != kind) return nullptr; if (!o) { o = &keys[k]; o->k = kind; } return o; }
  void tidy(const std::string &k) {
    Obj *o = get(k); if (!o) return;
    bool empty = (o->k == kHash || o->k == kSet) ? o->h.empty() : o->k == kDeq ? o->d.empty() : o->k == kLh ? o->lh.empty() : false;
    if (empty) keys.erase(k);
  }
  bool bad(const std::string &k, Kind kind) { Obj *o = get(k); return o && o->k != kind; }
  void advance(uint64_t t) {
    if (t <= clock) return;
    for (auto it = keys.begin(); it != keys.end();) if (it->second.k == kLease && it->second.end <= t) it = keys.erase(it); else ++it;
    clock = t;
  }
  Value hincrby(const std::string &k, const std::string &f, const std::string &by, int64_t &res) {
    int64_t inc, cur = 0; res = 0;
    if (!parseI(by, inc)) return other();
    if (bad(k, kHash)) return wrongType();
    Obj *o = get(k);
    if (o && o->h.count(f) && !parseI(o->h[f], cur)) return other();
    int64_t sum; if (__builtin_add_overflow(cur, inc, &sum)) return other();
    want(k, kHash)->h[f] = std::to_string(sum); res = sum; return vInt(sum);
  }
  Value lhset(const std::string &k, const std::string &f, const std::string &hint, const std::string &v) {
    if (k.empty() || f.empty() || hint.empty()) return other();
    Obj *o = want(k, kLh); if (!o) return wrongType();
    bool fresh = !o->lh.count(f); o->lh[f] = {hint, v}; return vInt(fresh);
  }
  Value hdel(const std::string &k, const std::vector<std::string> &fs, Kind kind) {
    if (bad(k, kind)) return wrongType();
    Obj *o = get(k); int64_t n = 0; if (o) for (auto &f : fs) n += o->h.erase(f);
    tidy(k); return vInt(n);
  }
  Value lhdel(const std::string &k, const std::vector<std::string> &fs) {
    if (k.empty()) return other(); for (auto &f : fs) if (f.empty()) return other();
    if (bad(k, kLh)) return wrongType();
    Obj *o = get(k); int64_t n = 0; if (o) for (auto &f : fs) n += o->lh.erase(f);
    tidy(k); return vInt(n);
  }
  Value lhget(const std::string &k, const std::string &f) {
    if (k.empty() || f.empty()) return other();
    if (bad(k, kLh)) return wrongType();
    Obj *o = get(k); if (!o || !o->lh.count(f)) return vNull(); return vStr(o->lh[f].second);
  }
  Value hget(const std::string &k, const std::string &f) {
    if (bad(k, kHash)) return wrongType();
    Obj *o = get(k); if (!o || !o->h.count(f)) return vNull(); return vStr(o->h[f]);
  }
};

inline Value Model::apply(const Args &a) {
  std::string c = lower(a[0]); for (auto &x : c) if (x == '-') x = '_';
  size_t n = a.size();
  auto rest = [&](size_t from) { return std::vector<std::string>(a.begin() + from, a.end()); };
  // ---- strings
  if (c == "set") { if (n != 3) return other(); Obj *o = want(a[1], kStr); if (!o) return wrongType(); o->str = a[2]; return vStatus("OK"); }
  if (c == "get") { if (n != 2) return other(); if (bad(a[1], kStr)) return wrongType(); Obj *o = get(a[1]); return o ? vStr(o->str) : vNull(); }
  // ---- key space
  if (c == "del") { if (n < 2) return other(); int64_t r = 0; for (auto &k : rest(1)) { if (keys.erase(k)) { r++; bumped.erase(k); revision.erase(k); } } return vInt(r); }
  if (c == "exists") { if (n < 2) return other(); int64_t r = 0; for (auto &k : rest(1)) r += keys.count(k); return vInt(r); }
  if (c == "type") { if (n != 2) return other(); Obj *o = get(a[1]); return vStatus(typeName(o ? o->k : kNone)); }
  if (c == "flushall") { if (n != 1) return other(); keys.clear(); bumped.clear(); revision.clear(); return vStatus("OK"); }
  // ---- hashes
  if (c == "hset") { if (n != 4) return other(); Obj *o = want(a[1], kHash); if (!o) return wrongType(); bool f = !o->h.count(a[2]); o->h[a[2]] = a[3]; return vInt(f); }
  if (c == "hsetnx") { if (n != 4) return other(); Obj *o = want(a[1], kHash); if (!o) return wrongType(); bool f = !o->h.count(a[2]); if (f) o->h[a[2]] = a[3]; return vInt(f); }
  if (c == "hmset") { if (n <= 3 || n % 2) return other(); Obj *o = want(a[1], kHash); if (!o) return wrongType(); for (size_t i = 2; i < n; i += 2) o->h[a[i]] = a[i + 1]; return vStatus("OK"); }
  if (c == "hincrby") { if (n != 4) return other(); int64_t r; return hincrby(a[1], a[2], a[3], r); }
  if (c == "hincrbymulti") { if (n < 4 || (n - 1) % 3) return other(); uint64_t sum = 0; for (size_t i = 1; i < n; i += 3) { int64_t r; hincrby(a[i], a[i + 1], a[i + 2], r); sum += (uint64_t) r; } return vInt((int64_t) sum); }
  if (c == "hincrbyfloat") {
    if (n != 4) return other();
    double inc, cur = 0; if (!parseF(a[3], inc)) return other();
    if (bad(a[1], kHash)) return wrongType();
    Obj *o = get(a[1]); if (o && o->h.count(a[2]) && !parseF(o->h[a[2]], cur)) return other();
    if (!std::isfinite(cur + inc)) return other();
    std::string s = std::to_string(cur + inc); want(a[1], kHash)->h[a[2]] = s; return vStr(s);
  }
  if (c == "hdel") { if (n <= 2) return other(); return hdel(a[1], rest(2), kHash); }
  if (c == "hclone") {
    if (n != 3) return other();
    if (bad(a[2], kHash)) return wrongType();
    if (get(a[2])) return other();
    Obj *s = get(a[1]); if (!s) return vStatus("OK"); if (s->k != kHash) return wrongType();
    Obj copy = *s; keys[a[2]] = copy; return vStatus("OK");
  }
  if (c == "hget") { if (n != 3) return other(); return hget(a[1], a[2]); }
  if (c == "hexists") { if (n != 3) return other(); if (bad(a[1], kHash)) return wrongType(); Obj *o = get(a[1]); return vInt(o && o->h.count(a[2])); }
  if (c == "hkeys" || c == "hvals" || c == "hgetall") {
    if (n != 2) return other(); if (bad(a[1], kHash)) return wrongType();
    Value r = vArr({}); Obj *o = get(a[1]);
    if (o) for (auto &[f, v] : o->h) { if (c != "hvals") r.v.push_back(vStr(f)); if (c != "hkeys") r.v.push_back(vStr(v)); }
    return r;
  }
  if (c == "hlen") { if (n != 2) return other(); if (bad(a[1], kHash)) return wrongType(); Obj *o = get(a[1]); return vInt(o ? o->h.size() : 0); }
  // ---- sets
  if (c == "sadd") { if (n <= 2) return other(); Obj *o = want(a[1], kSet); if (!o) return wrongType(); int64_t r = 0; for (auto &x : rest(2)) r += o->h.emplace(x, "").second; return vInt(r); }
  if (c == "srem") { if (n <= 2) return other(); return hdel(a[1], rest(2), kSet); }
  if (c == "smove") {
    if (n != 4) return other();
    if (bad(a[1], kSet) || bad(a[2], kSet)) return wrongType();
    Obj *s = get(a[1]); if (!s || !s->h.count(a[3])) return vInt(0);
    s->h.erase(a[3]); want(a[2], kSet)->h[a[3]] = ""; tidy(a[1]); return vInt(1);
  }
  if (c == "sismember") { if (n != 3) return other(); if (bad(a[1], kSet)) return wrongType(); Obj *o = get(a[1]); return vInt(o && o->h.count(a[2])); }
  if (c == "smembers") { if (n != 2) return other(); if (bad(a[1], kSet)) return wrongType(); Value r = vArr({}); Obj *o = get(a[1]); if (o) for (auto &[f, v] : o->h) r.v.push_back(vStr(f)); return r; }
  if (c == "scard") { if (n != 2) return other(); if (bad(a[1], kSet)) return wrongType(); Obj *o = get(a[1]); return vInt(o ? o->h.size() : 0); }
  // ---- deques
  if (c == "deque_push_front" || c == "deque_push_back") {
    if (n < 3) return other(); Obj *o = want(a[1], kDeq); if (!o) return wrongType();
    for (auto &x : rest(2)) if (c == "deque_push_front") o->d.push_front(x); else o->d.push_back(x);
    return vInt(o->d.size());
  }
  if (c == "deque_pop_front" || c == "deque_pop_back") {
    if (n != 2) return other(); if (bad(a[1], kDeq)) return wrongType();
    Obj *o = get(a[1]); if (!o) return vNull();
    std::string x; if (c == "deque_pop_front") { x = o->d.front(); o->d.pop_front(); } else { x = o->d.back(); o->d.pop_back(); }
    tidy(a[1]); return vStr(x);
  }
  if (c == "deque_trim_front" || c == "deque_clear") {
    int64_t keep = 0;
    if (c == "deque_clear") { if (n != 2) return other(); }
    else { if (n != 3) return other(); if (!parseI(a[2], keep) || keep < 0) return other(); }
    if (bad(a[1], kDeq)) return wrongType();
    Obj *o = get(a[1]); int64_t r = 0; if (o) while ((int64_t) o->d.size() > keep) { o->d.pop_front(); r++; }
    tidy(a[1]); return vInt(r);
  }
  if (c == "deque_len") { if (n != 2) return other(); if (bad(a[1], kDeq)) return wrongType(); Obj *o = get(a[1]); return vInt(o ? o->d.size() : 0); }
  // ---- configuration
  if (c == "config_set") { if (n != 3) return other(); config[a[1]] = a[2]; return vStatus("OK"); }
  if (c == "config_get") { if (n != 2) return other(); auto it = config.find(a[1]); return it == config.end() ? vNull() : vStr(it->second); }
  if (c == "config_getall") { if (n != 1) return other(); Value r = vArr({}); for (auto &[k, v] : config) { r.v.push_back(vStr(k)); r.v.push_back(vStr(v)); } return r; }
  // ---- locality hashes
  if (c == "lhset") { if (n != 5) return other(); return lhset(a[1], a[2], a[3], a[4]); }
  if (c == "lhmset") {
    if (n <= 4 || (n - 2) % 3) return other();
    for (size_t i = 2; i < n; i += 3) if (a[1].empty() || a[i].empty() || a[i + 1].empty()) return other();
    if (bad(a[1], kLh)) return wrongType();
    for (size_t i = 2; i < n; i += 3) lhset(a[1], a[i], a[i + 1], a[i + 2]);
    return vStatus("OK");
  }
  if (c == "lhdel") { if (n <= 2) return other(); return lhdel(a[1], rest(2)); }
  if (c == "lhlocdel") {
    if (n != 4) return other(); if (a[1].empty() || a[2].empty() || a[3].empty()) return other(); if (bad(a[1], kLh)) return wrongType();
    Obj *o = get(a[1]); if (!o || !o->lh.count(a[2]) || o->lh[a[2]].first != a[3]) return vInt(0);
    o->lh.erase(a[2]); tidy(a[1]); return vInt(1);
  }
  if (c == "lhget") { if (n != 3 && n != 4) return other(); return lhget(a[1], a[2]); }
  if (c == "lhlen") { if (n != 2) return other(); if (bad(a[1], kLh)) return wrongType(); Obj *o = get(a[1]); return vInt(o ? o->lh.size() : 0); }
  if (c == "lhset_and_del_fallback") {
    if (n != 6) return other();
    Value r = lhset(a[1], a[2], a[3], a[4]); if (!r.isErr()) hdel(a[5], {a[2]}, kHash); return r;
  }
  if (c == "lhdel_with_fallback") { if (n != 4) return other(); Value r = lhdel(a[1], {a[2]}); return r == vInt(1) ? r : hdel(a[3], {a[2]}, kHash); }
  if (c == "lhget_with_fallback") { if (n != 4 && n != 5) return other(); Value r = lhget(a[1], a[2]); return r.t != '0' ? r : hget(a[n - 1], a[2]); }
  if (c == "convert_hash_field_to_lhash") {
    if (n != 6) return other();
    if (lhget(a[3], a[4]).t == '$') return other();
    Value v = hget(a[1], a[2]); if (v.t == '0') return other(); if (v.isErr()) return v;
    Value r = lhset(a[3], a[4], a[5], v.s); if (r.isErr()) return r;
    hdel(a[1], {a[2]}, kHash); return vStatus("OK");
  }
  // ---- versioned hashes
  if (c == "vhset") {
    if (n != 4) return other(); Obj *o = want(a[1], kVh); if (!o) return wrongType();
    o->h[a[2]] = a[3]; if (bumped.insert(a[1]).second) o->version++;
    revision[a[1]][a[2]] = a[3]; return vUint(o->version);
  }
  if (c == "vhdel") {
    if (n <= 2) return other(); if (bad(a[1], kVh)) return wrongType();
    Obj *o = get(a[1]); if (!o) return vUint(0);
    bool any = false; for (auto &f : rest(2)) if (o->h.erase(f)) { any = true; revision[a[1]][f] = ""; }
    if (any && bumped.insert(a[1]).second) o->version++;
    return vUint(o->version);
  }
  if (c == "vhlen") { if (n != 2) return other(); if (bad(a[1], kVh)) return wrongType(); Obj *o = get(a[1]); return vInt(o ? o->h.size() : 0); }
  if (c == "vhgetall") {
    if (n != 2) return other(); if (bad(a[1], kVh)) return wrongType();
    Obj *o = get(a[1]); Value r = vArr({}); if (o) for (auto &[f, v] : o->h) { r.v.push_back(vStr(f)); r.v.push_back(vStr(v)); }
    return vArr({vUint(o ? o->version : 0), r});
  }
  // ---- leases (timestamped by the leader)
  if (c == "timestamped_lease_acquire") {
    if (n != 5) return other(); int64_t dur; if (!parseI(a[3], dur) || dur < 1) return other();
    if (a[2].empty()) return other();
    uint64_t t = unbe8(a[4]); advance(t); uint64_t now = std::max(t, clock);
    if (bad(a[1], kLease)) return wrongType();
    Obj *o = get(a[1]); bool had = o; if (had && o->str != a[2]) return other();
    o = want(a[1], kLease); o->str = a[2]; o->start = now; o->end = now + (uint64_t) dur;
    return vStatus(had ? "RENEWED" : "ACQUIRED");
  }
  if (c == "timestamped_lease_get") {
    if (n != 3) return other(); uint64_t t = unbe8(a[2]); advance(t);
    if (bad(a[1], kLease)) return wrongType();
    Obj *o = get(a[1]); if (!o) return vNull();
    return vArr({vStatus("HOLDER: " + o->str), vStatus("REMAINING: " + std::to_string(o->end - t) + " ms")});
  }
  if (c == "timestamped_lease_release") {
    if (n != 3) return other(); uint64_t t = unbe8(a[2]); advance(t);
    if (bad(a[1], kLease)) return wrongType();
    return keys.erase(a[1]) ? vStatus("OK") : vNull();
  }
  abort();
}
