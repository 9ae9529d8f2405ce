// An independent reader of the redis serialization protocol.
#pragma once
#include "common.hh"
#include <optional>

struct Value {
  char t = '?';                 // + - : $ * >   and '0' for the null bulk / array
  std::string s;                // text, or the digits of an integer
  std::vector<Value> v;
  bool operator==(const Value &o) const { return t == o.t && s == o.s && v == o.v; }
  bool operator!=(const Value &o) const { return !(*this == o); }
  bool isErr() const { return t == '-'; }
  std::string show() const {
    if (t == '*' || t == '>') { std::string r = t == '>' ? "push[" : "["; for (size_t i = 0; i < v.size() && i < 40; i++) r += (i ? ", " : "") + v[i].show(); return r + (v.size() > 40 ? ", ... " + std::to_string(v.size()) + " items]" : "]"); }
    if (t == '0') return "nil";
    if (t == ':') return "(integer) " + s;
    if (t == '-') return "(error) " + vf::quote(s, 120);
    if (t == '+') return "+" + vf::quote(s, 80);
    return vf::quote(s, 80);
  }
};
inline std::ostream &operator<<(std::ostream &os, const Value &v) { return os << v.show(); }
inline Value vInt(int64_t i) { return {':', std::to_string(i), {}}; }
inline Value vUint(uint64_t i) { return {':', std::to_string(i), {}}; }
inline Value vStr(std::string s) { return {'$', std::move(s), {}}; }
inline Value vStatus(std::string s) { return {'+', std::move(s), {}}; }
inline Value vNull() { return {'0', "", {}}; }
inline Value vErr(std::string s) { return {'-', std::move(s), {}}; }
inline Value vArr(std::vector<Value> v) { return {'*', "", std::move(v)}; }
inline Value vStrs(const std::vector<std::string> &v) { Value r{'*', "", {}}; for (auto &x : v) r.v.push_back(vStr(x)); return r; }

struct RespReader {
  std::string_view in; size_t pos = 0; std::string error;
  bool incomplete = false;
  explicit RespReader(std::string_view s) : in(s) {}
  bool atEnd() const { return pos == in.size(); }
  std::optional<std::string> line() {
    size_t e = pos;
    while (e < in.size() && in[e] != '\r' && in[e] != '\n') e++;
    if (e >= in.size() || (in[e] == '\r' && e + 1 >= in.size())) { incomplete = true; return {}; }
    if (in[e] != '\r' || in[e + 1] != '\n') { error = "bare line terminator inside a line at offset " + std::to_string(e); return {}; }
    std::string r(in.substr(pos, e - pos)); pos = e + 2; return r;
  }
  static bool integer(const std::string &s) {
    size_t i = s.size() && s[0] == '-' ? 1 : 0; if (i == s.size() || s.size() > 20) return false;
    for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false;
    return true;
  }
  // nothing: malformed (error set) or incomplete
  std::optional<Value> read(int depth = 0) {
    if (depth > 6) { error = "nested too deeply"; return {}; }
    if (pos >= in.size()) { incomplete = true; return {}; }
    char t = in[pos++];
    auto l = [&] { return line(); };
    if (t == '+' || t == '-') { auto x = l(); if (!x) return {}; return Value{t, *x, {}}; }
    if (t == ':') { auto x = l(); if (!x) return {}; if (!integer(*x)) { error = "bad integer " + vf::quote(*x); return {}; } return Value{t, *x, {}}; }
    if (t == '$' || t == '*' || t == '>') {
      auto x = l(); if (!x) return {};
      if (!integer(*x)) { error = std::string("bad length after ") + t + ": " + vf::quote(*x); return {}; }
      if (*x == "-1" && t != '>') return vNull();
      if ((*x)[0] == '-') { error = "negative length " + *x; return {}; }
      size_t n = strtoull(x->c_str(), nullptr, 10);
      if (t == '$') {
        if (in.size() - pos < n + 2) { incomplete = true; return {}; }
        Value r{t, std::string(in.substr(pos, n)), {}}; pos += n;
        if (in.substr(pos, 2) != "\r\n") { error = "bulk string not terminated at offset " + std::to_string(pos); return {}; }
        pos += 2; return r;
      }
      Value r{t, "", {}};
      for (size_t i = 0; i < n; i++) { auto e = read(depth + 1); if (!e) return {}; r.v.push_back(*e); }
      return r;
    }
    error = "unknown type byte " + vf::quote(std::string(1, t)) + " at offset " + std::to_string(pos - 1);
    return {};
  }
};
// exactly one well-formed value
inline Value readOne(vf::Case &c, std::string_view wire, const std::string &what) {
  RespReader r(wire); auto v = r.read();
  if (!v) c.fail(what + ": reply is not valid protocol (" + (r.error.empty() ? "incomplete" : r.error) + "): " + vf::quote(wire));
  if (!r.atEnd()) c.fail(what + ": reply has trailing bytes after " + v->show() + ": " + vf::quote(wire));
  return *v;
}
