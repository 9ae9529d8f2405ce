#pragma once
#include "engine.hh"
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>

// A byte string in a heap block of exactly its size, so that reading one byte past either end is a sanitizer error.
class Exact {
public:
  explicit Exact(std::string_view s) : n_(s.size()), p_((char *) malloc(s.size() ? s.size() : 1)) { memcpy(p_, s.data(), s.size()); }
  ~Exact() { free(p_); }
  Exact(const Exact &) = delete; Exact &operator=(const Exact &) = delete;
  std::string_view view() const { return n_ ? std::string_view(p_, n_) : std::string_view(p_ + 1, 0); }
  operator std::string_view() const { return view(); }
private:
  size_t n_; char *p_;
};
inline bool startsWith(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
