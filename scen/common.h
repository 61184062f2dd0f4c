// Helpers shared by the scenarios. Everything that belongs to the oracle runs inside sim::Quiet.
#pragma once
#include <sim.h>
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <future>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

static const int64_t MS = 1000000LL;
static const int64_t SEC = 1000000000LL;

// report the same observation for whichever of these properties is being decided
static inline void vio(std::initializer_list<const char*> props, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static inline void vio(std::initializer_list<const char*> props, const char* fmt, ...)
{
  char b[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  for (auto p : props)
    if (sim::accepts(p))
      sim::violate(p, "%s", b);
}

struct Rand  // deterministic bytes derived from one choice
{
  uint64_t s;
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
};
using Bytes = std::vector<uint8_t>;

static inline std::string hex(const Bytes& b, size_t max = 24)
{
  std::string s = "[" + std::to_string(b.size()) + "]";
  char t[4];
  for (size_t i = 0; i < b.size() && i < max; i++)
  {
    snprintf(t, sizeof t, "%02x", b[i]);
    s += t;
  }
  return s;
}
template <class Rep>
static bool ready(const std::shared_ptr<std::future<Rep>>& f)
{
  return f->wait_for(std::chrono::seconds(0)) == std::future_status::ready;
}
