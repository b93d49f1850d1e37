// Small choice-sequence property-based testing engine (see DESIGN.md, "Engine").
// A check is one function pbt_case(Src&) that draws every random decision from Src, builds an input or a history,
// runs the code under test and compares with an oracle.  The recorded choices are what is shrunk and replayed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>

namespace pbt {

struct Src {
  enum Mode { RNG, REPLAY, BYTES } mode = RNG;
  uint64_t st[2] = {1, 2};
  std::vector<uint64_t> rec;      // choices made
  const uint64_t *rep = nullptr; size_t nrep = 0;
  const uint8_t *by = nullptr; size_t nby = 0, bpos = 0;
  uint64_t raw();
  // uniform in [0,n); n==0 means the full 64-bit range.  0 is the simplest value.
  uint64_t below(uint64_t n);
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool flip() { return below(2) == 1; }
  // true with probability num/den; false is simplest
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  // index by weight; index 0 is simplest
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t t = 0; for (auto x : w) t += x;
    uint64_t v = below(t); size_t i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> T oneof(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  // 64-bit value biased to varint/bit boundaries and small numbers
  uint64_t u64();
  uint32_t u32() { return (uint32_t)u64(); }
  std::string bytes(size_t n) { std::string s(n, 0); for (auto &c : s) c = (char)below(256); return s; }
  // small size, geometric-ish, up to max
  size_t size(size_t max);
};

struct Config {
  const char *property;
  const char *rule;            // how cases are made and what makes one non-trivial
  uint64_t quick_cases;        // total random cases in the quick tier
  unsigned quick_cap_s = 120;  // stop early (still exit 0) on a slow machine
  unsigned thorough_s = 240;   // wall seconds of random search in the thorough tier
  bool nondet = false;         // depends on thread scheduling: reproduce by repetition
  unsigned cpu_limit_s = 30;   // one case may not burn more CPU than this
  unsigned workers = 8;
  unsigned wall_limit_s = 180; // one case may not take more wall time than this
  bool confirm = true;
};
extern Config config;          // defined by the target

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void nontrivial();                       // mark the current case as non-trivial (once)
void classify(const char *name, uint64_t n = 1);
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // describe the current case
bool want_sample();
size_t live_bytes();                     // heap bytes currently allocated
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // context shown on failure (reset per case)
bool verbose();
std::string hex(const void *p, size_t n);
inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
std::string quote(const std::string &s);
const char *tmpdir();                    // private scratch directory of this process (created on demand)
void known(const char *key);             // the current case hit a listed known finding (see KNOWN_FINDINGS)
}

// provided by the target
void pbt_case(pbt::Src &s);
void pbt_init();                         // once per process, before any case
uint64_t pbt_fixed_count(bool thorough); // number of enumerated cases
void pbt_fixed(uint64_t i);

#define CHECK(c, ...) do { if (!(c)) { pbt::note("%s:%d: CHECK(%s)", __FILE__, __LINE__, #c); pbt::fail(__VA_ARGS__); } } while (0)
