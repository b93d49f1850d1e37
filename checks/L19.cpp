// L19: the rate limiter, under a simulated clock.
#include "pbt.h"
#include <time.h>
#include <errno.h>
typedef pbt::Src Src; typedef uint64_t u64;
extern "C" { struct my_rate *my_rate_init(unsigned, unsigned), *rel_rate_init(unsigned, unsigned); void my_rate_sleep(struct my_rate *), rel_rate_sleep(struct my_rate *), my_rate_destroy(struct my_rate **), rel_rate_destroy(struct my_rate **);
int __real_clock_gettime(clockid_t, struct timespec *); }
pbt::Config pbt::config = {"L19", "Rate limiters of random rates (1 to 10^6 per second) and adjustment intervals, driven by random histories of calls with pauses between them, wake-ups that come late and sleeps that are interrupted, under a simulated clock, built with and without clock_nanosleep(): without adjustment the number of returns in every window, the length of every sleep and calls that come late are compared with the rate; with adjustment, the average of a caller that is always ready. Non-trivial: at least ten calls of which at least five had to sleep.", 400000, 60};
static const u64 G = 1000000000ULL;
static bool on; static u64 now_, slept_to; static unsigned sleeps, intr; static u64 late, tick_; 
static struct timespec ts(u64 n) { struct timespec t; t.tv_sec = n / G; t.tv_nsec = n % G; return t; }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!on) return __real_clock_gettime(c, t); *t = ts(now_); now_ += tick_; return 0; }
extern "C" int __wrap_clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *) {
  CHECK(r->tv_sec >= 0 && r->tv_nsec >= 0 && r->tv_nsec < (long)G, "sleep of %lld.%09lld", (long long)r->tv_sec, (long long)r->tv_nsec); u64 n = r->tv_sec * G + r->tv_nsec; if (!(flags & TIMER_ABSTIME)) n += now_;
  if (n > now_) sleeps++, slept_to = n; now_ = std::max(now_, n) + late; return 0; }
extern "C" int __wrap_nanosleep(const struct timespec *r, struct timespec *rem) {
  CHECK(r->tv_sec >= 0 && r->tv_nsec >= 0 && r->tv_nsec < (long)G, "sleep of %lld.%09lld", (long long)r->tv_sec, (long long)r->tv_nsec); u64 n = r->tv_sec * G + r->tv_nsec; if (n > 3 && intr) { intr--; now_ += n / 2; if (rem) *rem = ts(n - n / 2); errno = EINTR; return -1; }
  if (n) sleeps++, slept_to = now_ + n; now_ += n + late; return 0; }
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  bool rel = s.flip(), adj = s.chance(1, 3); unsigned rate = s.weighted({3, 3, 2}) == 0 ? 1 + s.below(12) : s.flip() ? 1 + s.below(2000) : s.oneof<unsigned>({1, 2, 3, 7, 10, 60, 99, 100, 101, 999, 1000, 10000, 30000, 99999, 100000, 300000, 1000000});
  unsigned freq = !adj ? 0 : s.oneof<unsigned>({1, 2, 3, 10, 100}); u64 p = G / rate; size_t n = adj ? 300 + 120 * freq : 2 + s.size(120);
  u64 t0 = s.oneof<u64>({0, 1, G - 1, 5 * G, 1700000000 * G}) + s.below(G); bool jitter = s.flip(), pauses = s.flip(); tick_ = s.chance(1, 4) ? s.below(50) : 0;
  pbt::note("rate %u freq %u %s start %llu calls %zu tick %llu", rate, freq, rel ? "relative" : "absolute", (unsigned long long)t0, n, (unsigned long long)tick_);
  struct my_rate *r = (rel ? rel_rate_init : my_rate_init)(rate, freq); CHECK(r, "no limiter");
  std::vector<u64> ret; unsigned held = 0; now_ = t0; on = true; u64 first = 0;
  for (size_t i = 0; i < n; i++) {
    late = jitter ? (adj ? s.below(p / 4 + 1) : s.chance(1, 10) ? s.below(4 * p) : s.below(p / 2 + 1)) : 0; intr = s.chance(1, 8) ? s.below(3) : 0;
    u64 call = now_; sleeps = 0; if (!i) first = call; (rel ? rel_rate_sleep : my_rate_sleep)(r);
    if (!adj) {
      CHECK(!sleeps || slept_to <= call + p + 2 * tick_, "call %zu at %llu sleeps until %llu, more than a period", i, (unsigned long long)call, (unsigned long long)slept_to);
      if (i && call >= ret.back() + p) CHECK(!sleeps, "call %zu comes %llu ns after the one before and is held", i, (unsigned long long)(call - ret.back())); }
    if (sleeps) held++;
    ret.push_back(now_); now_ += pauses && s.chance(1, adj ? 10 : 4) ? s.below(adj ? 5 * p : 3 * p) : adj || s.flip() ? 0 : s.below(p / 2 + 1);
  }
  on = false; size_t mem = pbt::live_bytes(); (rel ? rel_rate_destroy : my_rate_destroy)(&r); CHECK(pbt::live_bytes() < mem, "the limiter is not released"); CHECK(!r, "the handle is not cleared"); (rel ? rel_rate_sleep : my_rate_sleep)(r); (rel ? rel_rate_destroy : my_rate_destroy)(&r);
  if (!adj) { // at most one return per period; rounding of the period to nanoseconds allowed for
    u64 q = p > 1 ? p - 1 : 1; u64 m = ~0ULL; size_t at = 0; // j - i - 1 <= (r_j - r_i) / q + ..., checked as r_j - (j) q >= r_i - (i + 1) q
    (void)m; (void)at; int64_t best = INT64_MIN; size_t bi = 0;
    for (size_t j = 0; j < ret.size(); j++) { int64_t v = (int64_t)(ret[j] - t0) - (int64_t)(j * q); if (best != INT64_MIN) CHECK(v >= best - (int64_t)q - (int64_t)(4 * tick_), "%zu calls return within %llu ns at %u per second", j - bi + 1, (unsigned long long)(ret[j] - ret[bi]), rate); if (v > best) best = v, bi = j; }
  } else { double avg = (double)n * G / (double)(ret.back() - first + p); CHECK(avg < rate * (pauses ? 1.25 : 1.05) && avg > rate * (pauses ? 0.87 : 0.95), "%.3f calls per second on average at a rate of %u", avg, rate); }
  if (pbt::want_sample()) pbt::sample("rate %u freq %u %s: %zu calls, %u held, %.6f s", rate, freq, rel ? "relative" : "absolute", n, held, (double)(ret.back() - first) / G);
  if (n >= 10 && held >= 5) pbt::nontrivial(); if (adj) pbt::classify("adjusting"); if (pauses) pbt::classify("pauses"); if (rate < 13) pbt::classify("low_rate");
}
