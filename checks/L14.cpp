// L14: time arithmetic.
#include "buf.h"
#include <time.h>
#include <math.h>
#include <errno.h>
extern "C" { void shim_ts(int, const struct timespec *, struct timespec *); int shim_ts_cmp(const struct timespec *, const struct timespec *); double shim_ts_to_double(const struct timespec *); void shim_ts_from_double(double, struct timespec *); void shim_gettime(int, struct timespec *); void shim_nanosleep(const struct timespec *); }
extern "C" { int __real_clock_gettime(clockid_t, struct timespec *); }
// a simulated clock while my_nanosleep() runs: every sleep may be interrupted part of the way
static bool sim; static __int128 simnow; static std::vector<uint64_t> cuts; static size_t ncut; static unsigned sleeps;
static int simsleep(const struct timespec *rq, struct timespec *rm, __int128 len) {
  if (++sleeps > 10000) { CHECK(false, "endless sleeping"); } CHECK(rq->tv_nsec >= 0 && rq->tv_nsec < 1000000000, "sleep for %lds+%ldns asked for", (long)rq->tv_sec, (long)rq->tv_nsec); if (len < 0) len = 0;
  if (ncut >= cuts.size()) { simnow += len; return 0; }
  uint64_t c = cuts[ncut++]; __int128 done = c == 0 ? 0 : c == 1 ? (len > 0 ? len - 1 : 0) : c == 2 ? len : (__int128)(c % 1000003) * len / 1000003; simnow += done; if (rm) { __int128 r = len - done; rm->tv_sec = (time_t)(r / 1000000000); rm->tv_nsec = (long)(r % 1000000000); } return EINTR; }
extern "C" int __real_nanosleep(const struct timespec *, struct timespec *);
extern "C" int __wrap_nanosleep(const struct timespec *rq, struct timespec *rm) { if (!sim) return __real_nanosleep(rq, rm); int r = simsleep(rq, rm, (__int128)rq->tv_sec * 1000000000 + rq->tv_nsec); if (r) { errno = r; return -1; } return 0; }
extern "C" int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
extern "C" int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) { if (!sim) return __real_clock_nanosleep(c, fl, rq, rm); __int128 t = (__int128)rq->tv_sec * 1000000000 + rq->tv_nsec; return (fl & TIMER_ABSTIME) ? simsleep(rq, nullptr, t - simnow) : simsleep(rq, rm, t); }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!sim) return __real_clock_gettime(c, ts); ts->tv_sec = (time_t)(simnow / 1000000000); ts->tv_nsec = (long)(simnow % 1000000000); return 0; }
pbt::Config pbt::config = {"L14", "Random normalised time values (negative, zero and large seconds, boundary nanoseconds) added, subtracted, compared and converted, against 128-bit integer arithmetic; one case in 16: a sleep interrupted up to 12 times at generated points of a simulated clock, which must last for the time asked for. Non-trivial: a carry or borrow between nanoseconds and seconds, or a time before 1970.", 15000000, 60};
void pbt_init() {}
typedef __int128 I;
static I tot(const struct timespec &t) { return (I)t.tv_sec * 1000000000 + t.tv_nsec; }
static struct timespec gen(Src &s) { struct timespec t; int64_t v = (int64_t)(s.u64() >> (2 + s.below(40))); t.tv_sec = s.chance(1, 3) ? -v : v; t.tv_nsec = s.flip() ? s.below(1000000000) : s.oneof<long>({0, 1, 999999999, 500000000, 999999998}); return t; }
static Str str(const struct timespec &t) { return std::to_string(t.tv_sec) + "s+" + std::to_string(t.tv_nsec) + "ns"; }
uint64_t pbt_fixed_count(bool) { return 2000; }
void pbt_fixed(uint64_t i) { // every integral second converts exactly
  for (int64_t d = -50; d < 50; d++) { double v = ((int64_t)i - 1000) * 4294967.0 * 1000 + d; struct timespec t; shim_ts_from_double(v, &t); CHECK((double)t.tv_sec == v && t.tv_nsec == 0, "%.1f becomes %s", v, str(t).c_str()); }
  struct timespec a, b, c; clock_gettime(CLOCK_MONOTONIC, &a); shim_gettime(CLOCK_MONOTONIC, &b); clock_gettime(CLOCK_MONOTONIC, &c); CHECK(tot(a) <= tot(b) && tot(b) <= tot(c), "my_gettime gives %s between %s and %s", str(b).c_str(), str(a).c_str(), str(c).c_str());
  if (i % 500 == 0) { struct timespec w = {0, 2000000}; clock_gettime(CLOCK_MONOTONIC, &a); shim_nanosleep(&w); clock_gettime(CLOCK_MONOTONIC, &c); CHECK(tot(c) - tot(a) >= 2000000, "my_nanosleep slept too short"); }
}
static void t_sleep(Src &s) {
  struct timespec w; w.tv_sec = s.oneof<long>({0, 0, 1, 2, 59, 86400, 4294967296L}) + (s.chance(1, 4) ? (long)s.below(1000) : 0); w.tv_nsec = s.flip() ? s.below(1000000000) : s.oneof<long>({0, 1, 999999999, 500000000}); struct timespec w0 = w;
  cuts.clear(); ncut = sleeps = 0; size_t k = s.size(12); for (size_t i = 0; i < k; i++) cuts.push_back(s.flip() ? s.below(3) : 3 + s.below(1000000)); simnow = (I)s.below(2000000000) * 1000000000 + s.below(1000000000); I t0 = simnow; pbt::note("sleep %s with %zu interruptions", str(w).c_str(), k); if (pbt::want_sample()) pbt::sample("sleep %s with %zu interruptions", str(w).c_str(), k);
  sim = true; errno = 0; shim_nanosleep(&w); sim = false; I el = simnow - t0; CHECK(tot(w) == tot(w0), "the duration was changed"); CHECK(el >= tot(w) && el <= tot(w) + 1000, "slept %.9f s", (double)el / 1e9); if (k) pbt::nontrivial(); pbt::classify("sleeps");
}
void pbt_case(Src &s) {
  if (s.chance(1, 16)) { t_sleep(s); return; }
  struct timespec a = gen(s), b = gen(s), r; if (s.chance(1, 6)) b = a; if (s.chance(1, 6)) b.tv_sec = a.tv_sec;
  pbt::note("a=%s b=%s", str(a).c_str(), str(b).c_str()); if (pbt::want_sample()) pbt::sample("a=%s b=%s", str(a).c_str(), str(b).c_str());
  I ta = tot(a), tb = tot(b); r = b; shim_ts(0, &a, &r); CHECK(tot(r) == ta + tb && r.tv_nsec >= 0 && r.tv_nsec < 1000000000, "sum is %s", str(r).c_str());
  r = b; shim_ts(1, &a, &r); CHECK(tot(r) == tb - ta && r.tv_nsec >= 0 && r.tv_nsec < 1000000000, "b-a is %s", str(r).c_str());
  int c = shim_ts_cmp(&a, &b), w = ta < tb ? -1 : ta > tb; CHECK((c > 0) - (c < 0) == w, "comparison gives %d", c); CHECK(shim_ts_cmp(&a, &a) == 0, "a differs from itself");
  double d = shim_ts_to_double(&a); long double ex = (long double)a.tv_sec + (long double)a.tv_nsec / 1e9L; long double tol = fabsl(ex) * 4e-16L + 1e-15L; CHECK(fabsl((long double)d - ex) <= tol, "to_double gives %.12f", d);
  shim_ts_from_double(d, &r); CHECK(r.tv_nsec >= 0 && r.tv_nsec < 1000000000, "from_double(%.12f) is not normalised: %s", d, str(r).c_str());
  long double back = (long double)r.tv_sec + (long double)r.tv_nsec / 1e9L; CHECK(fabsl(back - (long double)d) <= fabsl((long double)d) * 4e-16L + 3e-9L, "from_double(%.12f) gives %s", d, str(r).c_str());
  if (a.tv_nsec + b.tv_nsec >= 1000000000 || b.tv_nsec < a.tv_nsec || a.tv_sec < 0) pbt::nontrivial(); if (a.tv_sec < 0) pbt::classify("negative"); if (llabs(a.tv_sec) > 2147483647) pbt::classify("beyond_32_bit");
}
