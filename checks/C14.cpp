// C14: timeouts and deadlines under a simulated clock.
#include "query.h"
#include <time.h>
pbt::Config pbt::config = {"C14", "Random queries of every kind and filter over all source types, run under a simulated clock that advances by random amounts at clock readings and table accesses, with a relative timeout, an absolute deadline or both; interrupted iterations are continued. Oracle: the same query without time limit; a timeout needs a reading at or after the limit, a result must not come after a limit already passed. Non-trivial: at least one timeout followed by further results.", 90000, 150};
static bool clk_on; static uint64_t clk_now, clk_last, clk_first; static unsigned clk_reads; static std::vector<uint32_t> clk_script; static size_t clk_pos;
static const uint64_t G = 1000000000ULL;
static void clk_step() { if (!clk_script.empty()) { clk_now += clk_script[clk_pos % clk_script.size()]; clk_pos++; } }
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!clk_on) return __real_clock_gettime(c, t);
  t->tv_sec = clk_now / G; t->tv_nsec = clk_now % G; clk_last = clk_now; if (clk_reads++ == 0) clk_first = clk_now; clk_step(); return 0;
}
static void tick() { if (clk_on) clk_step(); }
void pbt_init() { mtblx_tick = tick; }
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
static struct timespec ts(uint64_t n) { struct timespec t; t.tv_sec = n / G; t.tv_nsec = n % G; return t; }
static uint32_t gen_adv(Src &s) { return s.weighted({6, 3, 2, 2}) == 0 ? 0 : s.oneof<uint32_t>({1, 1, 2, 3, 5, 1000000000u, 999999999u, 500000000u, 4000000000u}); }
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 4; o.ip = s.chance(1, 4); o.big = s.chance(1, 3); gen_db(s, db, o); int mode = gen_mode(s, db);
  Query q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_IP, QK_RAW, QK_VERSION, QK_SOURCE, QK_TIME})); if (q.kind <= QK_RAW && s.flip()) q_bounds(s, db, q); q.aggr = !s.chance(1, 2);
  if (s.chance(1, 2) && q.kind <= QK_NAME) { q.name = wire({}); q.plus = s.chance(1, 4); q.text = q.plus ? "+." : "*."; q.wild = q.kind == QK_RRSET ? W_LEFT : W_RIGHT; }
  if (s.chance(1, 4) && q.kind <= QK_RAW) { q.has_offset = true; q.offset = s.below(4); }
  bool dt = s.chance(2, 3), dd = !dt || s.chance(1, 3); uint64_t T = s.oneof<uint64_t>({1, 2, 3, 4, 8, 0, G, G - 1, G + 1, 5 * G / 2}), now0 = s.oneof<uint64_t>({0, 5 * G, 5 * G + 999999999ULL, 7 * G - 3}), D = now0 + s.oneof<uint64_t>({3, 1, 0, 10, 30, G, 2 * G - 1, 100 * G});
  std::vector<uint32_t> script(1 + s.below(24)); for (auto &x : script) x = gen_adv(s);
  uint64_t raise = s.oneof<uint64_t>({4, 1, 20, G, 3 * G}); unsigned extra = s.below(3);
  pbt::note("mode %d query %s timeout %s%llu deadline %s%llu start %llu\n  db %s", mode, q.describe().c_str(), dt ? "" : "none ", (unsigned long long)T, dd ? "" : "none ", (unsigned long long)D, (unsigned long long)now0, describe(db).c_str());
  std::vector<Str> want, got; unsigned touts = 0, after = 0; bool gaveup = false;
  size_t live0 = pbt::live_bytes();
  { Store st(db, mode); auto h = make_query(q); want = run_query(st, h);
    struct timespec t; if (dt) { t = ts(T); OKQ(dnstable_query_set_timeout(h, &t), "set_timeout failed"); } if (dd) { t = ts(D); OKQ(dnstable_query_set_deadline(h, &t), "set_deadline failed"); }
    clk_script = script; clk_pos = 0; clk_now = now0; clk_reads = 0; clk_on = true; auto it = dnstable_reader_query(st.rd, h); CHECK(it, "no iterator");
    unsigned stuck = 0;
    for (;;) {
      struct dnstable_entry *e = nullptr; clk_reads = 0; uint64_t start = clk_now; dnstable_res r = dnstable_iter_next(it, &e); unsigned reads = clk_reads; uint64_t last = clk_last, first = clk_first;
      uint64_t lim = ~0ULL; if (dt) lim = std::min(lim, first + T); if (dd) lim = std::min(lim, D);
      if (r == dnstable_res_timeout) {
        CHECK(!e, "an entry together with a timeout"); CHECK(reads > 0 && last >= lim, "timeout at %llu before the limit %llu", (unsigned long long)last, (unsigned long long)lim); touts++; stuck++;
        if (stuck > extra) { // continue with more time
          if (dd && last >= D) { D = clk_now + raise; t = ts(D); dnstable_query_set_deadline(h, &t); }
          if (dt && stuck > 4 + extra) { T = T * 2 + 5; t = ts(T); dnstable_query_set_timeout(h, &t); }
          if (stuck > 30) clk_script.clear(); if (stuck > 60) { gaveup = true; break; } }
        continue; }
      stuck = 0;
      if (r == dnstable_res_success) { CHECK(e, "success without an entry"); CHECK(!(dd && start >= D), "a result although the deadline had passed"); CHECK(!(dt && T == 0), "a result within no time at all"); clk_on = false; got.push_back(canon(view(e))); dnstable_entry_destroy(&e); clk_on = true; if (touts) after++; }
      else { CHECK(r == dnstable_res_failure && !e, "next returned %d", r); break; }
      CHECK(got.size() <= want.size(), "more results than without a time limit");
    }
    clk_on = false; dnstable_iter_destroy(&it); dnstable_query_destroy(&h); }
  clk_script.clear(); clk_script.shrink_to_fit();
  CHECK(!gaveup, "timeouts without end although enough time is given"); CHECK(got == want, "%zu results with timeouts, %zu without", got.size(), want.size());
  std::vector<Str>().swap(got); std::vector<Str>().swap(want);
  size_t live1 = pbt::live_bytes(); CHECK(live1 <= live0, "%zu octets not released", live1 - live0);
  if (pbt::want_sample()) pbt::sample("mode %d query %s timeout %llu deadline %d: %u timeouts", mode, q.describe().c_str(), (unsigned long long)T, dd, touts);
  if (after) pbt::nontrivial(); if (touts) pbt::classify("timed_out"); if (dd) pbt::classify("deadline"); if (dt) pbt::classify("relative");
}
