// C13: offsets.
#include "query.h"
pbt::Config pbt::config = {"C13", "Random queries of every kind (all filters, aggregation modes and sources) run without offset and with many offsets; the result must be the same list without its first N entries. The same query object is run several times, also with two iterators interleaved. Non-trivial: at least two results and an offset that skips some but not all.", 80000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 4; o.ip = s.chance(1, 4); gen_db(s, db, o); Store st(db, gen_mode(s, db));
  size_t nq = 1 + s.below(3);
  for (size_t i = 0; i < nq; i++) {
    Query q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_IP, QK_RAW})); if (q.kind <= QK_RAW && s.flip()) q_bounds(s, db, q); q.aggr = !s.chance(1, 2);
    if (s.chance(1, 2) && q.kind <= QK_NAME) { q.name = wire({}); q.plus = false; q.text = "*."; q.wild = q.kind == QK_RRSET ? W_LEFT : W_RIGHT; }
    auto h = make_query(q); auto all = run_query(st, h); size_t k = 1 + s.below(4);
    pbt::note("mode %d query %s: %zu results\n  db %s", st.mode, q.describe().c_str(), all.size(), describe(db).c_str());
    for (size_t j = 0; j < k; j++) {
      uint64_t n = s.chance(1, 10) ? s.u64() : s.below(all.size() + 3); pbt::note("offset %llu", (unsigned long long)n); OKQ(dnstable_query_set_offset(h, n), "set_offset failed");
      std::vector<Str> want(all.begin() + (n < all.size() ? n : all.size()), all.end());
      auto got = run_query(st, h); CHECK(got == want, "offset %llu: %zu results instead of %zu", (unsigned long long)n, got.size(), want.size());
      if (s.chance(1, 3)) { auto a = dnstable_reader_query(st.rd, h), b = dnstable_reader_query(st.rd, h); std::vector<Str> ra, rb; bool ea = false, eb = false;
        while (!ea || !eb) { bool x = s.flip(); if (x ? ea : eb) x = !x; struct dnstable_entry *e = nullptr; if (dnstable_iter_next(x ? a : b, &e) != dnstable_res_success) (x ? ea : eb) = true; else { (x ? ra : rb).push_back(canon(view(e))); dnstable_entry_destroy(&e); } }
        CHECK(ra == want && rb == want, "two iterators of one query at offset %llu: %zu and %zu results instead of %zu", (unsigned long long)n, ra.size(), rb.size(), want.size()); dnstable_iter_destroy(&a); dnstable_iter_destroy(&b); pbt::classify("interleaved"); }
      if (all.size() > 1 && n > 0 && n < all.size()) pbt::nontrivial(); if (n >= all.size()) pbt::classify("beyond_end"); else if (n) pbt::classify("inside");
    }
    if (pbt::want_sample()) pbt::sample("mode %d query %s -> %zu results, %zu offsets", st.mode, q.describe().c_str(), all.size(), k);
    dnstable_query_destroy(&h);
  }
}
