// C10: raw rdata and metadata queries.
#include "query.h"
pbt::Config pbt::config = {"C10", "As C07 for raw rdata queries (complete rdata, prefixes, rdata continued by the rrtype and owner name octets that follow it in storage, both stored forms, mixed-case hex, with and without rrtype) and for version (all or one type), time-range and source-information queries. Non-trivial: some but not all records match, or metadata of several files is combined.", 120000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = s.chance(1, 2) ? 1 : 4; o.zero_last = s.chance(1, 4); o.huge_times = s.chance(1, 6); gen_db(s, db, o); Store st(db, gen_mode(s, db));
  size_t nq = 1 + s.below(4), all = 0; for (auto &i : db.items) all += i.r.kind == K_RDATA;
  for (size_t i = 0; i < nq; i++) {
    int k = s.oneof<int>({QK_RAW, QK_RAW, QK_RAW, QK_TIME, QK_VERSION, QK_SOURCE}); Query q = gen_query(s, db, k); q.aggr = !s.chance(1, 3);
    pbt::note("mode %d query %s\n  db %s", st.mode, q.describe().c_str(), describe(db).c_str()); size_t n = 0; check_query(db, st, q, &n);
    if (pbt::want_sample()) pbt::sample("mode %d query %s -> %zu results; %zu rdata records in %u files", st.mode, q.describe().c_str(), n, all, db.nfiles);
    if (k == QK_RAW ? n && n < all : n && db.nfiles > 1) pbt::nontrivial();
    static const char *kn[] = {"", "", "", "raw", "time_range", "version", "source_info"}; pbt::classify(kn[k]); if (n) pbt::classify("with_results"); if (q.do_type) pbt::classify("rrtype");
  }
}
