// C11: time filters on aggregated results.
#include "query.h"
pbt::Config pbt::config = {"C11", "Random databases whose records are spread over up to six files with their own times and counts and exact, wide, missing or empty time-range entries; aggregated queries of every kind with random combinations of the four bounds (placed on, before and after stored times), over a setfile, a merger or one table; compared with merging all files first and filtering afterwards. Non-trivial: the bounds keep some but not all of the otherwise matching records.", 100000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 6; o.big = s.chance(1, 3); o.ip = s.chance(1, 4); o.huge_times = s.chance(1, 5); gen_db(s, db, o); Store st(db, s.chance(1, 8) ? gen_mode(s, db) : (int)SRC_SET);
  size_t nq = 1 + s.below(4);
  for (size_t i = 0; i < nq; i++) {
    Query q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_IP, QK_RAW})); q_bounds(s, db, q); if (s.chance(1, 2) && q.kind <= QK_NAME) { q.wild = q.wild ? q.wild : (int)W_LEFT; q.name = wire({}); q.plus = false; q.text = "*."; q.wild = q.kind == QK_RRSET ? W_LEFT : W_RIGHT; }
    pbt::note("mode %d query %s\n  db %s", st.mode, q.describe().c_str(), describe(db).c_str()); size_t n = 0; check_query(db, st, q, &n);
    Query u = q; for (auto &x : u.do_b) x = false; size_t all = total(evaluate(db, u, true));
    if (pbt::want_sample()) pbt::sample("mode %d query %s -> %zu of %zu records; %u files", st.mode, q.describe().c_str(), n, all, db.nfiles);
    if (q.timed() && n && n < all) pbt::nontrivial();
    if (q.timed()) pbt::classify("timed"); if (q.do_b[0] && q.do_b[3]) pbt::classify("loose_both"); if (q.do_b[1] || q.do_b[2]) pbt::classify("strict"); if (n && n < all) pbt::classify("some_filtered");
  }
}
