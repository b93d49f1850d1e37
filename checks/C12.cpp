// C12: unaggregated queries.
#include "query.h"
pbt::Config pbt::config = {"C12", "As C11 with aggregation switched off: every file's own observation, in key order and by first and last time within a key, filtered on its own; switching aggregation on for the same query gives the merge of the entries. Non-trivial: some record occurs in several files in the result.", 90000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 6; o.big = s.chance(1, 3); o.ip = s.chance(1, 4); bool timed = s.flip(); o.zero_last = !timed && s.flip(); o.huge_times = s.chance(1, 5); gen_db(s, db, o); Store st(db, SRC_SET);
  size_t nq = 1 + s.below(4);
  for (size_t i = 0; i < nq; i++) {
    Query q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_IP, QK_RAW})); if (timed) q_bounds(s, db, q); q.aggr = false;
    if (s.chance(1, 2) && q.kind <= QK_NAME) { q.name = wire({}); q.plus = false; q.text = "*."; q.wild = q.kind == QK_RRSET ? W_LEFT : W_RIGHT; }
    pbt::note("query %s\n  db %s", q.describe().c_str(), describe(db).c_str()); size_t n = 0; check_query(db, st, q, &n);
    auto g = evaluate(db, q, false); bool multi = false; for (size_t k = 0; k < g.size(); k++) if (g[k].m.size() > 1 || (k && g[k].it[0] == g[k - 1].it[0])) multi = true;
    Query a = q; a.aggr = true; check_query(db, st, a);
    if (pbt::want_sample()) pbt::sample("query %s -> %zu entries; %u files", q.describe().c_str(), n, db.nfiles);
    if (multi) pbt::nontrivial(); if (q.timed()) pbt::classify("timed"); if (n) pbt::classify("with_results"); if (multi) pbt::classify("several_files");
  }
}
