// C07: RRset queries.
#include "query.h"
pbt::Config pbt::config = {"C07", "Random databases over adversarially similar names (labels of 0xff octets, wildcard characters, length-octet look-alikes, upper case), one or several files behind a single table, a merger or a setfile; RRset queries by exact name, left/right, */+ wildcards with rrtype, bailiwick, case and aggregation options; result compared with evaluating the query on every record. Non-trivial: between one and all RRsets match.", 120000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = s.chance(1, 2) ? 1 : 4; o.zero_last = s.chance(1, 4); o.big = s.chance(1, 3); gen_db(s, db, o); Store st(db, gen_mode(s, db));
  size_t nq = 1 + s.below(4), all = 0; for (auto &i : db.items) all += i.r.kind == K_RRSET;
  for (size_t i = 0; i < nq; i++) {
    Query q = gen_query(s, db, QK_RRSET); q.aggr = !s.chance(1, 3);
    pbt::note("mode %d query %s\n  db %s", st.mode, q.describe().c_str(), describe(db).c_str()); size_t n = 0; check_query(db, st, q, &n);
    if (pbt::want_sample()) pbt::sample("mode %d query %s -> %zu results; %zu RRsets in %u files", st.mode, q.describe().c_str(), n, all, db.nfiles);
    if (n && n < all) pbt::nontrivial();
    static const char *wn[] = {"exact", "left", "right"}; pbt::classify(wn[q.wild]); if (q.plus) pbt::classify("one_label"); if (q.do_type) pbt::classify("rrtype"); if (q.do_bw) pbt::classify("bailiwick"); if (n) pbt::classify("with_results"); if (st.mode == SRC_SET) pbt::classify("setfile");
  }
}
