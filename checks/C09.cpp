// C09: IP queries.
#include "query.h"
pbt::Config pbt::config = {"C09", "As C07 for IP queries: single addresses, prefixes of every length, ranges (also inverted ones) over databases where addresses collide with the leading octets of longer addresses followed by rrtype octets and label chains, and with short and empty rdata of other types. Non-trivial: the block contains some but not all rdata.", 120000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.ip = true; o.maxfiles = s.chance(2, 3) ? 1 : 3; o.big = s.chance(1, 2); gen_db(s, db, o); Store st(db, gen_mode(s, db));
  size_t nq = 1 + s.below(4), all = 0; for (auto &i : db.items) all += i.r.kind == K_RDATA;
  for (size_t i = 0; i < nq; i++) {
    Query q = gen_query(s, db, QK_IP); q.aggr = !s.chance(1, 3); if (s.chance(1, 6)) { q.do_type = true; q.type = s.oneof<unsigned>({1, 28, 16, 2}); q.type_text = type_name(q.type); }
    pbt::note("mode %d query %s\n  db %s", st.mode, q.describe().c_str(), describe(db).c_str()); size_t n = 0; check_query(db, st, q, &n);
    if (pbt::want_sample()) pbt::sample("mode %d query %s -> %zu results; %zu rdata records in %u files", st.mode, q.describe().c_str(), n, all, db.nfiles);
    if (n && n < all) pbt::nontrivial();
    pbt::classify(q.lo.size() == 4 ? "ipv4" : "ipv6"); if (q.text.find('/') != Str::npos) pbt::classify("prefix"); if (q.text.find('-') != Str::npos) pbt::classify("range"); if (n) pbt::classify("with_results");
  }
}
