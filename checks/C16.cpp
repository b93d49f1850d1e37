// C16: the stand-alone filter.
#include "query.h"
pbt::Config pbt::config = {"C16", "Random queries and entries: (a) every entry a query returns is passed by dnstable_query_filter of that query; (b) on random entries of every kind the verdict equals the predicate rrtype, bailiwick and the four bounds on the entry's own times, and failure is reported exactly when the entry lacks a field the query restricts. Non-trivial: both verdicts occur.", 160000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 3; o.ip = s.chance(1, 4); o.huge_times = s.chance(1, 4); gen_db(s, db, o); Store st(db, gen_mode(s, db));
  Query q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_IP, QK_RAW})); q_bounds(s, db, q); q.aggr = s.flip();
  pbt::note("mode %d query %s\n  db %s", st.mode, q.describe().c_str(), describe(db).c_str());
  auto h = make_query(q); auto it = dnstable_reader_query(st.rd, h); size_t nret = 0, yes = 0, no = 0;
  drain(it, 100000, [&](struct dnstable_entry *e) { bool p = false; nret++; CHECK(dnstable_query_filter(h, e, &p) == dnstable_res_success && p, "a returned entry is not passed by the filter"); });
  dnstable_iter_destroy(&it);
  size_t n = 1 + s.below(10);
  for (size_t i = 0; i < n; i++) {
    Rec r; if (!db.items.empty() && !s.chance(1, 4)) { auto &x = s.pick(db.items); r = x.r; Tri t = x.in.begin()->second; if (s.chance(1, 3)) t = gen_tri(s, o); r.first = t.first; r.last = s.chance(1, 10) ? 0 : t.last; r.count = t.count; if (s.chance(1, 4)) r.type = s.pick(db.types); if (r.slice && slice_offset(r.type) != r.slice) r.slice = 0; } else r = gen_rec(s);
    auto e = decode(r.key(), r.val()); CHECK(e, "not decoded"); uint64_t f = r.first, l = r.eff_last();
    bool rr = r.kind == K_RRSET || r.kind == K_RDATA, tm = rr || r.kind == K_TIME, unavailable = false, pass = true; unsigned qt = q.kind == QK_IP ? (q.lo.size() == 4 ? 1 : 28) : q.type; bool dt = q.do_type || q.kind == QK_IP;
    if (dt || q.kind == QK_NAME) { if (!rr) unavailable = true; else if (dt ? r.type != qt : !is_name_type(r.type)) pass = false; }
    if (q.timed()) { if (!tm) unavailable = true; else { Tri t{f, l, 1}; if (!q_pass(q, t)) pass = false; } }
    if (q.do_bw) { if (r.kind != K_RRSET) unavailable = true; else if (r.bailiwick != q.bw) pass = false; }
    bool p = !pass; auto res = dnstable_query_filter(h, e, &p);
    pbt::note("entry %s", describe(r).c_str());
    if (unavailable) { if (res == dnstable_res_success) CHECK(!p, "an entry without the restricted field is passed"); }   // a restriction met earlier may already have excluded it
    else { CHECK(res == dnstable_res_success, "filter failed"); CHECK(p == pass, "filter %s the entry", p ? "passes" : "rejects"); (p ? yes : no)++; }
    dnstable_entry_destroy(&e);
  }
  dnstable_query_destroy(&h);
  if (pbt::want_sample()) pbt::sample("query %s: %zu returned, random entries %zu passed %zu rejected", q.describe().c_str(), nret, yes, no);
  if (yes && no) pbt::nontrivial(); if (nret) pbt::classify("with_results");
}
