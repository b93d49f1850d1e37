// C17: iteration statistics.
#include "query.h"
pbt::Config pbt::config = {"C17", "Random databases and queries of every kind with filters, time bounds and offsets over setfiles, mergers and tables, aggregated or not; all counters are read before, between and after all results and compared with counts taken from the evaluated model (conservation laws). Non-trivial: some record is rejected by a time bound, a bailiwick or the offset.", 120000, 60};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
enum { FS, LABEL, RRTYPE, BW, PRE, REMOVE, FILL, LJOIN, TIME, OFFSET, NST };
enum { FILTERED, MERGED, SEEK, FILES, NCAT };
struct Counts { bool ex[NST][NCAT]; uint64_t n[NST][NCAT]; };
static const bool supported[NST][NCAT] = {{0, 1, 0, 1}, {1, 0, 1, 0}, {1, 0, 1, 0}, {1, 0, 0, 0}, {1, 0, 0, 0}, {1, 0, 1, 1}, {0, 1, 0, 1}, {0, 1, 1, 0}, {1, 0, 0, 0}, {1, 0, 0, 0}};
static Counts read_counts(struct dnstable_iter *it, Src &s) {
  Counts c; memset(&c, 0, sizeof c);
  for (int st = 0; st < NST; st++) for (int cat = 0; cat < NCAT; cat++) {
    bool ex = s.flip(); uint64_t n = 0x5555; dnstable_res r = dnstable_iter_get_count(it, (dnstable_stat_stage)st, (dnstable_stat_category)cat, &ex, &n);
    if (r == dnstable_res_success) { if (ex) CHECK(supported[st][cat], "stage %d reports a counter of category %d", st, cat); }
    else { CHECK(r == dnstable_res_failure, "get_count returned %d", r); CHECK(!ex, "get_count fails for stage %d category %d but says the counter exists", st, cat); }
    if (r != dnstable_res_success) n = 0;
    c.ex[st][cat] = ex; c.n[st][cat] = ex ? n : 0;
    uint64_t m = 0x7777; dnstable_res r2 = dnstable_iter_get_count(it, (dnstable_stat_stage)st, (dnstable_stat_category)cat, nullptr, &m); CHECK(r2 == r, "get_count without an exists argument returns %d instead of %d", r2, r); if (r == dnstable_res_success && ex) CHECK(m == n, "counter read twice: %llu, %llu", (unsigned long long)n, (unsigned long long)m);
  }
  return c;
}
static void bad_args(struct dnstable_iter *it, Src &s) {
  bool ex; uint64_t n; int st = s.below(NST), cat = s.below(NCAT);
  CHECK(dnstable_iter_get_count(it, (dnstable_stat_stage)st, (dnstable_stat_category)cat, &ex, nullptr) == dnstable_res_failure, "get_count without a place for the count succeeds");
  int bs = s.oneof<int>({NST, NST + 1, 1000, 0x7fffffff}), bc = s.oneof<int>({NCAT, NCAT + 1, 1000, 0x7fffffff});
  CHECK(dnstable_iter_get_count(it, (dnstable_stat_stage)bs, (dnstable_stat_category)cat, &ex, &n) == dnstable_res_failure, "get_count for unknown stage %d succeeds", bs);
  CHECK(dnstable_iter_get_count(it, (dnstable_stat_stage)st, (dnstable_stat_category)bc, &ex, &n) == dnstable_res_failure, "get_count for unknown category %d succeeds", bc);
}
static bool file_range(const Str &v, Rec &r) { size_t i = 0; uint64_t x[2]; for (int k = 0; k < 2; k++) { x[k] = 0; unsigned sh = 0; for (;; sh += 7) { if (i >= v.size() || sh > 63) return false; unsigned char c = v[i++]; x[k] |= (uint64_t)(c & 127) << sh; if (c < 128) break; } } r.first = x[0]; r.last = x[1]; return i == v.size(); }
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 6; o.big = s.chance(1, 3); o.ip = s.chance(1, 4); gen_db(s, db, o); int mode = gen_mode(s, db); Store st(db, mode);
  Query q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_IP, QK_RAW, QK_RRSET, QK_TIME, QK_VERSION, QK_SOURCE})); bool rec = q.kind <= QK_RAW;
  if (rec && s.chance(2, 3)) q_bounds(s, db, q); q.aggr = !s.chance(1, 4);
  if (s.chance(1, 2) && q.kind <= QK_NAME) { q.name = wire({}); q.plus = s.chance(1, 4); q.text = q.plus ? "+." : "*."; q.wild = q.kind == QK_RRSET ? W_LEFT : W_RIGHT; }
  if (rec && s.chance(1, 2)) { q.has_offset = true; q.offset = s.chance(1, 10) ? s.u64() & 0x7fffffffffffffffULL : s.below(6); }
  pbt::note("mode %d query %s offset %llu\n  db %s", mode, q.describe().c_str(), (unsigned long long)q.offset, describe(db).c_str());
  bool merged = st.merged(q); auto full = evaluate(db, q, merged); size_t nfull = total(full); bool opt = false; for (auto &g : full) opt |= g.opt;
  Query u = q; for (auto &b : u.do_b) b = false; auto untimed = evaluate(db, u, merged); for (auto &g : untimed) opt |= g.opt;
  Query v = u; v.do_bw = false; auto nobw = evaluate(db, v, merged);
  auto h = make_query(q); auto it = dnstable_reader_query(st.rd, h); CHECK(it, "no iterator");
  Counts c0 = read_counts(it, s), c = c0; bad_args(it, s);
  for (int i = 0; i < NST; i++) if (i != FS && i != FILL && i != LJOIN) CHECK(c.n[i][FILTERED] == 0, "stage %d has filtered %llu before the first result was asked for", i, (unsigned long long)c.n[i][FILTERED]);
  size_t got = 0; struct dnstable_entry *e;
  for (;;) {
    e = nullptr; dnstable_res r = dnstable_iter_next(it, &e); bool end = r != dnstable_res_success; if (!end) { got++; dnstable_entry_destroy(&e); }
    if (end || s.flip()) { Counts d = read_counts(it, s); for (int i = 0; i < NST; i++) for (int k = 0; k < NCAT; k++) { CHECK(d.ex[i][k] == c.ex[i][k], "counter %d/%d comes or goes during iteration", i, k); CHECK(d.n[i][k] >= c.n[i][k], "counter %d/%d went down from %llu to %llu", i, k, (unsigned long long)c.n[i][k], (unsigned long long)d.n[i][k]); } c = d; }
    if (end) break; CHECK(got <= nfull, "too many results");
  }
  auto n = [&](int i, int k) { return c.n[i][k]; }; typedef unsigned long long ull; bool set = mode == SRC_SET;
  // which stages take part
  CHECK(!c.ex[LABEL][FILTERED] || q.plus, "single label stage without a single-label wildcard"); CHECK(!c.ex[BW][FILTERED] || q.do_bw, "bailiwick stage without a bailiwick");
  CHECK(!c.ex[RRTYPE][FILTERED] || q.do_type || q.kind == QK_NAME || q.kind == QK_IP || q.kind == QK_RAW, "rrtype stage without an rrtype");
  CHECK(!(c.ex[TIME][FILTERED] || c.ex[PRE][FILTERED]) || q.timed(), "time stage without time bounds"); CHECK(c.ex[TIME][FILTERED] || !q.timed(), "no time stage although there are time bounds");
  CHECK(!(c.ex[REMOVE][FILTERED] || c.ex[FILL][FILES] || c.ex[LJOIN][MERGED]) || (set && q.timed() && q.aggr), "fill or remove stage where it has nothing to do");
  CHECK(c.ex[OFFSET][FILTERED] == (q.has_offset && q.offset > 0) || (q.has_offset && q.offset == 0), "offset stage and offset disagree");
  for (int k = 0; k < NCAT; k++) for (int i = 0; i < NST; i++) if (supported[i][k]) for (int k2 = 0; k2 < NCAT; k2++) if (supported[i][k2]) CHECK(c.ex[i][k] == c.ex[i][k2], "stage %d has a counter of category %d but none of category %d", i, k, k2);
  CHECK(c.ex[FS][MERGED], "fileset stage has no counters");
  // offset
  if (!opt && q.has_offset) { uint64_t skip = std::min<uint64_t>(q.offset, nfull); CHECK(n(OFFSET, FILTERED) == skip, "offset %llu of %zu results: %llu counted", (ull)q.offset, nfull, (ull)n(OFFSET, FILTERED)); CHECK(got == nfull - skip, "%zu results", got); }
  // files
  if (set) {
    ull all = n(FS, FILES) + n(FILL, FILES) + n(REMOVE, FILES); if (!q.timed() || q.aggr) CHECK(all == db.nfiles, "%llu + %llu + %llu files counted, the setfile has %u", (ull)n(FS, FILES), (ull)n(FILL, FILES), (ull)n(REMOVE, FILES), db.nfiles);
    CHECK(n(FS, FILES) <= db.nfiles, "%llu files of %u", (ull)n(FS, FILES), db.nfiles);
    if (!q.aggr && !opt) { std::set<unsigned> f; if (q.timed()) { for (auto &i : db.items) { Str od; if (q_match(q, i.r, od) == YES) for (auto &p : i.in) if (q_pass(q, p.second)) f.insert(p.first); } CHECK(n(FS, FILES) >= f.size(), "results come from %zu files, %llu are counted", f.size(), (ull)n(FS, FILES)); } }
    CHECK(n(FILL, FILES) == 0 || q.do_b[0] || q.do_b[3], "files used for completion only without a bound that needs it"); CHECK(n(REMOVE, FILES) == 0 || q.do_b[1] || q.do_b[2], "files used for removal without a strict bound");
  } else CHECK(n(FS, FILES) == 0 && n(FS, MERGED) == 0, "fileset counters without a fileset");
  bool whole = !set || n(FS, FILES) == db.nfiles;
  // every record dropped by the time bounds is counted once
  size_t nu = total(untimed), nb = total(nobw); ull dropped = n(PRE, FILTERED) + n(TIME, FILTERED) + n(REMOVE, FILTERED);
  if (!opt && rec) { if (whole) CHECK(dropped == nu - nfull, "%zu of %zu matching records fail the time bounds, %llu counted", nu - nfull, nu, dropped); else CHECK(dropped <= nu - nfull, "%zu of %zu matching records fail the time bounds, %llu counted", nu - nfull, nu, dropped); }
  if (!opt && rec && set && q.timed() && !whole) {
    // as documented at reader_time_filter(), files which cannot hold a result of their own are left out of the main sequence or used for completion or removal only; what is rejected in the remaining files is counted exactly
    std::vector<int> role(db.nfiles); ull nf = 0, nr = 0, nc = 0;
    for (unsigned f = 0; f < db.nfiles; f++) { auto x = db.files[f].find(Str(1, (char)K_TIME)); Rec tr; if (x == db.files[f].end() || x->second.empty() || !file_range(x->second, tr)) { nf++; continue; }
      if (q.do_b[1] && q.b[1] > tr.last) role[f] = 2; else if (q.do_b[3] && q.b[3] > tr.last) role[f] = 1; else if (q.do_b[2] && q.b[2] < tr.first) role[f] = 2; else if (q.do_b[0] && !q.do_b[3] && q.b[0] < tr.first) role[f] = 1; (role[f] == 2 ? nr : role[f] == 1 ? nc : nf)++; }
    if (nf == n(FS, FILES) && (!q.aggr || (nr == n(REMOVE, FILES) && nc == n(FILL, FILES)))) {
      ull exp = 0; Str od;
      for (auto &i : db.items) if (q_match(q, i.r, od) == YES) { if (q.aggr) { bool in = false; Tri t{}; bool first = true; for (auto &o2 : i.in) { in |= role[o2.first] == 0; if (first) t = o2.second; else { t.first = std::min(t.first, o2.second.first); t.last = std::max(t.last, o2.second.last); } first = false; } exp += in && !q_pass(q, t); } else for (auto &o2 : i.in) exp += role[o2.first] == 0 && !q_pass(q, o2.second); }
      CHECK(dropped == exp, "%llu matching records of the files in use fail the time bounds, %llu counted", exp, dropped); pbt::classify("selected_files_counted"); } }
  if (!opt && c.ex[BW][FILTERED]) { if (whole) CHECK(n(BW, FILTERED) == nb - nu, "%zu of %zu records have another bailiwick, %llu counted", nb - nu, nb, (ull)n(BW, FILTERED)); else CHECK(n(BW, FILTERED) <= nb - nu, "%zu of %zu records have another bailiwick, %llu counted", nb - nu, nb, (ull)n(BW, FILTERED)); }
  // every combination of two observations is counted
  if (set && rec && !opt) { ull need = 0; if (q.aggr) for (auto &g : full) need += g.it[0]->in.size() - 1; ull have = n(FS, MERGED) + n(FILL, MERGED) + n(LJOIN, MERGED); CHECK(have >= need, "%llu merges counted, the results need %llu", have, need); }
  // nothing more happens after the end
  for (int i = 0; i < 2; i++) { e = nullptr; CHECK(dnstable_iter_next(it, &e) != dnstable_res_success, "an entry after the end"); } Counts d = read_counts(it, s); CHECK(d.n[OFFSET][FILTERED] == n(OFFSET, FILTERED) && d.n[FS][FILES] == n(FS, FILES), "counters change after the end");
  if (s.chance(1, 4)) { auto r = dnstable_reader_iter(st.rd); bool ex = true; uint64_t x; CHECK(dnstable_iter_get_count(r, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &ex, &x) == dnstable_res_failure, "plain enumeration reports query statistics"); dnstable_iter_destroy(&r); }
  dnstable_iter_destroy(&it); dnstable_query_destroy(&h);
  if (pbt::want_sample()) pbt::sample("mode %d query %s offset %llu: %zu results of %zu, %llu dropped by time, files %llu+%llu+%llu", mode, q.describe().c_str(), (ull)q.offset, got, nu, dropped, (ull)n(FS, FILES), (ull)n(FILL, FILES), (ull)n(REMOVE, FILES));
  if (dropped || n(BW, FILTERED) || n(OFFSET, FILTERED)) pbt::nontrivial();
  if (dropped) pbt::classify("time_dropped"); if (n(BW, FILTERED)) pbt::classify("bailiwick_dropped"); if (n(OFFSET, FILTERED)) pbt::classify("offset_dropped"); if (n(FILL, FILES)) pbt::classify("fill_files"); if (n(REMOVE, FILES)) pbt::classify("remove_files"); if (n(LJOIN, MERGED)) pbt::classify("joined"); if (n(REMOVE, FILTERED)) pbt::classify("removed");
}
