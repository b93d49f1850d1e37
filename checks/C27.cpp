// C27: handles used in parallel.
#include "query.h"
#include "interleave.h"
pbt::Config pbt::config = {"C27", "Two or three threads, each with its own reader, queries, iterators, entries and formatters on one random database, doing a generated list of things (opening by file set or table, querying by every kind of query, rendering as text and JSON, filtering, reading counts, provoking error texts, merging values, enumerating), run by a deterministic scheduler which lets the generated choices decide at every memory access of the library (instrumented by the compiler) whether another thread goes on. Oracle: the same threads run one after the other; every result, rendering, count and error text has to be the same. Non-trivial: the threads were interleaved and all produced results.", 40000, 60};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
struct Act { Str key, val0, val1; int kind; Query q; Str bad; size_t a = 0, b = 0; int fmt = 0; };
static Str text_of(char *t) { Str o = t ? t : "(null)"; free(t); return o; }
static Str render(struct dnstable_entry *e, int fmt) {
  if (fmt == 0) return text_of(dnstable_entry_to_text(e)); if (fmt == 1) return text_of(dnstable_entry_to_json(e));
  auto f = dnstable_formatter_init(); dnstable_formatter_set_output_format(f, dnstable_output_format_json); dnstable_formatter_set_date_format(f, fmt & 1 ? dnstable_date_format_rfc3339 : dnstable_date_format_unix); dnstable_formatter_set_raw_rdata(f, fmt > 3); Str o = text_of(dnstable_entry_format(f, e)); dnstable_formatter_destroy(&f); return o; }
static void work(const DB &db, const std::vector<Act> &acts, int mode, std::vector<Str> &out) {
  struct dnstable_reader *rd = nullptr; std::vector<struct mtbl_reader *> mr; struct mtbl_merger *mg = nullptr;
  if (mode == SRC_SET) rd = dnstable_reader_init_setfile("mem:s");
  else { for (unsigned f = 0; f < db.nfiles; f++) mr.push_back(mtbl_reader_init(("mem:" + num(f)).c_str(), nullptr)); auto o = mtbl_merger_options_init(); mtbl_merger_options_set_merge_func(o, dnstable_merge_func, nullptr); mg = mtbl_merger_init(o); mtbl_merger_options_destroy(&o); for (auto r : mr) mtbl_merger_add_source(mg, mtbl_reader_source(r)); rd = dnstable_reader_init(mtbl_merger_source(mg)); }
  for (auto &a : acts) switch (a.kind) {
    case 0: { auto h = make_query(a.q); auto it = dnstable_reader_query(rd, h); struct dnstable_entry *e = nullptr; size_t n = 0; while (n++ < 200 && dnstable_iter_next(it, &e) == dnstable_res_success) { out.push_back(render(e, a.fmt)); bool p = false; dnstable_res r = dnstable_query_filter(h, e, &p); out.push_back(num(r) + (r == dnstable_res_success && p ? "+" : "-")); dnstable_entry_destroy(&e); }
      for (int i = 0; dnstable_stat_stage_to_str((dnstable_stat_stage)i); i++) for (int k = 0; dnstable_stat_category_to_str((dnstable_stat_category)k); k++) { bool ex = false; uint64_t v = 0; if (dnstable_iter_get_count(it, (dnstable_stat_stage)i, (dnstable_stat_category)k, &ex, &v) == dnstable_res_success && ex) out.push_back(num(i) + "/" + num(k) + "=" + num(v)); }
      dnstable_iter_destroy(&it); dnstable_query_destroy(&h); break; }
    case 1: { auto h = dnstable_query_init(qtype(a.q.kind)); dnstable_res r = dnstable_query_set_data(h, a.bad.c_str()); const char *m = dnstable_query_get_error(h); out.push_back("set_data " + num(r) + " " + (m ? m : "(null)")); r = dnstable_query_set_rrtype(h, a.bad.c_str()); m = dnstable_query_get_error(h); out.push_back("set_rrtype " + num(r) + " " + (m ? m : "(null)")); dnstable_query_destroy(&h); break; }
    case 2: { auto &x = db.items[a.a % db.items.size()], &y = db.items[a.b % db.items.size()]; Str v = tri_val(x.in.begin()->second), w = tri_val(y.in.begin()->second); uint8_t *m = nullptr; size_t n = 0; dnstable_merge_func(nullptr, (const uint8_t *)x.key.data(), x.key.size(), (const uint8_t *)v.data(), v.size(), (const uint8_t *)w.data(), w.size(), &m, &n); out.push_back("merged " + hex(Str((char *)m, n))); free(m); break; }
    case 5: { uint8_t *m = nullptr; size_t n = 0; dnstable_merge_func(nullptr, (const uint8_t *)a.key.data(), a.key.size(), (const uint8_t *)a.val0.data(), a.val0.size(), (const uint8_t *)a.val1.data(), a.val1.size(), &m, &n); out.push_back("types " + hex(Str((char *)m, n))); free(m); break; }
    case 3: { auto it = a.a % 3 == 0 ? dnstable_reader_iter_rrset(rd) : a.a % 3 == 1 ? dnstable_reader_iter_rdata(rd) : dnstable_reader_iter_rrset_names(rd); struct dnstable_entry *e = nullptr; size_t n = 0; while (n++ < 20 && dnstable_iter_next(it, &e) == dnstable_res_success) { out.push_back(render(e, a.fmt)); dnstable_entry_destroy(&e); } dnstable_iter_destroy(&it); break; }
    default: { auto &x = db.items[a.a % db.items.size()]; Str v = tri_val(x.in.begin()->second); auto e = dnstable_entry_decode((const uint8_t *)x.key.data(), x.key.size(), (const uint8_t *)v.data(), v.size()); if (e) { out.push_back(canon(view(e))); out.push_back(render(e, a.fmt)); dnstable_entry_destroy(&e); } } }
  dnstable_reader_destroy(&rd); mtbl_merger_destroy(&mg); for (auto &r : mr) mtbl_reader_destroy(&r);
}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 3; o.ip = s.chance(1, 4); o.huge_times = s.chance(1, 4); gen_db(s, db, o); if (db.items.empty()) return;
  mtblx_clear(); Str lines; for (unsigned f = 0; f < db.nfiles; f++) { Str n = "mem:" + num(f); put_file(n, db.files[f]); lines += n + "\n"; } mtblx_put_setfile("mem:s", lines.c_str());
  size_t nt = 2 + s.below(2); std::vector<std::vector<Act>> acts(nt); std::vector<int> mode(nt); Str d;
  for (size_t t = 0; t < nt; t++) { mode[t] = s.flip() ? SRC_SET : SRC_MERGER; size_t n = 1 + s.below(3); d += "\n  thread " + num(t) + ":";
    for (size_t i = 0; i < n; i++) { Act a; a.kind = s.weighted({6, 2, 1, 1, 2, 2}); a.q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_NAME, QK_IP, QK_RAW, QK_TIME, QK_VERSION})); if (a.kind == 0 && a.q.kind <= QK_RAW) { if (s.chance(1, 3)) q_bounds(s, db, a.q); a.q.aggr = mode[t] != SRC_SET || !s.chance(1, 4); if (s.chance(1, 3) && a.q.kind <= QK_NAME) { a.q.text = "*."; } }
      a.bad = s.oneof<Str>({"a..b", "1.2.3.4/99", "zz", "NOSUCH", "::/200", "9.9.9.9-1.1.1.1", ""}); a.a = s.below(1000); a.b = s.below(1000); a.fmt = s.below(6); if (a.kind == 5) { Rec r, x; r.kind = x.kind = K_NAME_FWD; r.owner = x.owner = s.pick(db.names); for (size_t k = 1 + s.size(3); k--;) r.types.insert(s.pick(db.types)); for (size_t k = 1 + s.size(3); k--;) x.types.insert(s.flip() ? s.pick(db.types) : (unsigned)s.below(300)); a.key = r.key(); a.val0 = r.val(); a.val1 = x.val(); } static const char *kn[] = {"query ", "errors", "merge", "enumerate", "decode", "merge types"}; d += Str(" ") + kn[a.kind] + (a.kind == 0 ? a.q.describe() : Str()) + ";"; acts[t].push_back(a); } }
  pbt::note("db %s%s", describe(db).c_str(), d.c_str());
  std::vector<std::vector<Str>> alone(nt), par(nt); for (size_t t = 0; t < nt; t++) work(db, acts[t], mode[t], alone[t]);
  std::vector<std::function<void()>> b; for (size_t t = 0; t < nt; t++) b.push_back([&, t] { work(db, acts[t], mode[t], par[t]); });
  sch::go(s, b, s.oneof<unsigned>({64, 8, 512, 4096}), 50000000);
  bool all = true; for (size_t t = 0; t < nt; t++) { if (alone[t].empty()) all = false; for (size_t i = 0; i < std::max(alone[t].size(), par[t].size()); i++) { const char *x = i < alone[t].size() ? alone[t][i].c_str() : "(end)", *y = i < par[t].size() ? par[t][i].c_str() : "(end)"; CHECK(!strcmp(x, y), "thread %zu, result %zu: %s in parallel, %s alone (%llu switches)", t, i, y, x, (unsigned long long)sch::switches); } }
  if (all && sch::switches > nt) pbt::nontrivial(); pbt::classify(sch::switches > 100 ? "over_100_switches" : sch::switches > 10 ? "over_10_switches" : "few_switches");
  if (pbt::want_sample()) pbt::sample("%zu threads, %llu switches at %llu points:%s", nt, (unsigned long long)sch::switches, (unsigned long long)sch::steps, d.substr(0, 400).c_str());
  mtblx_clear();
}
