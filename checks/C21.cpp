// C21: any sequence of API calls.
#include "query.h"
pbt::Config pbt::config = {"C21", "Histories of up to 80 API calls over pools of readers, queries, iterators, entries and formatters: create, configure with valid and invalid values, execute, consume in part, time out, filter, format, reuse and destroy in any legal order; under AddressSanitizer, with every entry's content compared at the end with what it was at first and all heap bytes and tables accounted for. Non-trivial: an entry outlives its iterator, an iterator is dropped half-way, or a query is executed again.", 300000, 90};
void pbt_init() { time_t t = 0; struct tm tm; tzset(); gmtime_r(&t, &tm); localtime_r(&t, &tm); char b[40]; strftime(b, sizeof b, "%c %Z", &tm); }
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
struct Q { struct dnstable_query *h; int kind; bool have; unsigned iters = 0, runs = 0; };
struct R { struct dnstable_reader *r; unsigned iters = 0; };
struct I { struct dnstable_iter *it; int q, r; unsigned got = 0; bool end = false; };
struct E { struct dnstable_entry *e; Str text; int iter; };
static Str text_of(struct dnstable_entry *e) { char *t = dnstable_entry_to_text(e); CHECK(t, "no text"); Str o = t; free(t); t = dnstable_entry_to_json(e); CHECK(t, "no JSON"); o += t; free(t); return o; }
static void history(Src &s, const DB &db, Str &hist, bool &outlived, bool &dropped, bool &again, unsigned &calls) {
  std::vector<Q> qs; std::vector<R> rs; std::vector<I> is; std::vector<E> es; std::vector<struct dnstable_formatter *> fs; std::vector<struct mtbl_reader *> mr; struct mtbl_merger *mg = nullptr;
  for (unsigned f = 0; f < db.nfiles; f++) mr.push_back(mtbl_reader_init(("mem:" + num(f)).c_str(), nullptr));
  { auto o = mtbl_merger_options_init(); mtbl_merger_options_set_merge_func(o, dnstable_merge_func, nullptr); mg = mtbl_merger_init(o); mtbl_merger_options_destroy(&o); for (auto r : mr) mtbl_merger_add_source(mg, mtbl_reader_source(r)); }
  auto log = [&](const Str &x) { hist += " "; hist += x; if (hist.size() > 6000) hist.erase(0, 3000); pbt::note("  %s", x.c_str()); };
  auto kill_iter = [&](size_t i) { auto &x = is[i]; if (!x.it) return; log("-i" + num(i)); if (!x.end && x.got) dropped = true; for (auto &e : es) if (e.e && e.iter == (int)i) outlived = true; dnstable_iter_destroy(&x.it); CHECK(!x.it, "handle left"); if (s.chance(1, 8)) dnstable_iter_destroy(&x.it); if (x.q >= 0) qs[x.q].iters--; if (x.r >= 0) rs[x.r].iters--; };
  auto kill_q = [&](size_t i) { if (!qs[i].h) return; for (size_t j = is.size(); j-- > 0;) if (is[j].it && is[j].q == (int)i) kill_iter(j); log("-q" + num(i)); dnstable_query_destroy(&qs[i].h); CHECK(!qs[i].h, "handle left"); if (s.chance(1, 8)) dnstable_query_destroy(&qs[i].h); };
  auto kill_r = [&](size_t i) { if (!rs[i].r) return; for (size_t j = 0; j < is.size(); j++) if (is[j].it && is[j].r == (int)i) kill_iter(j); log("-r" + num(i)); dnstable_reader_destroy(&rs[i].r); CHECK(!rs[i].r, "handle left"); if (s.chance(1, 8)) dnstable_reader_destroy(&rs[i].r); };
  auto kill_e = [&](size_t i) { auto &x = es[i]; if (!x.e) return; if (x.text.size()) { Str t = text_of(x.e); CHECK(t == x.text, "an entry changed from %s to %s", x.text.c_str(), t.c_str()); } log("-e" + num(i)); dnstable_entry_destroy(&x.e); CHECK(!x.e, "handle left"); if (s.chance(1, 8)) dnstable_entry_destroy(&x.e); };
  auto live = [&](auto &v, auto get) -> int { std::vector<int> a; for (size_t i = 0; i < v.size(); i++) if (get(v[i])) a.push_back(i); return a.empty() ? -1 : a[s.below(a.size())]; };
  auto pq = [&] { return live(qs, [](Q &x) { return x.h != nullptr; }); }; auto pr = [&] { return live(rs, [](R &x) { return x.r != nullptr; }); }; auto pi = [&] { return live(is, [](I &x) { return x.it != nullptr; }); }; auto pe = [&] { return live(es, [](E &x) { return x.e != nullptr; }); };
  size_t n = 4 + s.size(76); calls = n;
  for (size_t step = 0; step < n; step++) switch (s.weighted({8, 3, 10, 6, 2, 2, 3, 3, 5, 1, 4, 1, 1, 3})) {
    case 0: { // configure
      int i = pq(); if (i < 0 || (qs[i].iters && !s.chance(1, 8))) { int k = s.below(7); Q x; x.kind = k; x.h = dnstable_query_init(qtype(k)); CHECK(x.h, "init"); x.have = k >= QK_TIME; qs.push_back(x); log("+q" + num(qs.size() - 1) + "(" + num(k) + ")"); i = qs.size() - 1; }
      Q &q = qs[i]; bool frozen = q.iters > 0; if (frozen) { struct timespec t = {1000000, 0}; log("q" + num(i) + ".timeout"); CHECK(dnstable_query_set_timeout(q.h, &t) == dnstable_res_success, "set_timeout"); break; }
      Query g = gen_query(s, db, q.kind); dnstable_res r = dnstable_res_success;
      switch (s.below(10)) {
      case 0: case 1: case 2: case 3: { Str v = g.text; if (s.chance(1, 6)) v = s.oneof<Str>({"", "*", "+.", "*.a.*", "zz", "..", "0", "1.2.3.4-::", "1.2.3.4/33", "a..b", "\\", "rdata", "00", "::/0", "abc"}); if (s.chance(1, 20)) v = Str(s.oneof<unsigned>({64, 255, 256, 1000, 70000}), s.oneof<char>({'a', '0', '.', '\\'})); v = v.c_str(); bool null = g.null_data || s.chance(1, 12);
        log("q" + num(i) + ".data(" + (null ? Str("NULL") : quote(v.substr(0, 80))) + ")"); r = dnstable_query_set_data(q.h, null ? nullptr : v.c_str()); if (r == dnstable_res_success && q.kind < QK_TIME) q.have = !null; break; }
      case 4: { bool null = s.chance(1, 6); Str v = s.chance(1, 4) ? Str(s.oneof<const char *>({"", "ANY", "TYPE70000", "nope", "any-dnssec"})) : type_query(s, s.pick(db.types)); log("q" + num(i) + ".rrtype(" + v + ")"); r = dnstable_query_set_rrtype(q.h, null ? nullptr : v.c_str()); break; }
      case 5: { bool null = s.chance(1, 6); Str v = present_var(s, s.pick(db.names)); if (s.chance(1, 5)) v += ".."; log("q" + num(i) + ".bailiwick"); r = dnstable_query_set_bailiwick(q.h, null ? nullptr : v.c_str()); break; }
      case 6: { if (q.kind > QK_RAW) break; uint64_t v = 98 + s.below(28); size_t len = s.chance(1, 8) ? s.below(17) : 8; uint64_t two[2] = {v, v}; log("q" + num(i) + ".bound"); r = dnstable_query_set_filter_parameter(q.h, q_param[s.below(4)], s.chance(1, 6) ? nullptr : two, len); break; }
      case 7: r = dnstable_query_set_aggregated(q.h, s.flip()); log("q" + num(i) + ".aggr"); break;
      case 8: r = dnstable_query_set_offset(q.h, s.below(4)); log("q" + num(i) + ".offset"); break;
      case 9: { struct timespec t = {s.flip() ? 0 : 1000000, (long)s.below(1000000000)}; if (s.flip()) r = dnstable_query_set_timeout(q.h, s.chance(1, 3) ? nullptr : &t); else { t.tv_sec = s.flip() ? 0 : 4000000000LL; r = dnstable_query_set_deadline(q.h, s.chance(1, 3) ? nullptr : &t); } log("q" + num(i) + ".limit"); break; }
      }
      if (r != dnstable_res_success) { const char *m = dnstable_query_get_error(q.h); CHECK(m && *m, "failure without a message"); }
      break; }
    case 1: { R x; switch (s.below(3)) { case 0: x.r = dnstable_reader_init_setfile("mem:s"); break; case 1: x.r = dnstable_reader_init(mtbl_merger_source(mg)); break; default: x.r = dnstable_reader_init(mtbl_reader_source(mr[s.below(mr.size())])); } CHECK(x.r, "reader"); rs.push_back(x); log("+r" + num(rs.size() - 1)); break; }
    case 2: { int q = pq(); if (q < 0 || !qs[q].have) break; int r = s.chance(1, 8) ? -1 : pr(); I x; x.q = q; x.r = r; log("+i" + num(is.size()) + "=q" + num(q) + (r < 0 ? Str("(source)") : "(r" + num(r) + ")")); x.it = r < 0 ? dnstable_query_iter(qs[q].h, mtbl_merger_source(mg)) : dnstable_reader_query(rs[r].r, qs[q].h); if (!x.it) break; if (qs[q].runs++) again = true; qs[q].iters++; if (r >= 0) rs[r].iters++; is.push_back(x); break; }
    case 3: { int i = pi(); if (i < 0) break; size_t c = 1 + s.below(4); log("i" + num(i) + ".next*" + num(c)); while (c--) { struct dnstable_entry *e = nullptr; dnstable_res r = dnstable_iter_next(is[i].it, &e); if (r != dnstable_res_success) { CHECK(!e, "entry with failure"); is[i].end |= r == dnstable_res_failure; break; } is[i].got++; E x; x.e = e; x.iter = i; bool keep = s.chance(2, 3); if (keep) x.text = text_of(e); es.push_back(x); if (!keep) kill_e(es.size() - 1); } break; }
    case 4: { int i = pi(); if (i >= 0) kill_iter(i); break; }
    case 5: { int i = pq(); if (i >= 0) kill_q(i); break; }
    case 6: { int i = pe(); if (i >= 0) kill_e(i); break; }
    case 7: { int i = pe(), f = live(fs, [](struct dnstable_formatter *&x) { return x != nullptr; }); if (i < 0) break; if (f < 0 || s.chance(1, 6)) { fs.push_back(dnstable_formatter_init()); f = fs.size() - 1; CHECK(fs[f], "formatter"); } dnstable_formatter_set_output_format(fs[f], s.flip() ? dnstable_output_format_text : dnstable_output_format_json); dnstable_formatter_set_raw_rdata(fs[f], s.flip()); dnstable_formatter_set_rdata_array(fs[f], s.flip()); dnstable_formatter_set_date_format(fs[f], s.flip() ? dnstable_date_format_unix : dnstable_date_format_rfc3339); log("f" + num(f) + ".format(e" + num(i) + ")"); char *t = dnstable_entry_format(fs[f], es[i].e); CHECK(t && *t, "nothing formatted"); free(t); if (s.chance(1, 6)) { dnstable_formatter_destroy(&fs[f]); CHECK(!fs[f], "handle left"); dnstable_formatter_destroy(&fs[f]); } break; }
    case 8: { int i = pe(), q = pq(); if (i < 0 || q < 0 || !qs[q].have || qs[q].kind > QK_RAW) break; log("q" + num(q) + ".filter(e" + num(i) + ")"); bool pass; dnstable_res r = dnstable_query_filter(qs[q].h, es[i].e, &pass); CHECK(r == dnstable_res_success || r == dnstable_res_failure, "filter returned %d", r); break; }
    case 9: { int i = pr(); if (i >= 0) kill_r(i); break; }
    case 10: { int r = pr(); if (r < 0) break; static struct dnstable_iter *(*const f[])(struct dnstable_reader *) = {dnstable_reader_iter, dnstable_reader_iter_rrset, dnstable_reader_iter_rrset_names, dnstable_reader_iter_rdata, dnstable_reader_iter_rdata_names, dnstable_reader_iter_time_range, dnstable_reader_iter_version, dnstable_reader_iter_source_info}; I x; x.q = -1; x.r = r; log("+i" + num(is.size()) + "=enum(r" + num(r) + ")"); x.it = f[s.below(8)](rs[r].r); CHECK(x.it, "iterator"); rs[r].iters++; is.push_back(x); break; }
    case 11: { int r = pr(); if (r < 0) break; bool busy = false; for (auto &x : is) if (x.it) busy = true; if (!busy) { log("r" + num(r) + ".reload"); dnstable_reader_reload_setfile(rs[r].r); } break; }
    case 12: { Rec r = gen_rec(s); auto e = decode(r.key(), r.val()); CHECK(e, "decode"); E x; x.e = e; x.iter = -1; x.text = text_of(e); es.push_back(x); log("+e" + num(es.size() - 1)); break; }
    case 13: { int i = pi(); if (i < 0) break; bool ex; uint64_t c; dnstable_iter_get_count(is[i].it, (dnstable_stat_stage)s.below(11), (dnstable_stat_category)s.below(5), s.flip() ? &ex : nullptr, s.chance(1, 8) ? nullptr : &c); int q = pq(); if (q >= 0) (void)dnstable_query_get_error(qs[q].h); break; }
    }
  // everything that is left goes in a random legal order
  for (;;) { int c = s.below(4); bool any = false; for (int k = 0; k < 4 && !any; k++) switch ((c + k) & 3) { case 0: { int i = pi(); if (i >= 0) { kill_iter(i); any = true; } break; } case 1: { int i = pe(); if (i >= 0) { kill_e(i); any = true; } break; } case 2: { int i = pq(); if (i >= 0) { kill_q(i); any = true; } break; } default: { int i = pr(); if (i >= 0) { kill_r(i); any = true; } } } if (!any) break; }
  for (auto &f : fs) dnstable_formatter_destroy(&f);
  mtbl_merger_destroy(&mg); for (auto &r : mr) mtbl_reader_destroy(&r); CHECK(mtblx_open_readers == 0, "%lu tables left open", mtblx_open_readers);
}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 4; o.ip = s.chance(1, 4); gen_db(s, db, o); mtblx_clear(); Str lines; for (unsigned f = 0; f < db.nfiles; f++) { Str n = "mem:" + num(f); put_file(n, db.files[f]); lines += n + "\n"; } mtblx_put_setfile("mem:s", lines.c_str());
  bool outlived = false, dropped = false, again = false; unsigned calls = 0; Str hist; hist.reserve(16384); Str keep; s.rec.reserve(20000); pbt::note("db %s", describe(db).c_str());
  size_t before = pbt::live_bytes(); history(s, db, hist, outlived, dropped, again, calls);
  size_t after = pbt::live_bytes(); 
  if (hist.capacity() == 16384 && s.rec.capacity() == 20000) CHECK(after <= before, "%zu octets not released", after - before);
  mtblx_clear(); if (pbt::want_sample()) pbt::sample("%u steps:%s", calls, hist.substr(0, 700).c_str());
  if (outlived || dropped || again) pbt::nontrivial(); if (outlived) pbt::classify("entry_outlives_iterator"); if (dropped) pbt::classify("iterator_dropped"); if (again) pbt::classify("query_rerun");
}
