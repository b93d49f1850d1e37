// C18: enumeration and setfile changes.
#include "query.h"
#include "json.h"
pbt::Config pbt::config = {"C18", "Random databases (with unknown and malformed keys mixed in) behind a setfile, a merger or one table; every enumeration of every kind is compared with the merged contents in key order; the setfile is rewritten and reloaded up to four times (files added, removed, reordered, repeated, missing), followed by enumerations and queries. Non-trivial: a reload changed the files, or several files share a key.", 40000, 60};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
static Str show_types(const TypeSet &t) { Str o; for (auto x : t) o += type_name(x) + ","; return o; }
// the entry a merged key/value stands for, "" if none
static Str expect(const Str &k, const std::vector<Str> &vals, const std::map<Str, const Item *> &items) {
  uint8_t t = k[0]; if (k.size() >= 2 && (t == K_RRSET || t == K_RDATA)) { auto i = items.find(k); if (i == items.end()) return ""; Tri a = {0, 0, 0}; bool first = true; for (auto &v : vals) { Tri x; size_t p = 0; unvarint(v, p, x.first); unvarint(v, p, x.last); unvarint(v, p, x.count); if (first) a = x; else tri_merge(a, x); first = false; } return canon(i->second->r, a); }
  if (t == K_NAME_FWD || t == K_NAME_REV) { Str n; size_t e; if (!name_at(k, 1, n, &e) || e != k.size()) return ""; TypeSet u; bool empty = false; for (auto &v : vals) { if (v.empty()) empty = true; else if (v.size() == 1) u.insert((uint8_t)v[0]); else if (v.size() == 2) u.insert((uint8_t)v[0] | (uint8_t)v[1] << 8); else { size_t i = 0; while (i + 2 <= v.size()) { int w = (uint8_t)v[i], l = (uint8_t)v[i + 1]; i += 2; for (int b = 0; b < l * 8; b++) if ((uint8_t)v[i + b / 8] & (0x80 >> (b & 7))) u.insert(w << 8 | b); i += l; } } } if (empty) u.clear(); return "N|" + num(t) + "|" + hex(t == K_NAME_FWD ? n : rev(n)) + "|" + show_types(u); }
  if (t == K_TIME || t == K_VERSION) { bool empty = false; uint64_t a = ~0ULL, b = 0; for (auto &v : vals) { if (v.empty()) { empty = true; continue; } size_t i = 0; uint64_t p = 0, w = 0; unvarint(v, i, p); if (t == K_TIME) unvarint(v, i, w); a = std::min(a, p); b = std::max(b, w); } if (empty) return ""; return t == K_TIME ? "T|" + num(a) + "|" + num(b) : "V|" + num((uint8_t)k[1]) + "|" + num(a); }
  if (t == K_SOURCE) return "S|" + hex(k.substr(1)); return ""; }
static Str canon_any(struct dnstable_entry *e) {
  dnstable_entry_type t = dnstable_entry_get_type(e); if (t != DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD && t != DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV) return canon(view(e));
  Str o = "N|" + num(t == DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD ? K_NAME_FWD : K_NAME_REV) + "|"; const uint8_t *d; size_t n; CHECK(dnstable_entry_get_rrname(e, &d, &n) == dnstable_res_success || dnstable_entry_get_rdata_name(e, &d, &n) == dnstable_res_success, "name entry without a name"); o += hex(d, n) + "|";
  char *js = dnstable_entry_to_json(e); J j; Str x = js; free(js); JP p(x); CHECK(p.parse(j), "JSON"); const J *l = j.get("rrtypes"); CHECK(l, "no rrtypes"); for (auto &y : l->a) o += y.s + ","; return o; }
static std::vector<Str> drain_any(struct dnstable_iter *it) { std::vector<Str> v; CHECK(it, "no iterator"); for (;;) { struct dnstable_entry *e = nullptr; if (dnstable_iter_next(it, &e) != dnstable_res_success) { CHECK(!e, "entry with failure"); break; } CHECK(e, "no entry"); v.push_back(canon_any(e)); dnstable_entry_destroy(&e); CHECK(v.size() < 100000, "endless enumeration"); } struct dnstable_entry *e = nullptr; CHECK(dnstable_iter_next(it, &e) == dnstable_res_failure && !e, "an entry after the end"); dnstable_iter_destroy(&it); CHECK(!it, "handle left"); return v; }
static DB subset(const DB &db, const std::set<unsigned> &l) { DB o = db; o.items.clear(); o.files.clear(); o.nfiles = 0; std::map<unsigned, unsigned> ix; for (auto f : l) { ix[f] = o.nfiles++; o.files.push_back(db.files[f]); } for (auto &i : db.items) { Item x = i; x.in.clear(); for (auto &p : i.in) if (ix.count(p.first)) x.in[ix[p.first]] = p.second; if (!x.in.empty()) o.items.push_back(x); } return o; }
static bool enumerate(Src &s, struct dnstable_reader *r, const DB &db) {
  std::map<Str, std::vector<Str>> m; for (auto &f : db.files) for (auto &x : f) m[x.first].push_back(x.second); std::map<Str, const Item *> items; for (auto &i : db.items) items[i.key] = &i; bool shared = false; for (auto &x : m) shared |= x.second.size() > 1;
  static const struct { int kind; struct dnstable_iter *(*f)(struct dnstable_reader *); const char *name; } k[] = {{-1, dnstable_reader_iter, "all entries"}, {K_RRSET, dnstable_reader_iter_rrset, "RRsets"}, {K_NAME_FWD, dnstable_reader_iter_rrset_names, "RRset names"}, {K_RDATA, dnstable_reader_iter_rdata, "rdata"}, {K_NAME_REV, dnstable_reader_iter_rdata_names, "rdata names"}, {K_TIME, dnstable_reader_iter_time_range, "time range"}, {K_SOURCE, dnstable_reader_iter_source_info, "source info"}, {K_VERSION, dnstable_reader_iter_version, "version"}};
  for (auto &x : k) { if (s.chance(1, 4)) continue; std::vector<Str> want; for (auto &y : m) if (x.kind < 0 || (uint8_t)y.first[0] == x.kind) { Str e = expect(y.first, y.second, items); if (!e.empty()) want.push_back(e); }
    auto got = drain_any(x.f(r)); for (size_t i = 0; i < want.size() || i < got.size(); i++) CHECK(i < want.size() && i < got.size() && want[i] == got[i], "enumerating %s: entry %zu is %s, expected %s", x.name, i, i < got.size() ? got[i].c_str() : "(end)", i < want.size() ? want[i].c_str() : "(end)"); }
  return shared;
}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 6; o.big = s.chance(1, 3); o.zero_last = s.chance(1, 4); o.huge_times = s.chance(1, 5); gen_db(s, db, o);
  for (unsigned f = 0; f < db.nfiles; f++) { size_t n = s.size(4); for (size_t i = 0; i < n; i++) { Str k = s.oneof<Str>({Str(1, '\4'), Str(1, '\x64'), Str(1, '\xfc'), Str(1, '\0'), Str(1, '\2'), Str("\0\5", 2), Str("\2\7", 2), Str("\1\100", 2), Str("\3\5", 2), Str(1, '\1')}) + (char)(0x80 + f) + (s.chance(1, 12) ? Str(100 + s.below(2000), '\xff') : s.flip() ? s.bytes(s.below(3)) : Str()); db.files[f][k] = s.flip() ? Str() : s.bytes(s.chance(1, 12) ? 100 + s.below(1000) : s.below(4)); } if (s.chance(1, 3)) db.files[f][Str(1, (char)K_VERSION) + (char)s.below(6)] = s.chance(1, 4) ? Str() : varint(s.below(300)); }
  for (auto &f : db.files) for (auto i = f.begin(); i != f.end();) { uint8_t b = i->first[0]; if (b == K_VERSION && (i->first.size() != 2 || (uint8_t)i->first[1] > 3)) i = f.erase(i); else ++i; }
  int mode = gen_mode(s, db); bool shared = false, changed = false; pbt::note("mode %d\n  db %s", mode, describe(db).c_str());
  if (mode != SRC_SET) { Store st(db, mode); shared = enumerate(s, st.rd, db); if (s.flip()) enumerate(s, st.rd, db); }
  else {
    mtblx_clear(); for (unsigned f = 0; f < db.nfiles; f++) put_file("mem:" + num(f), db.files[f]); std::set<unsigned> cur; struct dnstable_reader *r = nullptr, *r2 = nullptr; Str hist; size_t rounds = 1 + s.below(4), done = 0;
    for (size_t i = 0; i < rounds; i++) {
      std::set<unsigned> l; for (unsigned f = 0; f < db.nfiles; f++) if (i == 0 ? !s.chance(1, 4) : s.flip()) l.insert(f); std::vector<unsigned> v(l.begin(), l.end()); for (size_t j = v.size(); j > 1; j--) std::swap(v[j - 1], v[s.below(j)]); Str lines; for (auto f : v) { if (s.chance(1, 8)) lines += "mem:missing" + num(s.below(3)) + "\n"; lines += "mem:" + num(f) + "\n"; if (s.chance(1, 10)) lines += "mem:" + num(f) + "\n"; } if (!lines.empty() && s.chance(1, 5)) lines.pop_back();
      mtblx_put_setfile("mem:s", lines.c_str()); hist += " [" + lines + "]"; std::replace(hist.begin(), hist.end(), '\n', ' '); if (i && l != cur) changed = true; cur = l;
      pbt::note("setfile contents%s\n  db %s", hist.c_str(), describe(db).c_str());
      if (!r) { r = dnstable_reader_init_setfile("mem:s"); CHECK(r, "init_setfile failed"); if (s.flip()) dnstable_reader_reload_setfile(r); } else dnstable_reader_reload_setfile(r);
      if (s.chance(1, 6)) continue;
      DB sub = subset(db, l); shared |= enumerate(s, r, sub); done++;
      if (s.flip()) { Query q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_NAME, QK_IP, QK_RAW, QK_VERSION, QK_TIME, QK_SOURCE})); if (q.kind <= QK_RAW && s.chance(1, 4)) q_bounds(s, sub, q); q.aggr = !s.chance(1, 4); if (o.zero_last) for (auto &b : q.do_b) b = false;
        if (q.kind != QK_VERSION || true) { pbt::note("setfile contents%s query %s\n  db %s", hist.c_str(), q.describe().c_str(), describe(sub).c_str()); auto exp = evaluate(sub, q, q.aggr); auto h = make_query(q); auto it = dnstable_reader_query(r, h); auto act = drain(it); dnstable_iter_destroy(&it); dnstable_query_destroy(&h); compare(exp, act, "query after reload"); } }
    }
    if (!done) { DB sub = subset(db, cur); enumerate(s, r, sub); }
    dnstable_reader_destroy(&r); CHECK(!r, "handle left"); dnstable_reader_destroy(&r2); CHECK(mtblx_open_readers == 0, "%lu tables are still open", mtblx_open_readers); mtblx_clear();
    if (pbt::want_sample()) pbt::sample("setfile contents%s; %zu items in %u files", hist.c_str(), db.items.size(), db.nfiles);
  }
  if (changed) { pbt::nontrivial(); pbt::classify("reloaded"); } if (shared) { pbt::nontrivial(); pbt::classify("merged_keys"); } static const char *mn[] = {"setfile", "table", "merger"}; pbt::classify(mn[mode]);
}
