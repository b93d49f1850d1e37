// C20: names of constants.
#include "pbt.h"
#include <dnstable/dnstable.h>
#include <strings.h>
using pbt::Src;
typedef std::string Str;
pbt::Config pbt::config = {"C20", "Every constant -1..65536 converted to its name and back and compared with the documented names; random and near-miss names (changed case, prefixes, suffixes, other tables' names) converted and compared. Non-trivial: a name that differs from a defined one by one edit.", 3000000, 60};
struct Tab { int v; const char *n; };
static const Tab types[] = {{0, "rrset"}, {1, "rrset_name"}, {2, "rdata"}, {3, "rdata_name"}, {253, "source_info"}, {254, "time_range"}, {255, "version"}};
static const Tab stages[] = {{0, "fileset"}, {1, "single label"}, {2, "rrtype"}, {3, "bailiwick"}, {4, "time prefilter"}, {5, "remove strict"}, {6, "fill merger"}, {7, "left join"}, {8, "time"}, {9, "offset"}};
static const Tab cats[] = {{0, "filtered"}, {1, "merged"}, {2, "seek"}, {3, "files"}};
static const Tab *find(const Tab *t, size_t n, int v) { for (size_t i = 0; i < n; i++) if (t[i].v == v) return &t[i]; return nullptr; }
static const char *to(int w, int v) { return w == 0 ? dnstable_entry_type_to_string((dnstable_entry_type)v) : w == 1 ? dnstable_stat_stage_to_str((dnstable_stat_stage)v) : dnstable_stat_category_to_str((dnstable_stat_category)v); }
static bool from(int w, const char *s, int &v) { dnstable_entry_type t = (dnstable_entry_type)77; dnstable_stat_stage g = (dnstable_stat_stage)77; dnstable_stat_category c = (dnstable_stat_category)77; dnstable_res r = w == 0 ? dnstable_entry_type_from_string(&t, s) : w == 1 ? dnstable_stat_str_to_stage(s, &g) : dnstable_stat_str_to_category(s, &c); v = w == 0 ? t : w == 1 ? g : c; CHECK(r == dnstable_res_success || r == dnstable_res_failure, "result %d", r); return r == dnstable_res_success; }
static const Tab *tab(int w, size_t &n) { if (w == 0) { n = 7; return types; } if (w == 1) { n = 10; return stages; } n = 4; return cats; }
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 3 * 65538; }
void pbt_fixed(uint64_t i) {
  int w = i % 3, v = (int)(i / 3) - 1; size_t n; const Tab *t = tab(w, n); const Tab *e = find(t, n, v); const char *s = to(w, v);
  if (!e) { CHECK(!s, "table %d: undefined constant %d is called %s", w, v, s); return; }
  CHECK(s && !strcmp(s, e->n), "table %d: constant %d is called %s, not %s", w, v, s ? s : "(null)", e->n); int b; CHECK(from(w, s, b) && b == v, "table %d: name %s converts to %d, not %d", w, s, b, v); pbt::nontrivial();
}
void pbt_case(Src &s) {
  int w = s.below(3), w2 = s.below(3); size_t n, n2; const Tab *t = tab(w, n), *t2 = tab(w2, n2); Str x = t2[s.below(n2)].n, orig = x; int b;
  switch (s.below(6)) { case 0: break; case 1: x.insert(s.below(x.size() + 1), 1, " _abtx0"[s.below(7)]); break; case 2: x.erase(s.below(x.size()), 1); break; case 3: { char &c = x[s.below(x.size())]; c = 1 + s.below(255); break; } case 4: x = x.substr(0, s.below(x.size() + 1)); break; case 5: x = s.bytes(s.size(12)); x = x.c_str(); break; }
  if (s.chance(1, 4)) for (auto &c : x) if (s.flip()) c = toupper((unsigned char)c);
  if (pbt::want_sample()) pbt::sample("table %d name %s", w, pbt::quote(x).c_str()); pbt::note("table %d name %s", w, pbt::quote(x).c_str());
  // statistics names are matched without regard to case
  int want = -1; bool fold = false; for (size_t i = 0; i < n; i++) { if (x == t[i].n) want = t[i].v; else if (!strcasecmp(x.c_str(), t[i].n)) { fold = true; if (w) want = t[i].v; } }
  if (w == 0 && fold) return;
  bool ok = from(w, x.c_str(), b); CHECK(ok == (want >= 0) && (!ok || b == want), "conversion %s with value %d, expected %d", ok ? "succeeded" : "failed", b, want); if (x != orig) pbt::nontrivial(); if (ok) pbt::classify("known"); else pbt::classify("unknown");
}
