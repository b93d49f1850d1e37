// C04: text output.
#include "render.h"
pbt::Config pbt::config = {"C04", "Random record of every entry type rendered as text in both date formats and compared with an expectation computed from the record (proleptic Gregorian calendar computed independently). Non-trivial: more than one rdata, a time outside 1970-2038, zone data, or several rrtypes.", 800000, 60};
void pbt_init() {}
// every day from 1970 to 2199 and first and last second of many later years
uint64_t pbt_fixed_count(bool) { return 84000 + 9000; }
void pbt_fixed(uint64_t i) {
  Rec r; r.kind = i & 1 ? K_RRSET : K_TIME; r.type = 1; r.owner = wire({"a"}); r.bailiwick = wire({}); r.rdatas = {Str("\1\2\3\4", 4)};
  if (i < 84000) { r.first = i * 86400; r.last = r.first + 86399; } else { r.first = (i - 84000) * 31556952ULL + 6000000000ULL; r.last = r.first * 3; }
  auto e = decode(r.key(), r.val()); CHECK(e, "not decoded"); Formatter f; f.set(0, true); char *t = dnstable_entry_format(f.f, e); check_text(t, r, f.m); free(t); f.set(1, true); t = dnstable_entry_format(f.f, e); check_text(t, r, f.m); free(t); dnstable_entry_destroy(&e); if (i > 24855) pbt::nontrivial();
}
void pbt_case(Src &s) {
  Rec r = gen_rec(s); Formatter f; f.set(0, true); size_t n = s.below(6); for (size_t i = 0; i < n; i++) f.set(1 + s.below(3), s.flip());
  Fmt m = f.m; m.zone = s.chance(1, 3);
  pbt::note("record %s %s", describe(r).c_str(), fmt_desc(m).c_str()); if (pbt::want_sample()) pbt::sample("%s (%s)", describe(r).c_str(), fmt_desc(m).c_str());
  auto e = decode(r.key(), r.val()); CHECK(e, "well-formed record not decoded"); if (m.zone) dnstable_entry_set_iszone(e, true);
  char *t = dnstable_entry_format(f.f, e); check_text(t, r, m); free(t);
  Fmt d; d.json = false; d.zone = m.zone; t = dnstable_entry_to_text(e); check_text(t, r, d); free(t);
  dnstable_entry_destroy(&e);
  static const char *kn[] = {"rrset", "name_fwd", "rdata", "name_rev"}; pbt::classify(r.kind < 4 ? kn[r.kind] : r.kind == K_TIME ? "time_range" : r.kind == K_VERSION ? "version" : "source");
  if (r.rdatas.size() > 1 || m.zone || r.first > 2147483647 || r.types.size() > 1) pbt::nontrivial();
  if ((r.kind == K_RRSET || r.kind == K_TIME) && (!time_shown(r.first, m.rfc) || !time_shown(r.eff_last(), m.rfc))) pbt::classify("time_out_of_range");
}
