// C03: JSON output.
#include "render.h"
pbt::Config pbt::config = {"C03", "Random record of every entry type and a random series of formatter settings; the JSON text is parsed by a strict RFC 8259 parser and compared member by member with an expectation built from the record alone. Non-trivial: the settings differ from the defaults, or the strings need escaping.", 500000, 60};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 65536 + 256 * 16; }
void pbt_fixed(uint64_t i) {
  Rec r; Fmt m; if (i < 65536) { r.kind = i & 1 ? K_RDATA : K_RRSET; r.type = i; r.owner = wire({"a"}); r.bailiwick = wire({}); r.rdatas = {Str("\1\2\3\4", 4)}; r.first = i * 400000; r.last = r.first + 86399; m.raw = true; }
  else { i -= 65536; int b = i / 16; r.kind = i & 8 ? K_NAME_FWD : K_SOURCE; if (r.kind == K_SOURCE) { if (b == 0 || b > 127) return; r.text = Str("x") + (char)b + "y"; } else r.owner = wire({Str("x") + (char)b, Str(1, (char)b)}); m.raw = i & 1; m.arr = i & 2; m.rfc = i & 4; }
  auto e = decode(r.key(), r.val()); CHECK(e, "not decoded"); Formatter f; f.set(3, m.raw); f.set(2, m.arr); f.set(1, m.rfc); char *s = dnstable_entry_format(f.f, e); check_json(s, r, f.m); free(s); dnstable_entry_destroy(&e); pbt::nontrivial();
}
void pbt_case(Src &s) {
  Rec r = gen_rec(s); Formatter f; size_t n = s.below(8);
  for (size_t i = 0; i < n; i++) f.set(1 + s.below(3), s.flip());
  Fmt m = f.m; m.zone = s.chance(1, 3);
  pbt::note("record %s %s", describe(r).c_str(), fmt_desc(m).c_str()); if (pbt::want_sample()) pbt::sample("%s (%s)", describe(r).c_str(), fmt_desc(m).c_str());
  auto e = decode(r.key(), r.val()); CHECK(e, "well-formed record not decoded");
  if (m.zone || s.flip()) dnstable_entry_set_iszone(e, m.zone);
  char *t = dnstable_entry_format(f.f, e); check_json(t, r, m); if (strchr(t, '\\')) pbt::nontrivial(); free(t);
  Fmt d; d.zone = m.zone; t = dnstable_entry_to_json(e); check_json(t, r, d); free(t);
  // the same formatter again, after other work with it, gives the same
  if (s.chance(1, 3)) { Rec q = gen_rec(s); auto e2 = decode(q.key(), q.val()); CHECK(e2, "well-formed record not decoded"); t = dnstable_entry_format(f.f, e2); Fmt m2 = f.m; check_json(t, q, m2); free(t); f.set(0, true); t = dnstable_entry_format(f.f, e2); m2.json = false; check_text(t, q, m2); free(t); f.set(0, false); t = dnstable_entry_format(f.f, e); check_json(t, r, m); free(t); dnstable_entry_destroy(&e2); pbt::classify("formatter_reused"); }
  dnstable_entry_destroy(&e);
  if (m.arr || m.raw || m.rfc || m.zone) { pbt::nontrivial(); pbt::classify("nondefault"); }
  if (m.rfc && (r.kind == K_RRSET || r.kind == K_RDATA || r.kind == K_TIME)) pbt::classify("rfc3339_times");
  if (m.arr && r.kind == K_RDATA) pbt::classify("single_rdata_array"); if (m.raw && r.kind == K_RRSET && r.rdatas.size() > 1) pbt::classify("raw_list");
}
