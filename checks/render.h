// Expected JSON and text renderings of a record, written from the documentation (man/dnstable_lookup, dnstable_dump).
#pragma once
#include "entryview.h"
#include "json.h"
struct Fmt { bool json = true, rfc = false, arr = false, raw = false, zone = false; };
inline Str fmt_desc(const Fmt &f) { return Str(f.json ? "json" : "text") + (f.rfc ? " rfc3339" : " unix") + (f.arr ? " array" : "") + (f.raw ? " raw" : "") + (f.zone ? " zone" : ""); }
inline bool time_shown(uint64_t t, bool rfc) { return rfc ? t <= 253402300799ULL : t <= 67767976233532799ULL; } // years up to 2147483647: beyond, strftime cannot render the year
inline Str rfc_time(uint64_t t) { Civil c = civil(t); char b[64]; snprintf(b, 64, "%04lld-%02d-%02dT%02d:%02d:%02dZ", (long long)c.y, c.m, c.d, c.H, c.M, c.S); return b; }
inline Str unix_time(uint64_t t) { Civil c = civil(t); char b[80]; snprintf(b, 80, "%lld-%02d-%02d %02d:%02d:%02d -0000", (long long)c.y, c.m, c.d, c.H, c.M, c.S); return b; }
inline Str hexs(const Str &s) { static const char *d = "0123456789abcdef"; Str o; for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } return o; }
inline Str kind_name(unsigned k) { switch (k) { case 0: return "rrset"; case 1: return "rrset_name"; case 2: return "rdata"; case 3: return "rdata_name"; case 253: return "source_info"; case 254: return "time_range"; case 255: return "version"; } return ""; }
// a value that any rendering other than a (wrong) date satisfies
inline J jany() { J j; j.t = '?'; return j; }
inline bool looks_like_date(const Str &s) { int d = 0; for (char c : s) d += isdigit((unsigned char)c) != 0; return d > 0; }
inline J jtime(uint64_t t, const Fmt &f) { return !f.rfc ? jnum(t) : time_shown(t, true) ? jstr(rfc_time(t)) : jany(); }
inline J jtypes(const Rec &r) { std::vector<J> a; for (auto x : r.types) a.push_back(jstr(type_name(x))); return jarr(a); }
inline J model_json(const Rec &r, const Fmt &f) {
  J j; j.t = 'o'; auto add = [&](const Str &k, J v) { j.o.emplace_back(k, std::move(v)); }; Str z = f.zone ? "zone_" : "";
  switch (r.kind) {
  case K_RRSET: case K_RDATA: {
    add("count", jnum(r.eff_count())); add(z + "time_first", jtime(r.first, f)); add(z + "time_last", jtime(r.eff_last(), f)); add("rrname", jstr(present(r.owner))); add("rrtype", jstr(type_name(r.type)));
    std::vector<J> a, w; for (auto &d : r.rdatas) { a.push_back(jstr(rdata_text(d, r.type))); w.push_back(jstr(hexs(d) + (r.kind == K_RRSET ? hexs(varint(r.type)) : ""))); }
    bool arr = r.kind == K_RRSET || f.arr; if (r.kind == K_RRSET) add("bailiwick", jstr(present(r.bailiwick)));
    add("rdata", arr ? jarr(a) : a[0]); if (f.raw) add("rdata_raw", arr ? jarr(w) : w[0]); break; }
  case K_NAME_FWD: add("rrset_name", jstr(present(r.owner))); add("rrtypes", jtypes(r)); break;
  case K_NAME_REV: add("rdata_name", jstr(present(r.rname))); add("rrtypes", jtypes(r)); break;
  case K_TIME: add("time_first", jtime(r.first, f)); add("time_last", jtime(r.last, f)); break;
  case K_SOURCE: add("source info", jstr(r.text)); break;
  case K_VERSION: { Str n = kind_name(r.vtype); add("entry_type", jstr(n.empty() ? "unknown-" + std::to_string(r.vtype) : n)); add("version", jnum(r.version)); break; }
  }
  return j;
}
inline bool jmatch(const J &got, const J &want) {
  if (want.t == '?') return got.t == 'n' || (got.t == 's' && !looks_like_date(got.s));
  if (want.t == 'o') { if (got.t != 'o' || got.o.size() != want.o.size()) return false; for (auto &p : want.o) { auto q = got.get(p.first); if (!q || !jmatch(*q, p.second)) return false; } return true; }
  return jeq(got, want);
}
inline void check_json(const char *js, const Rec &r, const Fmt &f) {
  CHECK(js, "no JSON for %s", describe(r).c_str()); J j; Str t = js; JP p(t); CHECK(p.parse(j), "invalid JSON (%s): %s", p.err.c_str(), t.c_str());
  J want = model_json(r, f); CHECK(jmatch(j, want), "JSON is %s\n but should be %s (%s)", t.c_str(), jdump(want).c_str(), fmt_desc(f).c_str());
}
// text: the expected output as literal pieces and times; a time that cannot be shown is any text without digits
struct Tx { std::vector<std::pair<Str, bool>> p; void lit(const Str &s) { p.emplace_back(s, false); } void any() { p.emplace_back("", true); } };
inline void tx_time(Tx &x, uint64_t t, const Fmt &f) { if (!time_shown(t, f.rfc)) x.any(); else x.lit(f.rfc ? rfc_time(t) : unix_time(t)); }
inline Tx model_text(const Rec &r, const Fmt &f) {
  Tx x; auto rr = [&](const Str &d) { x.lit(present(r.owner) + " IN " + type_name(r.type) + " " + rdata_text(d, r.type) + "\n"); };
  auto ts = [&](const Rec &q) { Str o = " RRtypes=["; bool c = false; for (auto t : q.types) { o += (c ? " " : "") + type_name(t); c = true; } return o + "]  ;; "; };
  switch (r.kind) {
  case K_RRSET: x.lit(";;  bailiwick: " + present(r.bailiwick) + "\n;;      count: " + std::to_string(r.eff_count()) + "\n;; first seen" + (f.zone ? " in zone file" : "") + ": "); tx_time(x, r.first, f);
    x.lit(Str("\n;;  last seen") + (f.zone ? " in zone file" : "") + ": "); tx_time(x, r.eff_last(), f); x.lit("\n"); for (auto &d : r.rdatas) rr(d); break;
  case K_RDATA: rr(r.rdatas[0]); break;
  case K_NAME_FWD: x.lit(present(r.owner) + ts(r) + "rrset name fwd\n"); break;
  case K_NAME_REV: x.lit(present(r.rname) + ts(r) + "rdata name rev\n"); break;
  case K_TIME: x.lit(";; Earliest time_first: "); tx_time(x, r.first, f); x.lit("\n;; Latest time_last: "); tx_time(x, r.last, f); x.lit("\n"); break;
  case K_SOURCE: x.lit(";; source info: " + r.text + "\n"); break;
  case K_VERSION: { Str n = kind_name(r.vtype); x.lit(";; Version type " + (n.empty() ? std::to_string(r.vtype) : n) + ": " + std::to_string(r.version) + "\n"); break; }
  }
  return x;
}
inline void check_text(const char *t, const Rec &r, const Fmt &f) {
  CHECK(t, "no text for %s", describe(r).c_str()); Str g = t; Tx x = model_text(r, f); size_t i = 0; Str want; bool ok = true;
  for (auto &p : x.p) want += p.second ? "<unshown time>" : p.first;
  for (size_t k = 0; k < x.p.size() && ok; k++) {
    if (!x.p[k].second) { if (g.compare(i, x.p[k].first.size(), x.p[k].first)) ok = false; else i += x.p[k].first.size(); }
    else while (i < g.size() && g[i] != '\n') { if (isdigit((unsigned char)g[i])) ok = false; i++; }
  }
  CHECK(ok && i == g.size(), "text is\n%s but should be\n%s (%s)", g.c_str(), want.c_str(), fmt_desc(f).c_str());
}
// a formatter reached by a random series of settings, of which the last of each kind counts
struct Formatter { struct dnstable_formatter *f; Fmt m; Formatter() { f = dnstable_formatter_init(); } ~Formatter() { dnstable_formatter_destroy(&f); CHECK(!f, "destroying a formatter does not clear the handle"); dnstable_formatter_destroy(&f); }
  void set(int what, bool v) { switch (what) { case 0: dnstable_formatter_set_output_format(f, v ? dnstable_output_format_text : dnstable_output_format_json); m.json = !v; break; case 1: dnstable_formatter_set_date_format(f, v ? dnstable_date_format_rfc3339 : dnstable_date_format_unix); m.rfc = v; break;
      case 2: dnstable_formatter_set_rdata_array(f, v); m.arr = v; break; case 3: dnstable_formatter_set_raw_rdata(f, v); m.raw = v; break; } } };
inline void check_render(const char *t, const Rec &r, const Fmt &m) { if (m.json) check_json(t, r, m); else check_text(t, r, m); }
