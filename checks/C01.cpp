// C01: decoding a well-formed record gives back exactly what was encoded.
#include "entryview.h"
#include "json.h"
pbt::Config pbt::config = {"C01", "Random record of every entry type (names up to 255 octets, all rrtypes, boundary varints, sliced and plain rdata) encoded by an independent encoder, decoded through the public API, and every accessor compared. Non-trivial: an rdata list, a sliced record, a multi-octet varint or an rrtype set is involved.", 2000000, 60};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 65536; }
void pbt_fixed(uint64_t i) { // every rrtype once, as RRset and as rdata record
  Rec r; r.kind = i & 1 ? K_RDATA : K_RRSET; r.type = i; r.owner = wire({"a", "b"}); r.bailiwick = wire({"b"}); r.rdatas = {Str("\1\2\3\4", 4)}; r.first = i; r.last = i * 7; r.count = i * i;
  auto e = decode(r.key(), r.val()); CHECK(e, "not decoded: %s", describe(r).c_str()); check_view(view(e), r); dnstable_entry_destroy(&e); CHECK(!e, "destroy did not clear the handle");
  if (i > 127) pbt::nontrivial();
}
void pbt_case(Src &s) {
  Rec r = gen_rec(s); Str k = r.key(), v = r.val();
  if (pbt::want_sample()) pbt::sample("%s key=%s val=%s", describe(r).c_str(), hex(k).substr(0, 400).c_str(), hex(v).substr(0, 200).c_str());
  pbt::note("record %s key %s val %s", describe(r).c_str(), hex(k).substr(0, 2000).c_str(), hex(v).c_str());
  size_t before = pbt::live_bytes();
  auto e = decode(k, v);
  CHECK(e, "well-formed record not decoded");
  { View w = view(e); check_view(w, r); }
  if (r.kind == K_NAME_FWD || r.kind == K_NAME_REV) {
    char *js = dnstable_entry_to_json(e); CHECK(js, "no JSON"); J j; Str t = js; free(js); JP p(t); CHECK(p.parse(j), "JSON %s: %s", p.err.c_str(), t.c_str());
    std::vector<J> a; for (auto x : r.types) a.push_back(jstr(type_name(x))); const J *q = j.get("rrtypes"); CHECK(q && jeq(*q, jarr(a)), "rrtype list %s", t.c_str());
    if (r.types.size() > 1) pbt::nontrivial();
  }
  dnstable_entry_destroy(&e); CHECK(!e, "destroy did not clear the handle");
  (void)before;
  static const char *kn[] = {"rrset", "name_fwd", "rdata", "name_rev"}; pbt::classify(r.kind < 4 ? kn[r.kind] : r.kind == K_TIME ? "time_range" : r.kind == K_VERSION ? "version" : "source");
  if (r.slice) { pbt::classify("sliced"); pbt::nontrivial(); }
  if (r.rdatas.size() > 1) { pbt::classify("multi_rdata"); pbt::nontrivial(); }
  if (r.first > 127 || r.count > 127 || r.type > 127 || r.version > 127) pbt::nontrivial();
  if (r.kind == K_RRSET && r.rdatas.empty()) pbt::classify("empty_rdata_list");
  if (r.last == 0 && r.first) pbt::classify("last_zero"); if (r.count == 0) pbt::classify("count_zero");
  if (r.owner.size() > 200) pbt::classify("long_name");
}
