// Reads an entry through the public accessors only.
#pragma once
#include "enc.h"
struct View {
  int type = -1; bool has_owner = false, has_bw = false, has_type = false, has_n = false, has_rname = false, has_first = false, has_last = false, has_count = false, has_src = false, has_ver = false, has_vt = false;
  Str owner, bw, rname, src; unsigned rrtype = 0; std::vector<Str> rd; uint64_t first = 0, last = 0, count = 0; uint32_t ver = 0; int vt = 0;
};
inline View view(struct dnstable_entry *e) {
  View v; const uint8_t *p; size_t n; uint16_t t; const char *c; dnstable_entry_type vt;
  v.type = dnstable_entry_get_type(e);
  if ((v.has_owner = dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success)) v.owner = Str((const char *)p, n);
  if ((v.has_bw = dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success)) v.bw = Str((const char *)p, n);
  if ((v.has_type = dnstable_entry_get_rrtype(e, &t) == dnstable_res_success)) v.rrtype = t;
  if ((v.has_n = dnstable_entry_get_num_rdata(e, &n) == dnstable_res_success)) { size_t k = n; for (size_t i = 0; i < k; i++) { CHECK(dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success, "get_rdata(%zu) of %zu failed", i, k); v.rd.push_back(Str((const char *)p, n)); }
    p = nullptr; n = 12345; for (size_t i : {k, k + 1, k + 2, (size_t)-1}) CHECK(dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_failure, "get_rdata(%zu) succeeded although there are %zu rdatas", i, k); }
  else CHECK(dnstable_entry_get_rdata(e, 0, &p, &n) == dnstable_res_failure, "get_rdata works on an entry without rdata");
  if ((v.has_rname = dnstable_entry_get_rdata_name(e, &p, &n) == dnstable_res_success)) v.rname = Str((const char *)p, n);
  v.has_first = dnstable_entry_get_time_first(e, &v.first) == dnstable_res_success;
  v.has_last = dnstable_entry_get_time_last(e, &v.last) == dnstable_res_success;
  v.has_count = dnstable_entry_get_count(e, &v.count) == dnstable_res_success;
  if ((v.has_src = dnstable_entry_get_source_info(e, &c) == dnstable_res_success)) v.src = c;
  v.has_ver = dnstable_entry_get_version(e, &v.ver) == dnstable_res_success;
  if ((v.has_vt = dnstable_entry_get_version_type(e, &vt) == dnstable_res_success)) v.vt = vt;
  return v;
}
// compare an entry with the record it must represent
inline void check_view(const View &v, const Rec &r) {
#define D describe(r).c_str()
  int k = r.kind; bool rr = k == K_RRSET, rd = k == K_RDATA;
  CHECK(v.type == k, "entry type %d for record %s", v.type, D);
  CHECK(v.has_owner == (rr || rd || k == K_NAME_FWD) && v.has_bw == rr && v.has_type == (rr || rd) && v.has_n == (rr || rd) && v.has_rname == (k == K_NAME_REV) && v.has_first == (rr || rd || k == K_TIME) && v.has_last == v.has_first && v.has_count == (rr || rd) && v.has_src == (k == K_SOURCE) && v.has_ver == (k == K_VERSION) && v.has_vt == v.has_ver,
        "wrong set of available fields for %s", D);
  if (v.has_owner) CHECK(v.owner == r.owner, "owner %s for record %s", present(v.owner).c_str(), D);
  if (rr) CHECK(v.bw == r.bailiwick, "bailiwick %s for record %s", present(v.bw).c_str(), D);
  if (v.has_type) CHECK(v.rrtype == r.type, "rrtype %u for record %s", v.rrtype, D);
  if (v.has_n) { CHECK(v.rd.size() == r.rdatas.size(), "%zu rdatas for record %s", v.rd.size(), D); for (size_t i = 0; i < v.rd.size(); i++) CHECK(v.rd[i] == r.rdatas[i], "rdata %zu is %s for record %s", i, hex(v.rd[i]).c_str(), D); }
  if (v.has_rname) CHECK(v.rname == r.rname, "rdata name %s for record %s", present(v.rname).c_str(), D);
  if (v.has_first) CHECK(v.first == r.first, "time_first %llu for record %s", (unsigned long long)v.first, D);
  if (v.has_last) CHECK(v.last == r.eff_last(), "time_last %llu for record %s", (unsigned long long)v.last, D);
  if (v.has_count) CHECK(v.count == r.eff_count(), "count %llu for record %s", (unsigned long long)v.count, D);
  if (v.has_src) CHECK(v.src == r.text, "source info %s for record %s", quote(v.src).c_str(), D);
  if (v.has_ver) CHECK(v.ver == r.version && v.vt == (int)r.vtype, "version %u of %d for record %s", v.ver, v.vt, D);
#undef D
}
