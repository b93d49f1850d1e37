// C05: merging.
#include "entryview.h"
pbt::Config pbt::config = {"C05", "2-12 values of one key (RRset, rdata, time range, version) merged through dnstable_merge_func in random order and random grouping; the result must equal the fold of the model, be decodable and not depend on the order. Non-trivial: three or more values, or values of different varint lengths.", 1500000, 60};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 256 * 4; }
static Str merge(const Str &k, const Str &a, const Str &b) {
  Exact ek(k), ea(a), eb(b); uint8_t *m = nullptr; size_t n = (size_t)-1; dnstable_merge_func(nullptr, ek.p, ek.n, ea.p, ea.n, eb.p, eb.n, &m, &n);
  CHECK(m, "merge of %s and %s under key %s failed", hex(a).c_str(), hex(b).c_str(), hex(k).c_str()); CHECK(n <= 40, "merged length %zu", n); Str o((char *)m, n); free(m); return o;
}
static Str tree(Src &s, const Str &k, std::vector<Str> v) { while (v.size() > 1) { size_t i = s.below(v.size()); Str a = v[i]; v.erase(v.begin() + i); size_t j = s.below(v.size()); v[j] = s.flip() ? merge(k, a, v[j]) : merge(k, v[j], a); } return v[0]; }
struct V { uint64_t f = 0, l = 0, c = 0; bool empty = false; };
static void check(Src &s, Rec r, const std::vector<V> &vs) {
  Str k = r.key(); std::vector<Str> enc; Rec m = r; bool empty = false; m.first = -1; m.version = -1; m.last = m.count = 0;
  for (auto &v : vs) { if (v.empty) { empty = true; enc.push_back(""); continue; } Rec x = r; x.first = v.f; x.last = v.l; x.count = v.c; x.version = (uint32_t)v.f; enc.push_back(x.val()); m.first = std::min(m.first, v.f); m.last = std::max(m.last, v.l); m.count += v.c; m.version = std::min(m.version, (uint32_t)v.f); }
  if (r.kind == K_VERSION && r.vtype > 3) empty = true;
  if (empty) m.first = m.last = m.count = m.version = 0;
  Str want = empty ? "" : m.val(); Str desc; for (auto &e : enc) desc += hex(e) + " "; pbt::note("key %s values %s", hex(k).c_str(), desc.c_str()); if (pbt::want_sample()) pbt::sample("key=%s values=%s", hex(k).c_str(), desc.c_str());
  for (int round = 0; round < 2; round++) {
    Str got = tree(s, k, enc); CHECK(got == want, "merged value %s, expected %s", hex(got).c_str(), hex(want).c_str());
    if (!empty) { auto e = decode(k, got); CHECK(e, "merged value cannot be decoded"); View w = view(e); check_view(w, m); dnstable_entry_destroy(&e); }
  }
}
void pbt_fixed(uint64_t i) { // every key type byte
  uint8_t t = i / 4; pbt::Src s; s.mode = pbt::Src::REPLAY; Rec r; std::vector<V> v = {{1, 200, 3}, {i, 5, 70000}};
  if (t == 0 || t == 2) { r.kind = t; r.owner = wire({"a"}); r.bailiwick = wire({}); r.rdatas = {"x"}; check(s, r, v); }
  else if (t == 254) { r.kind = K_TIME; check(s, r, v); v[1].empty = true; check(s, r, v); }
  else if (t != 1 && t != 3) { Str k(1, (char)t); if (t == 255) { r.kind = K_VERSION; for (int vt = 0; vt < 256; vt++) { r.vtype = vt; check(s, r, v); } return; } if (t == 253) k += "text"; CHECK(merge(k, "", "") == "", "empty values under key type %d merge to something", t); }
}
void pbt_case(Src &s) {
  Rec r; static const int ks[] = {K_RRSET, K_RDATA, K_TIME, K_VERSION}; r = gen_rec(s, ks[s.below(4)]); if (r.kind == K_VERSION && !s.chance(1, 6)) r.vtype &= 3;
  size_t n = 2 + s.size(10); std::vector<V> v(n); bool diff = false;
  for (auto &x : v) { x.f = gen_time(s); x.l = s.flip() ? x.f + s.below(1000) : gen_time(s); x.c = s.u64(); if (r.kind == K_VERSION) x.f = (uint32_t)x.f; if (r.kind >= K_TIME && s.chance(1, 20)) x.empty = true; if (varint(x.f).size() != varint(v[0].f).size()) diff = true; }
  if (s.chance(1, 10)) v[0] = v[n - 1];
  if (n > 2 || diff) pbt::nontrivial(); pbt::classify(r.kind == K_RRSET ? "rrset" : r.kind == K_RDATA ? "rdata" : r.kind == K_TIME ? "time_range" : "version"); for (auto &x : v) if (x.empty) pbt::classify("with_empty_value");
  check(s, r, v);
}
