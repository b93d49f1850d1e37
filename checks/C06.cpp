// C06: rrtype indexes.
#include "render.h"
extern "C" int shim_rrtype_test(int, unsigned, const unsigned char *, size_t);
pbt::Config pbt::config = {"C06", "Random rrtype sets in every encoding (empty, 1, 2 octets, bitmaps incl. non-minimal ones) and corrupted ones, in exact-size buffers: listed through entry rendering, tested for members, neighbours and random types, and merged in random order. Oracle: std::set. Non-trivial: several windows, a corrupted index or a merge of different sets.", 100000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 65536 / 16; }
struct Parsed { TypeSet t; bool corrupt = false; bool cut = false; };
// reading of the documentation: window number, length 1..32, bitmap; window numbers increase
static Parsed model(const Str &m) {
  Parsed p; if (m.size() <= 2) { if (m.size() == 1) p.t = {(unsigned)(uint8_t)m[0]}; if (m.size() == 2) p.t = {(unsigned)((uint8_t)m[0] | (uint8_t)m[1] << 8)}; return p; }
  size_t i = 0; int prev = -1; while (i < m.size()) { if (m.size() - i < 2) { p.corrupt = true; break; } int w = (uint8_t)m[i], l = (uint8_t)m[i + 1]; i += 2; if (w <= prev || l < 1 || l > 32) { p.corrupt = true; break; } prev = w; if (m.size() - i < (size_t)l) { p.corrupt = true; break; } for (int b = 0; b < l * 8; b++) if ((uint8_t)m[i + b / 8] & (0x80 >> (b & 7))) p.t.insert(w << 8 | b); i += l; }
  return p;
}
static bool test(int kind, unsigned t, const Str &m) { Exact e(m); return shim_rrtype_test(kind, t, e.p, e.n); }
static const TypeSet rev_types = {2, 5, 6, 12, 15, 33, 39, 64, 65};
static void check_list(const Str &m, const Parsed &p) {
  Rec r; r.kind = K_NAME_FWD; r.owner = wire({"a"}); for (int k : {K_NAME_FWD, K_NAME_REV}) { r.kind = k; r.rname = r.owner; r.use_raw = true; r.rawunion = m; r.types = p.t;
    auto e = decode(r.key(), r.val()); CHECK(e, "entry not decoded");
    char *t = dnstable_entry_to_json(e); J j; Str x = t; free(t); JP q(x); CHECK(q.parse(j), "invalid JSON %s", x.c_str()); const J *l = j.get("rrtypes"); CHECK(l && l->t == 'a', "no rrtype list in %s", x.c_str());
    J want = p.corrupt ? jarr({jstr("<failure>")}) : jtypes(r); CHECK(jeq(*l, want), "index %s is listed as %s but should be %s", hex(m).substr(0, 2000).c_str(), jdump(*l).substr(0, 3000).c_str(), jdump(want).substr(0, 3000).c_str());
    if (!p.corrupt) { t = dnstable_entry_to_text(e); Fmt f; f.json = false; check_text(t, r, f); free(t); }
    dnstable_entry_destroy(&e); }
}
// fields of a (possibly corrupt) index as far as complete blocks go: may type t be present?
static void check_test(unsigned t, const Str &m, const Parsed &p) {
  for (int kind : {K_NAME_FWD, K_NAME_REV}) {
    bool got = test(kind, t, m);
    if (m.empty()) { if (kind == K_NAME_FWD || rev_types.count(t)) CHECK(got, "empty index excludes rrtype %u (kind %d)", t, kind); continue; }
    if (!p.corrupt) CHECK(got == (p.t.count(t) > 0), "index %s: rrtype %u tests %d", hex(m).substr(0, 2000).c_str(), t, got);
    else { // types of complete blocks in front of the corruption, and everything when the index is cut off before their block
      if (p.t.count(t)) CHECK(got, "corrupt index %s excludes rrtype %u whose bit is set", hex(m).substr(0, 2000).c_str(), t);
      size_t i = 0; bool sane = true; int prev = -1; while (sane && m.size() - i >= 2) { int w = (uint8_t)m[i], l = (uint8_t)m[i + 1]; if (w <= prev || l < 1 || l > 32) { sane = false; break; } prev = w; if (m.size() - i - 2 < (size_t)l) break; i += 2 + l; }
      if (sane && m.size() - i >= 2) { if ((t >> 8) >= (uint8_t)m[i]) CHECK(got, "rrtype %u is excluded by index %s, which is cut off in its block", t, hex(m).substr(0, 2000).c_str()); }
    }
  }
}
static Str windows(const TypeSet &t) { Str o; for (auto i = t.begin(); i != t.end();) { unsigned w = *i >> 8; Str b; for (; i != t.end() && *i >> 8 == w; ++i) { unsigned k = *i & 255; if (b.size() <= k / 8) b.resize(k / 8 + 1, '\0'); b[k / 8] |= (char)(0x80 >> (k & 7)); } o += (char)w; o += (char)b.size(); o += b; } return o; }
static bool merge(const Str &k, const Str &a, const Str &b, Str &out) { Exact ek(k), ea(a), eb(b); uint8_t *m = nullptr; size_t n = 0; dnstable_merge_func(nullptr, ek.p, ek.n, ea.p, ea.n, eb.p, eb.n, &m, &n); if (!m) return false; out = Str((char *)m, n); free(m); return true; }
static Str encode(Src &s, const TypeSet &t) {
  if (!s.chance(1, 3)) return union_enc(t);
  if (t.size() == 1 && s.flip()) return le16(*t.begin()); if (t.empty()) return "";
  Str o; auto it = t.begin(); while (it != t.end()) { unsigned w = *it >> 8; Str bm; for (; it != t.end() && (*it >> 8) == w; ++it) { unsigned b = *it & 255; if (bm.size() <= b / 8) bm.resize(b / 8 + 1); bm[b / 8] |= 0x80 >> (b & 7); } if (s.chance(1, 4)) bm.resize(bm.size() + s.below(33 - bm.size())); o += (char)w; o += (char)bm.size(); o += bm; } return o;
}
void pbt_fixed(uint64_t i) { // each of the 65536 rrtypes alone, in each encoding; and large sets
  for (unsigned t = i * 16; t < i * 16 + 16; t++) { std::vector<Str> enc = {le16(t), union_bitmap({t})}; if (t < 256) enc.push_back(Str(1, (char)t)); for (auto &m : enc) { Parsed p = model(m); check_list(m, p); for (unsigned d : {t - 1, t, t + 1, t ^ 8, t ^ 256, t ^ 0x8000}) check_test(d & 65535, m, p); } }
  if (i % 1024 == 0) { TypeSet a, b, all; for (unsigned t = 0; t < 65536; t++) { if ((t * 2654435761u >> 7 ^ i) & 1) a.insert(t); else b.insert(t); all.insert(t); } Str o; CHECK(merge(Str(1, 1) + wire({"a"}), union_enc(a), union_enc(b), o), "merge of complementary sets failed"); Parsed p = model(o); CHECK(p.t == all && !p.corrupt, "merge of complementary sets has %zu types", p.t.size()); check_list(o, p); }
  pbt::nontrivial();
}
void pbt_case(Src &s) {
  TypeSet a = gen_typeset(s), b = gen_typeset(s); if (s.chance(1, 4)) b = a; if (s.chance(1, 400)) { unsigned st = 1 + s.below(3); for (unsigned t = s.below(300); t < 65536; t += st) a.insert(t); }
  Str ea = encode(s, a), eb = encode(s, b); bool bad = false;
  if (s.chance(1, 3)) { bad = true; Str &m = s.flip() ? ea : eb; switch (s.below(5)) { case 0: if (!m.empty()) m.resize(s.below(m.size())); break; case 1: m += s.bytes(1 + s.below(5)); break; case 2: if (!m.empty()) m[s.below(m.size())] = s.below(256); break; case 3: m = s.bytes(s.size(40)); break; case 4: { Str x = m; m += x; break; } } }
  Parsed pa = model(ea), pb = model(eb);
  if (pbt::want_sample()) pbt::sample("a=%s b=%s%s", hex(ea).substr(0, 300).c_str(), hex(eb).substr(0, 300).c_str(), bad ? " (corrupted)" : "");
  pbt::note("index a %s\nindex b %s", hex(ea).substr(0, 3000).c_str(), hex(eb).substr(0, 3000).c_str());
  if (!bad) CHECK(pa.t == a && pb.t == b, "model error");
  if (!bad || !pa.corrupt) check_list(ea, pa); else check_list(ea, pa);
  for (int i = 0; i < 12; i++) { unsigned t = i < 3 ? s.below(65536) : s.below(400); if (!pa.t.empty() && i > 6) { auto it = pa.t.begin(); std::advance(it, s.below(std::min<size_t>(pa.t.size(), 40))); t = (*it + (i & 1 ? 0 : s.oneof<int>({1, -1, 8, 256}))) & 65535; } check_test(t, ea, pa); }
  if (!pa.t.empty()) { check_test(*pa.t.rbegin(), ea, pa); for (unsigned d : {1u, 7u, 8u, 9u, 16u, 256u}) check_test((*pa.t.rbegin() + d) & 65535, ea, pa); }
  Str k = Str(1, (char)(s.flip() ? K_NAME_FWD : K_NAME_REV)) + wire({"a"}), o, o2; bool ok = merge(k, ea, eb, o), ok2 = merge(k, eb, ea, o2);
  CHECK(ok == ok2 && (!ok || o == o2), "merging a,b and b,a differ: %s and %s", hex(o).substr(0, 2000).c_str(), hex(o2).substr(0, 2000).c_str());
  if (ea.empty() || eb.empty()) CHECK(ok && o.empty(), "an empty index does not absorb: %s", hex(o).c_str());
  else if (!pa.corrupt && !pb.corrupt) { TypeSet u = pa.t; u.insert(pb.t.begin(), pb.t.end()); if (!u.empty()) { CHECK(ok, "merge failed"); Parsed p = model(o); CHECK(!p.corrupt && p.t == u, "merge gives %s", hex(o).substr(0, 2000).c_str()); if (ea != eb) CHECK(o == windows(u), "merge of two different indexes gives %s, which is not the plain form %s", hex(o).substr(0, 2000).c_str(), hex(windows(u)).substr(0, 2000).c_str()); check_list(o, p); } }
  else if (ok) { CHECK(model(o).corrupt, "merge with a corrupt index gives %s", hex(o).substr(0, 2000).c_str()); }
  if (a.size() && b.size() && a != b) { pbt::nontrivial(); pbt::classify("merge_of_different_sets"); } if (bad) { pbt::nontrivial(); pbt::classify("corrupted"); } if (a.size() > 1000) pbt::classify("huge"); if (ea.empty() != eb.empty()) pbt::classify("absorbed");
  // a third operand: grouping does not matter
  if (!bad) { TypeSet c = gen_typeset(s); Str ec = encode(s, c), x, y, t1, t2; CHECK(merge(k, ea, eb, t1) && merge(k, t1, ec, x) && merge(k, eb, ec, t2) && merge(k, ea, t2, y), "merge failed"); bool any = ea.empty() || eb.empty() || ec.empty(); CHECK(any ? x.empty() && y.empty() : model(x).t == model(y).t, "grouping matters: %s and %s", hex(x).substr(0, 2000).c_str(), hex(y).substr(0, 2000).c_str()); }
}
