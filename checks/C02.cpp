// C02: arbitrary bytes.
#include "render.h"
pbt::Config pbt::config = {"C02", "Arbitrary or mutated key and value byte strings in exact-size heap buffers (any access outside is an AddressSanitizer error): decode, read every accessor, render in all 16 formatter configurations. An accepted entry must be what a lenient reference parser finds at the same place. Records of up to 130000 octets of rdata, whole or sliced, are included. Non-trivial: the pair is not a well-formed record.", 700000, 60};
void pbt_init() {}
// Lenient reference parser: what an accepted key/value pair can only mean.
static bool uname(const Str &k, size_t &i, size_t end, Str &out) { size_t b = i; while (i < end) { uint8_t l = k[i]; if (l > 63) return false; if (l == 0) { i++; out = k.substr(b, i - b); return out.size() <= 255; } i += 1 + l; } return false; }
static bool vint(const Str &k, size_t &i, size_t end, int max, uint64_t &v) { v = 0; for (int n = 0; n < max && i < end; n++) { uint8_t c = k[i++]; v |= (uint64_t)(c & 127) << (7 * n); if (!(c & 128)) return true; } return false; }
static bool parse(const Str &k, const Str &v, Rec &r) {
  if (k.empty()) return false; r.kind = (uint8_t)k[0]; size_t i = 1, end = k.size(), j = 0; Str n; uint64_t x;
  auto trip = [&]() { return vint(v, j, v.size(), 10, r.first) && vint(v, j, v.size(), 10, r.last) && vint(v, j, v.size(), 10, r.count) && j == v.size(); };
  switch (r.kind) {
  case K_RRSET: if (!uname(k, i, end, n)) return false; r.owner = rev(n); if (!vint(k, i, end, 5, x) || (uint32_t)x > 65535) return false; r.type = (uint16_t)x; if (!uname(k, i, end, n)) return false; r.bailiwick = rev(n);
    while (i < end) { if (!vint(k, i, end, 5, x) || (uint32_t)x > 65535 || (uint32_t)x > end - i) return false; r.rdatas.push_back(k.substr(i, (uint32_t)x)); i += (uint32_t)x; } return trip();
  case K_NAME_FWD: if (!uname(k, i, end, n) || i != end) return false; r.owner = n; r.use_raw = true; r.rawunion = v; return true;
  case K_NAME_REV: if (!uname(k, i, end, n) || i != end) return false; r.rname = rev(n); r.use_raw = true; r.rawunion = v; return true;
  case K_RDATA: { if (end < 3) return false; size_t l = (uint8_t)k[end - 2] | (uint8_t)k[end - 1] << 8; end -= 2; if (l > end - i) return false; Str d = k.substr(i, l); i += l; if (!vint(k, i, end, 5, x) || (uint32_t)x > 65535) return false; r.type = (uint16_t)x; if (!uname(k, i, end, n)) return false; r.owner = rev(n); if (end - i + l > 65535) return false; r.rdatas = {k.substr(i, end - i) + d}; return trip(); }
  case K_TIME: return vint(v, j, v.size(), 10, r.first) && vint(v, j, v.size(), 10, r.last) && j == v.size();
  case K_SOURCE: r.text = k.substr(1).c_str(); return true;
  case K_VERSION: if (k.size() != 2 || !vint(v, j, v.size(), 5, x) || j != v.size()) return false; r.vtype = (uint8_t)k[1]; r.version = (uint32_t)x; return true;
  }
  return false;
}
static void mutate(Src &s, Str &x) {
  size_t n = 1 + s.below(3);
  while (n--) switch (s.below(6)) {
    case 0: if (!x.empty()) x.resize(s.below(x.size())); break;
    case 1: if (!x.empty()) x[s.below(x.size())] ^= 1 << s.below(8); break;
    case 2: if (!x.empty()) x[s.below(x.size())] = s.oneof<int>({0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff}); break;
    case 3: x.insert(s.below(x.size() + 1), s.bytes(1 + s.below(4))); break;
    case 4: if (!x.empty()) x.erase(s.below(x.size()), 1 + s.below(3)); break;
    case 5: x += Str(1 + s.below(12), s.oneof<char>({(char)0x80, (char)0xff, 0})); break;
  }
}
static void run(const Str &k, const Str &v, unsigned fmtmask) {
  auto e = decode(k, v); Rec r; bool ok = parse(k, v, r);
  if (!e) { pbt::classify("rejected"); return; }
  pbt::classify("accepted");
  CHECK(ok, "bytes that contain no complete entry were decoded");
  View w = view(e); check_view(w, r);
  bool has_union = r.kind == K_NAME_FWD || r.kind == K_NAME_REV;
  for (unsigned c = 0; c < 32; c++) { if (!(fmtmask >> c & 1)) continue;
    Formatter f; f.set(0, c & 1); f.set(1, c & 2); f.set(2, c & 4); f.set(3, c & 8); dnstable_entry_set_iszone(e, c & 16); f.m.zone = c & 16;
    char *t = dnstable_entry_format(f.f, e); CHECK(t, "entry not rendered (%s)", fmt_desc(f.m).c_str()); size_t n = strlen(t);
    if (has_union) { if (f.m.json) { J j; Str x = t; JP p(x); CHECK(p.parse(j), "invalid JSON (%s): %s", p.err.c_str(), t); const J *q = j.get("rrtypes"); CHECK(q && q->t == 'a', "no rrtype list in %s", t); } else CHECK(n && t[n - 1] == '\n', "text not terminated: %s", t); }
    else if (r.kind == K_SOURCE && f.m.json) { bool ascii = true; for (unsigned char ch : r.text) if (ch >= 128) ascii = false; if (ascii) check_json(t, r, f.m); }
    else check_render(t, r, f.m);
    free(t);
  }
  char *t = dnstable_entry_to_json(e); CHECK(t, "not rendered"); free(t); t = dnstable_entry_to_text(e); CHECK(t, "not rendered"); free(t);
  dnstable_entry_destroy(&e); CHECK(!e, "handle not cleared");
}
uint64_t pbt_fixed_count(bool) { return 256 * 260; }
void pbt_fixed(uint64_t i) { // every type byte with every following byte, and no key at all
  Str k; if (i / 256 < 256) { k += (char)(i / 256); k += (char)(i % 256); } else if (i / 256 < 257) k += (char)(i % 256); else k.clear();
  for (Str v : {Str(), Str(1, '\0'), Str(2, '\x80'), Str("\1\2\3", 3)}) run(k, v, 0x80000003); pbt::nontrivial();
}
void pbt_case(Src &s) {
  Str k, v; bool wf = false;
  switch (s.weighted({3, 8, 1})) {
  case 0: k = Str(1, s.oneof<int>({0, 1, 2, 3, 253, 254, 255})) + s.bytes(s.size(40)); v = s.bytes(s.size(40)); break;
  case 1: { Rec r = gen_rec(s); k = r.key(); v = r.val(); int w = s.below(4); if (w == 0) wf = true; if (s.chance(1, 60) && r.kind == K_RRSET) { Str big(s.chance(1, 2) ? s.oneof<unsigned>({65535, 65536, 65537, 131070, 131071, 131072}) : 60000 + s.below(80000), (char)s.below(256)); r.rdatas.insert(r.rdatas.begin() + s.below(r.rdatas.size() + 1), big); k = r.key(); if (s.flip()) w = 0; pbt::classify("long_rdata"); } if (s.chance(1, 60) && r.kind == K_RDATA) { size_t tot = s.flip() ? 65530 + s.below(12) : 60000 + s.below(70000), hi = std::min<size_t>(tot, 65535); Str big(tot, (char)s.below(256)); big[s.below(tot)] ^= 1; r.rdatas = {big}; r.slice = tot - (s.flip() ? hi : s.below(hi + 1)); k = r.key(); if (s.flip()) w = 0; pbt::classify("long_slice"); } if (w & 1) mutate(s, k); if (w & 2) mutate(s, v); break; }
  case 2: k = s.bytes(s.size(80)); v = s.bytes(s.size(300)); break;
  }
  pbt::note("key %s\nval %s", hex(k).substr(0, 3000).c_str(), hex(v).substr(0, 3000).c_str()); if (pbt::want_sample()) pbt::sample("key=%s val=%s", hex(k).substr(0, 300).c_str(), hex(v).substr(0, 300).c_str());
  if (!wf) pbt::nontrivial();
  run(k, v, k.size() > 2000 ? 3 : 1u << s.below(32) | 1u << s.below(32) | 1u << s.below(32));
}
