// L04: base32hex.
#include "buf.h"
extern "C" {
size_t base32_encode(char *dst, size_t size, const void *data, size_t len);
size_t base32_decode(void *dst, size_t size, const char *data, size_t len);
}
pbt::Config pbt::config = {"L04", "Random octets encoded into buffers of exact, larger and smaller size, decoded in upper, lower and mixed case into buffers of exact or smaller size; every character value tried as foreign character at every position. Non-trivial: a buffer that is too small, lower case, or a foreign character.", 4000000, 60};
void pbt_init() {}
static const char *AL = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
static Str model(const Str &d) { Str o; unsigned acc = 0; int bits = 0; for (unsigned char c : d) { acc = (acc & 31) << 8 | c; bits += 8; while (bits >= 5) { bits -= 5; o += AL[acc >> bits & 31]; } } if (bits) o += AL[acc << (5 - bits) & 31]; return o; }
uint64_t pbt_fixed_count(bool) { return 256 * 5 + 65536; }
void pbt_fixed(uint64_t i) {
  if (i >= 1280) { i -= 1280; Str d; d += (char)i; d += (char)(i >> 8); Str m = model(d); Exact in(d), out(4); CHECK(base32_encode((char *)out.p, 4, in.p, 2) == 4 && out.str(4) == m, "two octets %04x give %s", (unsigned)i, out.str(4).c_str()); return; }
  unsigned ch = i / 5, len = 1 + i % 5; Str d = Str("\x12\x34\x56\x78\x9a").substr(0, len), t = model(d); if (ch == '=' || (ch && strchr(AL, toupper(ch)))) return;
  for (size_t k = 0; k < t.size(); k++) { Str x = t; x[k] = ch; Exact in(x), out(d.size()); size_t n = base32_decode(out.p, out.n, (char *)in.p, in.n); CHECK(n == (size_t)-1, "character %u at %zu of %s is accepted", ch, k, t.c_str()); } pbt::nontrivial();
}
void pbt_case(Src &s) {
  Str d = s.bytes(s.chance(1, 200) ? s.below(3000) : s.size(64)), m = model(d); pbt::note("data %s text %s", hex(d).substr(0, 1000).c_str(), m.substr(0, 1000).c_str()); if (pbt::want_sample()) pbt::sample("data %s", hex(d).substr(0, 200).c_str());
  Exact in(d); size_t sz = m.size(); int mode = s.below(3); if (mode == 1) sz += s.below(20); else if (mode == 2 && sz) sz = s.below(sz);
  { Exact out(sz); size_t n = base32_encode((char *)out.p, sz, in.p, d.size()); size_t want = std::min(sz, m.size()); CHECK(n == want && out.str(n) == m.substr(0, want), "encoding into %zu characters gives %zu: %s", sz, n, out.str(std::min(n, sz)).c_str()); }
  if (sz < m.size()) { pbt::nontrivial(); pbt::classify("encode_truncated"); }
  Str t = m; int cs = s.below(3); for (auto &c : t) if (cs == 1 || (cs == 2 && s.flip())) c = tolower(c); if (cs) { pbt::nontrivial(); pbt::classify("lower_case"); }
  size_t ds = d.size(); if (s.chance(1, 4) && ds) { ds = s.below(ds); pbt::classify("decode_truncated"); pbt::nontrivial(); }
  { Exact tx(t), out(ds); size_t n = base32_decode(out.p, ds, (char *)tx.p, tx.n); CHECK(n == ds && out.str(n) == d.substr(0, ds), "decoding into %zu octets gives %zd: %s", ds, (ssize_t)n, n <= ds ? hex(out.str(n)).c_str() : ""); }
  if (!t.empty() && s.chance(1, 3)) { char c; do c = (char)s.below(256); while (c == '=' || (c && strchr(AL, toupper((unsigned char)c)))); size_t at = s.below(t.size()); Str x = t; x[at] = c; Exact tx(x), out(d.size()); size_t n = base32_decode(out.p, d.size(), (char *)tx.p, tx.n); CHECK(n == (size_t)-1, "%s with foreign character at %zu is accepted", quote(x).c_str(), at); pbt::classify("foreign"); pbt::nontrivial(); }
}
