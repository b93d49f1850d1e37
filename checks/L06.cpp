// L06: address prefixes.
#include "buf.h"
extern "C" void shim_ip(int, void *, unsigned, void *);
pbt::Config pbt::config = {"L06", "Random IPv4 and IPv6 addresses (biased to runs of 00 and ff) with every prefix length, bounds and increments compared with a bit-by-bit model. Non-trivial: prefix strictly between 0 and full, or an increment with carry.", 1500000, 60};
void pbt_init() {}
static Str bound(Str a, unsigned plen, bool up) { for (unsigned i = plen; i < a.size() * 8; i++) { if (up) a[i / 8] |= 0x80 >> (i & 7); else a[i / 8] &= ~(0x80 >> (i & 7)); } return a; }
static Str incr(Str a) { for (size_t i = a.size(); i--;) { a[i] = (uint8_t)a[i] + 1; if (a[i]) break; } return a; }
static void check(const Str &a, bool all, unsigned one) {
  int b = a.size() == 4 ? 0 : 3; pbt::note("address %s", hex(a).c_str());
  for (unsigned p = all ? 0 : one; p <= (all ? a.size() * 8 : one); p++) for (int up = 0; up < 2; up++) { Exact in(a), out(a.size()); shim_ip(b + up, in.p, p, out.p); Str w = bound(a, p, up); CHECK(out.str(a.size()) == w, "/%u %s bound is %s, expected %s", p, up ? "upper" : "lower", hex(out.str(a.size())).c_str(), hex(w).c_str()); CHECK(in.str(a.size()) == a, "input changed"); }
  Exact x(a); shim_ip(b + 2, x.p, 0, nullptr); CHECK(x.str(a.size()) == incr(a), "increment gives %s", hex(x.str(a.size())).c_str());
}
uint64_t pbt_fixed_count(bool) { return 4 * 256 + 16 * 256; }
void pbt_fixed(uint64_t i) { size_t n = i < 1024 ? 4 : 16; if (n == 16) i -= 1024; Str a(n, i & 1 ? '\xff' : '\0'); a[i / 256] = (char)i; check(a, true, 0); pbt::nontrivial(); }
void pbt_case(Src &s) {
  Str a(s.flip() ? 16 : 4, 0); int m = s.below(4); for (auto &c : a) c = m == 0 ? s.below(256) : m == 1 ? (s.flip() ? 0xff : 0) : m == 2 ? s.oneof<int>({0, 1, 0x7f, 0x80, 0xfe, 0xff}) : 0xff; if (m == 3) { size_t k = s.below(a.size()); a[k] = s.below(256); if (s.flip()) for (size_t i = 0; i < k; i++) a[i] = s.below(256); }
  unsigned p = s.below(a.size() * 8 + 1); if (pbt::want_sample()) pbt::sample("%s/%u", hex(a).c_str(), p); check(a, s.chance(1, 8), p); if ((p && p < a.size() * 8) || a.back() == '\xff') pbt::nontrivial(); pbt::classify(a.size() == 4 ? "ipv4" : "ipv6"); if (p == 0) pbt::classify("slash_0"); if (a.substr(a.size() - 2) == "\xff\xff") pbt::classify("carry");
}
