// L05: hexadecimal.
#include "buf.h"
extern "C" { int shim_hex(const char *, unsigned char **, size_t *); int shim_hexdigit(char, unsigned char *); }
pbt::Config pbt::config = {"L05", "Random even-length hexadecimal strings in random case decoded and compared, and the same strings with one character removed, added or replaced; all 65536 two-character strings. Non-trivial: a string that must be rejected, or mixed case.", 10000000, 60};
void pbt_init() {}
static int val(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void check(const Str &x) {
  Str t = x.c_str(), want; bool ok = t.size() % 2 == 0; for (size_t i = 0; i < t.size(); i++) if (val(t[i]) < 0) ok = false;
  if (ok) for (size_t i = 0; i < t.size(); i += 2) want += (char)(val(t[i]) * 16 + val(t[i + 1]));
  pbt::note("string %s", quote(t).c_str()); if (t.empty()) return; // the empty string: see DESIGN.md
  Exact e(Str(t.c_str(), t.size() + 1)); unsigned char *raw = nullptr; size_t n = 12345; bool got = shim_hex((char *)e.p, &raw, &n);
  CHECK(got == ok, "%s", got ? "accepted" : "rejected"); if (ok) { CHECK(n == want.size() && !memcmp(raw, want.data(), n), "decoded as %s", hex(raw, n).c_str()); free(raw); pbt::classify("decoded"); } else pbt::classify("rejected");
}
uint64_t pbt_fixed_count(bool) { return 65536; }
void pbt_fixed(uint64_t i) { Str x; x += (char)i; x += (char)(i >> 8); check(x); if (i < 256) { unsigned char v = 99; bool r = shim_hexdigit((char)i, &v); CHECK(r == (val(i) >= 0) && (!r || v == val(i)), "digit %d: %d %d", (int)i, r, v); } pbt::nontrivial(); }
void pbt_case(Src &s) {
  size_t n = s.chance(1, 60) ? s.size(3000) : s.size(40); Str x; for (size_t i = 0; i < 2 * n; i++) x += "0123456789abcdefABCDEF"[s.below(22)]; if (s.flip()) pbt::nontrivial(), (void)0;
  switch (s.below(4)) { case 1: if (!x.empty()) x.erase(s.below(x.size()), 1); pbt::nontrivial(); break; case 2: if (!x.empty()) x[s.below(x.size())] = 1 + s.below(255); pbt::nontrivial(); break; case 3: x.insert(s.below(x.size() + 1), 1, s.oneof<char>({'g', 'G', ' ', '0', '/', ':', '@', '`', 'x', '\xc1'})); pbt::nontrivial(); break; default: break; }
  if (pbt::want_sample()) pbt::sample("%s", quote(x).c_str()); check(x);
}
