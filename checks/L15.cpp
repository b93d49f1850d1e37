// L15: string helpers.
#include "buf.h"
#include <unistd.h>
#include <errno.h>
extern "C" { char *shim_replace(const char *, const char *, const char *); void shim_print(const void *, size_t, FILE *); int shim_read(int, unsigned char *, size_t); int shim_getenv(const char *, unsigned long long *); size_t shim_hexstr(const unsigned char *, size_t, int, char *, size_t); size_t shim_hex16(unsigned, int, char *, size_t); size_t shim_dec(unsigned long long, char *, size_t, const char **); ssize_t __real_read(int, void *, size_t); }
pbt::Config pbt::config = {"L15", "Strings over small alphabets with overlapping occurrences, byte strings with every octet, numbers at powers of two and ten, buffers of every size around what is needed in guarded memory, reads cut short, interrupted, failed or ended at generated points, environment values in every base with junk and overflow. Oracle: independent models. Non-trivial: a replacement with two or more occurrences, a cut-off format, a read in several parts, or a rejected value.", 2000000, 60};
static const int FD = 0x7ffffff0; static Str stream; static size_t spos; static std::vector<int> plan; static size_t ppos; static unsigned calls; static const unsigned char *want_at; static size_t want_left;
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (fd != FD) return __real_read(fd, b, n);
  calls++; CHECK(calls < 10000, "endless reading"); CHECK(b == want_at && n <= want_left, "read of %zu octets, %zu are missing", n, want_left);
  int p = ppos < plan.size() ? plan[ppos++] : 0; if (p == -1) { errno = EINTR; return -1; } if (p == -2) { errno = EIO; return -1; } if (p == -3) return 0;
  size_t k = std::min(n, stream.size() - spos); if (p > 0) k = std::min<size_t>(k, p); memcpy(b, stream.data() + spos, k); spos += k; want_at += k; want_left -= k; return k;
}
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
struct CStr { Exact e; CStr(const Str &s) : e(s + Str(1, 0)) {} const char *c() const { return (const char *)e.p; } };
static void t_replace(Src &s) {
  const char *al = s.oneof<const char *>({"ab", "a", "abc", "xyzzy ."}); auto mk = [&](size_t n) { Str o; for (size_t i = 0; i < n; i++) o += al[s.below(strlen(al))]; return o; };
  Str str = mk(s.size(60)), old = mk(1 + (s.chance(1, 4) ? s.size(40) : s.size(4))), nw = s.chance(1, 4) ? old + mk(s.size(3)) : s.chance(1, 4) ? old.substr(0, 1 + s.below(old.size())) + mk(s.size(3)) : mk(s.size(8)); if (s.chance(1, 10) && nw.size()) nw.erase(0, 1); if (s.chance(1, 3)) { Str t; size_t k = s.size(6); for (size_t i = 0; i < k; i++) t += mk(s.below(3)) + old; str = t + mk(s.below(3)); } if (s.chance(1, 40)) nw = Str(1 + s.below(2000), 'n');
  Str want; unsigned occ = 0; for (size_t i = 0; i < str.size();) { if (str.compare(i, old.size(), old) == 0) { want += nw; i += old.size(); occ++; } else want += str[i++]; }
  pbt::note("replace %s by %s in %s", quote(old).c_str(), quote(nw).c_str(), quote(str).c_str()); CStr a(str), b(old), c(nw); char *r = shim_replace(a.c(), b.c(), c.c()); CHECK(r, "no result"); Str got = r; free(r); CHECK(got == want, "got %s, expected %s", quote(got).c_str(), quote(want).c_str()); CHECK(str == a.c() && old == b.c() && nw == c.c(), "arguments changed");
  if (occ > 1) pbt::nontrivial(); pbt::classify("replace"); if (pbt::want_sample()) pbt::sample("replace %s by %s in %s", quote(old).c_str(), quote(nw).c_str(), quote(str).c_str());
}
static void t_print(Src &s) {
  Str d = s.bytes(s.size(40)); if (s.flip()) for (auto &c : d) c = 28 + (uint8_t)c % 12; char *m = nullptr; size_t n = 0; FILE *f = open_memstream(&m, &n); { Exact e(d); shim_print(e.p, e.n, f); } fclose(f); Str got(m, n); free(m);
  Str want = "\""; for (unsigned char c : d) { if (c == '"') want += "\\\""; else if (c >= 32 && c < 127) want += c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); want += b; } } want += "\"";
  CHECK(got == want, "%s printed as %s", hex(d).c_str(), got.c_str()); if (d.size()) pbt::nontrivial(); pbt::classify("print");
}
static void t_read(Src &s) {
  size_t need = s.size(60); stream = s.bytes(s.chance(1, 4) ? s.size(60) : need + s.below(10)); spos = 0; plan.clear(); ppos = 0; calls = 0; size_t k = s.size(12); for (size_t i = 0; i < k; i++) plan.push_back(s.weighted({4, 3, 1, 1}) == 0 ? 1 + (int)s.below(8) : s.oneof<int>({-1, -1, -1, -2, -3, 0}));
  std::vector<unsigned char> buf(need); Exact e(Str(need, '\x55')); want_at = e.p; want_left = need;
  // the model
  bool ok = true; size_t p = 0, at = 0; while (at < need) { int x = p < plan.size() ? plan[p++] : 0; if (x == -1) continue; if (x == -2 || x == -3) { ok = false; break; } size_t n = std::min(need - at, stream.size() - at); if (x > 0) n = std::min<size_t>(n, x); if (!n) { ok = false; break; } at += n; }
  Str ps; for (int x : plan) ps += " " + std::to_string(x); pbt::note("read %zu of %zu:%s", need, stream.size(), ps.c_str()); bool r = shim_read(FD, (unsigned char *)e.p, need); CHECK(r == ok, "%s", r ? "success although octets are missing" : "failure although all could be read"); CHECK(ok ? spos == need : spos < need, "%zu octets taken", spos); CHECK(!memcmp(e.p, stream.data(), spos), "wrong octets");
  if (calls > 1) pbt::nontrivial(); pbt::classify("read");
}
static void t_env(Src &s) {
  uint64_t v = s.u64(); char b[80]; Str t; bool ok = true; switch (s.below(7)) { case 0: snprintf(b, 80, "%llu", (unsigned long long)v); t = b; break; case 1: snprintf(b, 80, s.flip() ? "0x%llx" : s.flip() ? "0X%llX" : "0x%024llX", (unsigned long long)v); t = b; break; case 2: snprintf(b, 80, "0%llo", (unsigned long long)v); t = Str(s.chance(1, 3) ? 1 + s.below(4) : 0, '0') + b; break;
    case 3: snprintf(b, 80, "%llu", (unsigned long long)v); t = Str(b) + s.oneof<Str>({"x", " ", ".", "k", "\n", "-", "g"}); ok = false; break; case 4: t = s.oneof<Str>({"", "x", "0x", "0xg", "zz", "#", "08", "0x 1", ".5", "abc"}); ok = false; break;
    case 5: snprintf(b, 80, "%llu", (unsigned long long)(UINT64_MAX - s.below(10))); t = b; if (s.flip()) { t += (char)('0' + s.below(10)); ok = false; } else v = strtoull(b, nullptr, 10); break; default: t = s.flip() ? "18446744073709551616" : "0x10000000000000000"; ok = false; }
  bool set = !s.chance(1, 12); if (set) setenv("PBT_VALUE", t.c_str(), 1); else { unsetenv("PBT_VALUE"); ok = false; } if (s.flip()) errno = ERANGE; else errno = 0;
  unsigned long long got = 77; bool r = shim_getenv("PBT_VALUE", &got); pbt::note("value %s%s", set ? "" : "(unset) ", quote(t).c_str()); CHECK(r == ok, "%s: %s", quote(t).c_str(), r ? "accepted" : "rejected"); if (ok) CHECK(got == v, "%s read as %llu", t.c_str(), got); unsetenv("PBT_VALUE"); if (!ok || v > 9) pbt::nontrivial(); pbt::classify("getenv");
}
static void t_fmt(Src &s) {
  if (s.flip()) {
    uint64_t v = s.u64(); if (s.chance(1, 3)) { v = 1; size_t k = s.below(20); while (k--) v *= 10; v += s.below(3) - 1; } Str full = std::to_string(v); size_t n = s.chance(1, 6) ? s.below(40) : full.size() + s.below(5) - std::min<size_t>(2, full.size()); if (s.chance(1, 8)) n = s.below(3);
    Exact e(Str(n, '\x55')); const char *st = (const char *)1; bool wants = !s.chance(1, 6); size_t r = shim_dec(v, (char *)e.p, n, wants ? &st : nullptr); pbt::note("%s into %zu octets", full.c_str(), n);
    size_t d = n ? std::min(full.size(), n - 1) : 0; CHECK(r == d, "%zu digits reported, expected %zu", r, d); if (n) { CHECK(e.p[n - 1] == 0 || d == 0, "not terminated"); Str got((char *)e.p + n - 1 - d, d); CHECK(got == full.substr(full.size() - d), "%s written as %s", full.c_str(), got.c_str()); if (wants) { const char *w = (char *)e.p + (d || n < 2 ? n - 1 - d : 0); if (n >= 2) CHECK(st == (char *)e.p + n - 1 - d, "start is off by %ld", (long)(st - w)); CHECK(strlen(st) == d, "text at start has %zu digits", strlen(st)); } }
    if (d < full.size()) pbt::nontrivial(); pbt::classify("decimal");
  } else {
    bool up = s.flip(), w16 = s.chance(1, 3); unsigned v = s.below(65536); Str src = w16 ? Str{(char)(v >> 8), (char)v} : s.bytes(s.size(20)); Str full; for (unsigned char c : src) { char b[3]; snprintf(b, 3, up ? "%02X" : "%02x", c); full += b; }
    size_t n = s.chance(1, 6) ? s.below(50) : full.size() + s.below(6) - std::min<size_t>(3, full.size()); Exact e(Str(n, '\x55')), in(src); size_t r = w16 ? shim_hex16(v, up, (char *)e.p, n) : shim_hexstr(in.p, in.n, up, (char *)e.p, n); pbt::note("%s into %zu octets", full.c_str(), n);
    size_t d = n ? std::min(full.size(), (n - 1) / 2 * 2) : 0; CHECK(r == d, "%zu digits reported, expected %zu", r, d); if (n) { CHECK(e.p[d] == 0, "not terminated"); CHECK(!memcmp(e.p, full.data(), d), "%s written as %s", full.c_str(), (char *)e.p); }
    if (d < full.size()) pbt::nontrivial(); pbt::classify("hexadecimal");
  }
}
void pbt_case(Src &s) { switch (s.below(5)) { case 0: t_replace(s); break; case 1: t_print(s); break; case 2: t_read(s); break; case 3: t_env(s); break; default: t_fmt(s); } }
