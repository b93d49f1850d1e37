// L17: lookup3 hash functions.
#include "buf.h"
#include <sys/mman.h>
extern "C" {
#include "libmy/lookup3.h"
}
pbt::Config pbt::config = {"L17", "Random keys of 0-300 octets and random seeds at every alignment within a page whose neighbours are inaccessible, and with random surroundings; hashes compared with a byte-wise reference of the published algorithm. Non-trivial: unaligned key or length not a multiple of 12.", 10000000, 60};
static uint8_t *page;   // one accessible page between two inaccessible ones
void pbt_init() { uint8_t *m = (uint8_t *)mmap(nullptr, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) abort(); page = m + 4096; if (mprotect(page, 4096, PROT_READ | PROT_WRITE)) abort(); }
static uint32_t rot(uint32_t x, int k) { return x << k | x >> (32 - k); }
static void mix(uint32_t &a, uint32_t &b, uint32_t &c) { a -= c; a ^= rot(c, 4); c += b; b -= a; b ^= rot(a, 6); a += c; c -= b; c ^= rot(b, 8); b += a; a -= c; a ^= rot(c, 16); c += b; b -= a; b ^= rot(a, 19); a += c; c -= b; c ^= rot(b, 4); b += a; }
static void fin(uint32_t &a, uint32_t &b, uint32_t &c) { c ^= b; c -= rot(b, 14); a ^= c; a -= rot(c, 11); b ^= a; b -= rot(a, 25); c ^= b; c -= rot(b, 16); a ^= c; a -= rot(c, 4); b ^= a; b -= rot(a, 14); c ^= b; c -= rot(b, 24); }
// reference on octets; words are read little- or big-endian, a partial last word is zero-filled
static void ref(const Str &k, uint32_t pc, uint32_t pb, bool big, uint32_t &oc, uint32_t &ob) {
  uint32_t a, b, c; a = b = c = 0xdeadbeef + (uint32_t)k.size() + pc; c += pb; size_t n = k.size(), i = 0;
  auto w = [&](size_t at) { uint32_t v = 0; for (int j = 0; j < 4; j++) { uint32_t x = at + j < n ? (uint8_t)k[at + j] : 0; v |= x << (big ? 24 - 8 * j : 8 * j); } return v; };
  while (n - i > 12) { a += w(i); b += w(i + 4); c += w(i + 8); mix(a, b, c); i += 12; }
  if (n == 0) { oc = c; ob = b; return; } // nothing left to hash
  a += w(i); b += w(i + 4); c += w(i + 8); fin(a, b, c); oc = c; ob = b;
}
static void check(const Str &k, uint32_t seed, uint32_t seed2, size_t off, uint8_t fill) {
  CHECK(off + k.size() <= 4096, "harness"); memset(page, fill, 4096); memcpy(page + off, k.data(), k.size()); const uint8_t *p = page + off;
  uint32_t w, wb, x; ref(k, seed, 0, false, w, wb); uint32_t h = my_hashlittle(p, k.size(), seed); pbt::note("key %s length %zu seed %08x offset %zu", hex(k).c_str(), k.size(), seed, off);
  CHECK(h == w, "hashlittle gives %08x, expected %08x", h, w);
  uint32_t pc = seed, pb = 0; my_hashlittle2(p, k.size(), &pc, &pb); CHECK(pc == h, "hashlittle2 primary value is %08x, hashlittle gives %08x", pc, h); CHECK(pb == wb, "hashlittle2 secondary value is %08x, expected %08x", pb, wb);
  ref(k, seed, seed2, false, w, wb); pc = seed; pb = seed2; my_hashlittle2(p, k.size(), &pc, &pb); CHECK(pc == w && pb == wb, "hashlittle2 with two seeds gives %08x %08x, expected %08x %08x", pc, pb, w, wb);
  ref(k, seed, 0, true, w, x); h = my_hashbig(p, k.size(), seed); CHECK(h == w, "hashbig gives %08x, expected %08x", h, w);
  if (k.size() % 4 == 0 && off % 4 == 0) { ref(k, seed, 0, false, w, wb); h = my_hashword((const uint32_t *)p, k.size() / 4, seed); CHECK(h == w, "hashword gives %08x, expected %08x", h, w); pc = seed; pb = 0; my_hashword2((const uint32_t *)p, k.size() / 4, &pc, &pb); CHECK(pc == w && pb == wb, "hashword2 gives %08x %08x, expected %08x %08x", pc, pb, w, wb); pbt::classify("words"); }
  CHECK(!memcmp(page + off, k.data(), k.size()), "key changed");
}
uint64_t pbt_fixed_count(bool) { return 64 * 8; }
void pbt_fixed(uint64_t i) { Str k(i / 8, 0); for (size_t j = 0; j < k.size(); j++) k[j] = (char)(j * 37 + i); check(k, 0, 1, i % 8, 0); check(k, 0x12345678, 0, 4096 - k.size(), 0xff); check(k, 0, 0, (4096 - k.size()) & ~3u, 0x55); if (i == 0) { CHECK(my_hashlittle("Four score and seven years ago", 30, 0) == 0x17770551u && my_hashlittle("Four score and seven years ago", 30, 1) == 0xcd628161u, "published values"); } pbt::nontrivial(); }
void pbt_case(Src &s) {
  Str k = s.bytes(s.chance(1, 20) ? s.below(300) : s.below(40)); uint32_t sd = s.u32(), s2 = s.u32(); size_t off = s.flip() ? s.below(64) : 4096 - k.size() - s.below(4 < 4096 - k.size() ? 4 : 1);
  if (pbt::want_sample()) pbt::sample("key %s seed %08x offset %zu", hex(k).substr(0, 100).c_str(), sd, off); check(k, sd, s2, off, s.below(256)); check(k, sd, s2, (off * 7 + 1) % 3000, s.below(256)); if (off % 4 || k.size() % 12) pbt::nontrivial(); if (off + k.size() == 4096) pbt::classify("ends_at_page_end");
}
