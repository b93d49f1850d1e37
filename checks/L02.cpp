// L02: CRC-32C.
#include "buf.h"
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "libmy/crc32c.h"
uint32_t my_crc32c_slicing(const uint8_t *, size_t);
bool my_crc32c_sse42_supported(void); uint32_t my_crc32c_sse42(const uint8_t *, size_t);
}
pbt::Config pbt::config = {"L02", "Random byte strings of 0-5000 octets at random alignment, at the end of an exact heap block, computed by the selected and both direct implementations and compared with a bitwise reference; all lengths 0-600 at all 16 alignments. Non-trivial: 8 octets or more.", 6000000, 60};
// the function pointer's first value, before any constructor chooses an implementation
static my_crc32c_fp first_fp; __attribute__((constructor(101))) static void early() { first_fp = my_crc32c; }
static uint32_t T[256]; static bool have;
void pbt_init() { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x82f63b78u : c >> 1; T[i] = c; }
#if defined(__x86_64__)
  have = my_crc32c_sse42_supported();
#endif
}
static uint32_t ref(const uint8_t *p, size_t n) { uint32_t c = ~0u; while (n--) c = T[(c ^ *p++) & 255] ^ c >> 8; return ~c; }
static void check(const Str &d, size_t align) {
  Exact e(Str(align, 'x') + d); const uint8_t *p = e.p + align; uint32_t w = ref(p, d.size());
  pbt::note("length %zu alignment %zu data %s", d.size(), align, hex(d).substr(0, 400).c_str());
  uint32_t a = my_crc32c(p, d.size()), b = my_crc32c_slicing(p, d.size()); CHECK(a == w, "my_crc32c gives %08x, expected %08x", a, w); CHECK(b == w, "slicing gives %08x, expected %08x", b, w);
#if defined(__x86_64__)
  if (have) { uint32_t c = my_crc32c_sse42(p, d.size()); CHECK(c == w, "sse42 gives %08x, expected %08x", c, w); pbt::classify("hardware"); }
#endif
  { uint32_t c = first_fp(p, d.size()); CHECK(c == w, "my_crc32c as it is before the implementation has been chosen gives %08x, expected %08x", c, w); c = my_crc32c(p, d.size()); CHECK(c == w, "my_crc32c gives %08x after its first use, expected %08x", c, w); }
  if (d.size() >= 8) pbt::nontrivial();
}
uint64_t pbt_fixed_count(bool) { return 601 * 16; }
void pbt_fixed(uint64_t i) { Str d(i / 16, 0); uint64_t x = i * 0x9e3779b97f4a7c15ULL + 1; for (auto &c : d) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; c = x >> 56; } check(d, i % 16); if (i / 16 == 9 && i % 16 == 0) CHECK(ref((const uint8_t *)"123456789", 9) == 0xe3069283u, "reference"); }
void pbt_case(Src &s) { size_t n = s.chance(1, 60) ? s.below(5000) : s.size(200); Str d; if (s.chance(1, 4)) d = Str(n, (char)s.below(256)); else d = s.bytes(n); size_t al = s.below(16); if (pbt::want_sample()) pbt::sample("length %zu alignment %zu data %s", n, al, hex(d).substr(0, 200).c_str()); check(d, al); if (n > 1024) pbt::classify("over_1k"); else if (n >= 64) pbt::classify("64_to_1k"); else if (n < 8) pbt::classify("under_8"); }
