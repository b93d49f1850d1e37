// L01: varints.
#include "buf.h"
extern "C" {
#include "libmy/varint.h"
}
pbt::Config pbt::config = {"L01", "Random values biased to powers of two and 128 (plus all 0..2^20, all 2^k-1..2^k+1) encoded into exact-size buffers, measured and decoded; random byte strings measured against a model. Non-trivial: more than one octet.", 8000000, 60};
void pbt_init() {}
static Str model(uint64_t v) { Str o; while (v >= 128) { o += (char)(v % 128 + 128); v /= 128; } return o + (char)v; }
static void check(uint64_t v, const Str &tail) {
  Str m = model(v); pbt::note("value %llu encoding %s", (unsigned long long)v, hex(m).c_str());
  CHECK(varint_length(v) == m.size(), "varint_length is %u", varint_length(v));
  { Exact e(m.size()); size_t n = varint_encode64(e.p, v); CHECK(n == m.size() && e.str(n) == m, "encode64 gives %s", hex(e.str(m.size())).c_str()); }
  if (v <= 0xffffffffu) { Exact e(m.size()); size_t n = varint_encode32(e.p, v); CHECK(n == m.size() && e.str(n) == m, "encode32 gives %s", hex(e.str(m.size())).c_str()); }
  Str x = m + tail; Exact e(x); uint64_t d = 99; uint32_t d32 = 99;
  CHECK(varint_length_packed(e.p, e.n) == m.size(), "length_packed is %u", varint_length_packed(e.p, e.n));
  for (size_t k = 0; k < m.size(); k++) { Exact c(m.substr(0, k)); CHECK(varint_length_packed(c.p, k) == 0, "length_packed of an encoding cut after %zu octets is %u", k, varint_length_packed(c.p, k)); }
  Exact pad(x.size() >= 10 ? x : x + Str(10 - x.size(), '\xff')); // the decoders take no length
  size_t n = varint_decode64(pad.p, &d); CHECK(n == m.size() && d == v, "decode64 gives %llu, %zu octets", (unsigned long long)d, n);
  n = varint_decode64(Exact(m).p, &d); CHECK(n == m.size() && d == v, "decode64 gives %llu, %zu octets", (unsigned long long)d, n);
  if (v <= 0xffffffffu) { n = varint_decode32(Exact(m).p, &d32); CHECK(n == m.size() && d32 == v, "decode32 gives %u, %zu octets", d32, n); n = varint_decode32(pad.p, &d32); CHECK(n == m.size() && d32 == v, "decode32 gives %u, %zu octets", d32, n); }
  if (m.size() > 1) pbt::nontrivial();
}
uint64_t pbt_fixed_count(bool) { return 64 * 3 + 2048; }
void pbt_fixed(uint64_t i) { if (i < 192) check((1ULL << (i / 3)) - 1 + i % 3, "\xff"); else for (uint64_t k = 0; k < 512; k++) check((i - 192) * 512 + k, ""); }
void pbt_case(Src &s) {
  if (s.chance(1, 5)) { // any octets: measuring
    Str x = s.bytes(s.size(14)); for (auto &c : x) if (!s.chance(1, 6)) c |= 0x80; Exact e(x); size_t i = 0; while (i < x.size() && (x[i] & 0x80)) i++; unsigned want = i < x.size() ? i + 1 : 0; unsigned got = varint_length_packed(e.p, e.n); pbt::note("octets %s", hex(x).c_str()); CHECK(got == want, "length_packed is %u, expected %u", got, want); CHECK(got <= x.size(), "length %u exceeds the buffer", got); if (want != 1) pbt::nontrivial(); pbt::classify(want ? "terminated" : "unterminated"); return; }
  uint64_t v = s.u64(); if (pbt::want_sample()) pbt::sample("value %llu", (unsigned long long)v); check(v, s.bytes(s.below(4))); char c[16]; snprintf(c, 16, "%zu_octets", model(v).size()); pbt::classify(c);
}
