// L03: base64.
#include "buf.h"
extern "C" {
#include "libmy/b64_encode.h"
#include "libmy/b64_decode.h"
}
pbt::Config pbt::config = {"L03", "Random octets encoded and decoded in random chunkings (including empty chunks) into exact-size buffers, with random foreign characters inserted before decoding; every single character value decoded. Non-trivial: several chunks, or foreign characters.", 1200000, 60};
void pbt_init() {}
static const char *AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static Str model(const Str &d) { Str o; size_t i = 0; for (; i + 2 < d.size(); i += 3) { unsigned v = (uint8_t)d[i] << 16 | (uint8_t)d[i + 1] << 8 | (uint8_t)d[i + 2]; for (int k = 18; k >= 0; k -= 6) o += AL[v >> k & 63]; } if (d.size() - i == 1) { unsigned v = (uint8_t)d[i] << 16; o += AL[v >> 18]; o += AL[v >> 12 & 63]; o += "=="; } else if (d.size() - i == 2) { unsigned v = (uint8_t)d[i] << 16 | (uint8_t)d[i + 1] << 8; o += AL[v >> 18]; o += AL[v >> 12 & 63]; o += AL[v >> 6 & 63]; o += "="; } return o; }
static Str nonl(const Str &s) { Str o; for (char c : s) if (c != '\n' && c != '\r') o += c; return o; }
uint64_t pbt_fixed_count(bool) { return 256; }
void pbt_fixed(uint64_t i) {
  const char *q = i ? strchr(AL, (int)i) : nullptr; int v = base64_decode_value((char)i); if (q) CHECK(v == q - AL, "character %d has value %d", (int)i, v); else CHECK(v < 0, "character %d outside the alphabet has value %d", (int)i, v);
  if (i < 64) CHECK(base64_encode_value((char)i) == AL[i], "value %d is encoded as %d", (int)i, base64_encode_value((char)i));
  // foreign character in every position of a group
  if (!q && i != 0) { Str t = "QUJDREVG"; for (size_t k = 0; k <= 8; k++) { Str x = t; x.insert(k, 1, (char)i); base64_decodestate st; base64_init_decodestate(&st); Exact in(x), out(7); int n = base64_decode_block((char *)in.p, in.n, (char *)out.p, &st); CHECK(n == 6 && out.str(6) == "ABCDEF", "character %d at %zu is not skipped: %s", (int)i, k, hex(out.str(n)).c_str()); } pbt::nontrivial(); }
}
void pbt_case(Src &s) {
  size_t n = s.chance(1, 200) ? s.below(5000) : s.size(90); Str d = s.bytes(n), text; pbt::note("data %s", hex(d).substr(0, 1000).c_str()); if (pbt::want_sample()) pbt::sample("%zu octets %s", n, hex(d).substr(0, 200).c_str());
  base64_encodestate es; base64_init_encodestate(&es); size_t chunks = 0, pos = 0; size_t mode = s.below(3);
  while (pos < n || (chunks == 0)) {
    size_t c = mode == 0 ? n - pos : mode == 1 ? std::min<size_t>(1, n - pos) : s.below(std::min<size_t>(n - pos, 12) + 1); // encoded so far is a function of pos alone
    size_t before = pos / 3 * 4 + (pos % 3 ? pos % 3 : 0), after = (pos + c) / 3 * 4 + ((pos + c) % 3 ? (pos + c) % 3 : 0), lines = (pos + c) / 54 + 2;
    Exact in(d.substr(pos, c)), out(after - before + lines); int k = base64_encode_block((char *)in.p, c, (char *)out.p, &es);
    CHECK(k >= 0 && (size_t)k <= out.n, "encode_block returns %d", k); Str got = out.str(k); CHECK(nonl(got).size() == after - before, "chunk of %zu octets at %zu gives %zu characters", c, pos, nonl(got).size()); text += got; pos += c; if (++chunks > 200000) break; }
  { Exact out(8); int k = base64_encode_blockend((char *)out.p, &es); CHECK(k >= 0 && k <= 5, "blockend returns %d", k); text += out.str(k); }
  CHECK(nonl(text) == model(d), "encoding is %s, expected %s", text.substr(0, 1000).c_str(), model(d).substr(0, 1000).c_str());
  // decoding, possibly with characters that are not base64 in between
  bool foreign = s.chance(1, 3); if (foreign) { size_t m = 1 + s.below(6); while (m--) { char c; do c = (char)s.below(256); while (c == 0 || strchr(AL, c) || c == '='); text.insert(s.below(text.size() + 1), 1, c); } }
  if (s.chance(1, 6)) while (!text.empty() && text.back() == '=') text.pop_back(); // padding is optional when decoding
  base64_decodestate ds; base64_init_decodestate(&ds); Str back; pos = 0; size_t dchunks = 0, digits = 0; mode = s.below(3);
  while (pos < text.size() || dchunks == 0) {
    size_t c = mode == 0 ? text.size() - pos : mode == 1 ? std::min<size_t>(1, text.size() - pos) : s.below(std::min<size_t>(text.size() - pos, 12) + 1); Str part = text.substr(pos, c); size_t dg = digits; for (char ch : part) if (ch && strchr(AL, ch)) dg++;
    size_t want = dg * 6 / 8 - digits * 6 / 8; Exact in(part), out(want + 1); // libb64 keeps the partial octet behind the last complete one
    int k = base64_decode_block((char *)in.p, c, (char *)out.p, &ds); CHECK(k >= 0 && (size_t)k == want, "decode_block returns %d octets, expected %zu", k, want); back += out.str(k); digits = dg; pos += c; if (++dchunks > 200000) break; }
  CHECK(back == d, "decoded %s from %s", hex(back).substr(0, 1000).c_str(), quote(text).substr(0, 1000).c_str());
  if (chunks > 1 || dchunks > 1 || foreign) pbt::nontrivial(); if (foreign) pbt::classify("foreign_characters"); if (chunks > 1) pbt::classify("encoded_in_chunks"); if (dchunks > 1) pbt::classify("decoded_in_chunks");
}
