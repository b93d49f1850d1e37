// Independent model of the dnstable record encoding (man/dnstable-encoding.5.txt) and generators over it.
#pragma once
#include "pbt.h"
#include <set>
#include <map>
#include <mtbl.h>
#include <wdns.h>
#include <dnstable/dnstable.h>
#include <arpa/inet.h>
typedef std::string Str;
using pbt::Src; using pbt::hex; using pbt::quote;
typedef std::set<unsigned> TypeSet;

enum { K_RRSET = 0, K_NAME_FWD = 1, K_RDATA = 2, K_NAME_REV = 3, K_SOURCE = 253, K_TIME = 254, K_VERSION = 255 };

inline Str varint(uint64_t v) { Str o; while (v >= 128) { o += (char)(v | 128); v >>= 7; } o += (char)v; return o; }
inline bool unvarint(const Str &s, size_t &i, uint64_t &v) { v = 0; for (int k = 0; k < 10 && i < s.size(); k++) { uint8_t c = s[i++]; v |= (uint64_t)(c & 127) << (7 * k); if (!(c & 128)) return true; } return false; }
inline Str le16(unsigned v) { Str o; o += (char)(v & 255); o += (char)(v >> 8); return o; }
inline Str be16(unsigned v) { Str o; o += (char)(v >> 8); o += (char)(v & 255); return o; }

// ---- names (wire format, ending in the root label)
inline std::vector<Str> labels(const Str &w) { std::vector<Str> v; size_t i = 0; while (i < w.size() && w[i]) { size_t l = (uint8_t)w[i]; v.push_back(w.substr(i + 1, l)); i += l + 1; } return v; }
inline Str wire(const std::vector<Str> &l) { Str o; for (auto &x : l) { o += (char)x.size(); o += x; } o += '\0'; return o; }
inline Str rev(const Str &w) { auto l = labels(w); std::reverse(l.begin(), l.end()); return wire(l); }
inline Str lower(Str w) { auto l = labels(w); for (auto &x : l) for (auto &c : x) if (c >= 'A' && c <= 'Z') c += 32; return wire(l); }
inline Str present(const Str &w) { char b[WDNS_PRESLEN_NAME + 8]; wdns_domain_to_str((const uint8_t *)w.data(), w.size(), b); return b; }
inline Str type_name(unsigned t) { const char *s = wdns_rrtype_to_str(t); return s ? Str(s) : "TYPE" + std::to_string(t); }
inline Str rdata_text(const Str &rd, unsigned t) { char *s = wdns_rdata_to_str((const uint8_t *)rd.data(), rd.size(), t, WDNS_CLASS_IN); Str o = s; free(s); return o; }
inline Str type_query(Src &s, unsigned t) { if (wdns_rrtype_to_str(t) && !s.chance(1, 6)) { Str x = wdns_rrtype_to_str(t); if (s.chance(1, 4)) for (auto &c : x) c = tolower(c); return x; } return "TYPE" + std::to_string(t); }
// a presentation form of a wire name with random but equivalent escapes
inline Str present_var(Src &s, const Str &w) {
  auto l = labels(w); if (l.empty()) return "."; Str o; char b[8];
  for (size_t i = 0; i < l.size(); i++) {
    for (unsigned char c : l[i]) {
      if (c == '.' || c == '\\') { if (s.chance(1, 3)) { snprintf(b, 8, "\\%03u", c); o += b; } else { o += '\\'; o += c; } }
      else if (c < '!' || c > '~' || s.chance(1, 40)) { snprintf(b, 8, "\\%03u", c); o += b; }
      else o += c;
    }
    if (i + 1 < l.size()) o += '.';
  }
  if (!s.chance(1, 3)) o += '.';
  return o;
}

// ---- rrtype sets
inline Str union_bitmap(const TypeSet &t) {
  Str o; auto it = t.begin();
  while (it != t.end()) { unsigned w = *it >> 8; Str bm; for (; it != t.end() && (*it >> 8) == w; ++it) { unsigned b = *it & 255; if (bm.size() <= b / 8) bm.resize(b / 8 + 1); bm[b / 8] |= 0x80 >> (b & 7); } o += (char)w; o += (char)bm.size(); o += bm; }
  return o;
}
inline Str union_enc(const TypeSet &t) { if (t.empty()) return ""; if (t.size() == 1) { unsigned x = *t.begin(); if (x < 256) return Str(1, (char)x); return le16(x); } return union_bitmap(t); }

// ---- records
struct Rec {
  int kind = K_RRSET;
  Str owner, bailiwick; unsigned type = 1; std::vector<Str> rdatas;   // RRSET; RDATA uses rdatas[0] and owner
  size_t slice = 0;                                                    // RDATA: octets of fixed-length prefix moved behind the name
  Str rname;                                                           // NAME_REV
  TypeSet types; Str rawunion; bool use_raw = false;                   // NAME_FWD/NAME_REV
  uint64_t first = 0, last = 0, count = 1;
  Str text; unsigned vtype = 0; uint32_t version = 0;
  Str key() const {
    Str o(1, (char)kind);
    switch (kind) {
    case K_RRSET: o += rev(owner) + varint(type) + rev(bailiwick); for (auto &r : rdatas) o += varint(r.size()) + r; break;
    case K_NAME_FWD: o += owner; break;
    case K_RDATA: { const Str &r = rdatas[0]; o += r.substr(slice) + varint(type) + rev(owner) + r.substr(0, slice) + le16(r.size() - slice); break; }
    case K_NAME_REV: o += rev(rname); break;
    case K_SOURCE: o += text; break;
    case K_VERSION: o += (char)vtype; break;
    }
    return o;
  }
  Str val() const {
    switch (kind) {
    case K_RRSET: case K_RDATA: return varint(first) + varint(last) + varint(count);
    case K_TIME: return varint(first) + varint(last);
    case K_VERSION: return varint(version);
    case K_NAME_FWD: case K_NAME_REV: return use_raw ? rawunion : union_enc(types);
    }
    return "";
  }
  uint64_t eff_last() const { return kind != K_TIME && last == 0 ? first : last; }
  uint64_t eff_count() const { return count == 0 ? 1 : count; }
};

// ---- generators
inline Str gen_label(Src &s) {
  switch (s.weighted({10, 4, 3, 2, 1, 1})) {
  case 0: return s.oneof<Str>({"a", "b", "c", "com", "www", "ns"});
  case 1: return s.oneof<Str>({"aa", "ab", "aaa", "ba", "abc", "ac"});
  case 2: return s.oneof<Str>({"*", "+", "A", "aB", "x.y", "\\", "\"q", "-", "0"});
  case 3: { Str x = s.bytes(1 + s.below(3)); return x; }
  case 4: return s.oneof<Str>({Str("\x01*", 2), Str("\x01+", 2), Str("\0", 1), Str("\x01" "a", 2), Str("\0\0", 2), Str("a\x01*", 3), Str("\x01" "b\0", 3)});
  default: return Str(1 + s.below(63), s.oneof<char>({'a', 'z', '\xff', 'Z', '\0'}));
  }
}
inline Str gen_name(Src &s, size_t maxlabels = 4) {
  std::vector<Str> l; size_t n = s.below(maxlabels + 1), tot = 1;
  for (size_t i = 0; i < n; i++) { Str x = gen_label(s); if (tot + x.size() + 1 > 255) break; tot += x.size() + 1; l.push_back(x); }
  if (s.chance(1, 60)) { // a maximal name
    l.clear(); tot = 1; while (tot < 255) { size_t w = std::min<size_t>(254 - tot, 63); if (w == 0) break; if (s.chance(1, 2)) w = 1 + s.below(w); l.push_back(Str(w, 'm')); tot += w + 1; }
  }
  return wire(l);
}
inline unsigned gen_type(Src &s) {
  switch (s.weighted({12, 2, 2, 2})) {
  case 0: return s.oneof<unsigned>({1, 2, 5, 6, 12, 15, 16, 28, 33, 39, 17, 47, 64, 65, 46, 30, 50});
  case 1: return s.below(300);
  case 2: return s.oneof<unsigned>({127, 128, 255, 256, 257, 511, 512, 16383, 16384, 32767, 32768, 65534, 65535, 65280, 0});
  default: return s.below(65536);
  }
}
inline Str gen_rdata_for(Src &s, unsigned t, size_t maxlabels = 3) {
  switch (t) {
  case WDNS_TYPE_A: return s.bytes(4);
  case WDNS_TYPE_AAAA: return s.bytes(16);
  case WDNS_TYPE_NS: case WDNS_TYPE_CNAME: case WDNS_TYPE_PTR: case WDNS_TYPE_DNAME: return gen_name(s, maxlabels);
  case WDNS_TYPE_MX: return be16(s.below(4)) + gen_name(s, maxlabels);
  case WDNS_TYPE_SRV: return s.bytes(6) + gen_name(s, maxlabels);
  case WDNS_TYPE_SOA: return gen_name(s, maxlabels) + gen_name(s, 2) + s.bytes(20);
  case WDNS_TYPE_RP: return gen_name(s, maxlabels) + gen_name(s, 2);
  case WDNS_TYPE_NSEC: case WDNS_TYPE_NXT: return gen_name(s, maxlabels) + Str("\0\1\x40", 3);
  case WDNS_TYPE_SVCB: case WDNS_TYPE_HTTPS: { Str o = be16(s.below(3)) + gen_name(s, maxlabels); if (s.flip()) o += Str("\0\1\0\3\2h2", 7); return o; }
  case WDNS_TYPE_TXT: { Str o; size_t n = 1 + s.below(3); for (size_t i = 0; i < n; i++) { Str x = s.bytes(s.size(40)); o += (char)x.size(); o += x; } return o; }
  }
  return s.bytes(s.size(30));
}
inline Str gen_rdata(Src &s, unsigned t, size_t maxlabels = 3) {
  if (s.chance(1, 12)) return s.bytes(s.size(60));
  if (s.chance(1, 200)) return Str(s.oneof<unsigned>({127, 128, 255, 256, 300, 16383, 16384, 65535}), (char)s.below(256));
  return gen_rdata_for(s, t, maxlabels);
}
inline size_t slice_offset(unsigned t) { return t == WDNS_TYPE_MX || t == WDNS_TYPE_SVCB || t == WDNS_TYPE_HTTPS ? 2 : t == WDNS_TYPE_SRV ? 6 : 0; }
inline uint64_t gen_time(Src &s) {
  switch (s.weighted({5, 5, 2, 2, 1})) {
  case 0: return s.below(20);
  case 1: return 1262304000ULL + s.below(500000000);
  case 2: return s.u64();
  case 3: return s.oneof<uint64_t>({0, 1, 59, 86399, 86400, 951782399, 951782400, 4294967295ULL, 4294967296ULL, 253402300799ULL, 253402300800ULL, 4102444800ULL, 68169599, 68169600});
  default: return s.oneof<uint64_t>({67768036191676799ULL, 67768036191676800ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 67767976233532799ULL, 0x7ffffffffffffffeULL, 0xfffffffffffffffeULL});
  }
}
inline TypeSet gen_typeset(Src &s) {
  TypeSet t; size_t n = s.size(12);
  for (size_t i = 0; i < n; i++) t.insert(gen_type(s));
  if (s.chance(1, 20)) { unsigned a = s.below(65536), k = s.below(600); for (unsigned i = 0; i < k; i++) t.insert((a + i) & 65535); }
  return t;
}
inline void gen_val(Src &s, Rec &r) {
  r.first = gen_time(s); r.last = s.chance(1, 8) ? 0 : s.chance(1, 4) ? gen_time(s) : r.first + s.below(100000); r.count = s.chance(1, 8) ? 0 : s.u64();
}
inline Rec gen_rec(Src &s, int kind = -1) {
  Rec r; static const int kinds[] = {K_RRSET, K_RDATA, K_NAME_FWD, K_NAME_REV, K_TIME, K_VERSION, K_SOURCE};
  r.kind = kind >= 0 ? kind : kinds[s.weighted({8, 8, 3, 3, 2, 2, 2})];
  switch (r.kind) {
  case K_RRSET: {
    r.owner = gen_name(s); r.bailiwick = gen_name(s, 3); r.type = gen_type(s); size_t n = s.chance(1, 40) ? s.below(200) : s.below(5);
    for (size_t i = 0; i < n; i++) r.rdatas.push_back(gen_rdata(s, r.type)); gen_val(s, r); break; }
  case K_RDATA: r.owner = gen_name(s); r.type = gen_type(s); r.rdatas.push_back(gen_rdata(s, r.type));
    if (s.flip()) { size_t o = slice_offset(r.type); if (o && r.rdatas[0].size() >= o) r.slice = o; } else if (s.chance(1, 5)) r.slice = s.below(r.rdatas[0].size() + 1); gen_val(s, r); break;
  case K_NAME_FWD: r.owner = gen_name(s); r.types = gen_typeset(s); break;
  case K_NAME_REV: r.rname = gen_name(s); r.types = gen_typeset(s); break;
  case K_TIME: r.first = gen_time(s); r.last = gen_time(s); break;
  case K_VERSION: r.vtype = s.chance(1, 3) ? s.below(256) : s.oneof<unsigned>({0, 1, 2, 3, 253, 254, 255}); r.version = s.chance(1, 2) ? s.below(5) : s.u32(); break;
  case K_SOURCE: { size_t n = s.size(60); if (s.chance(1, 12)) n = s.chance(1, 2) ? s.oneof<unsigned>({127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024}) : s.below(2000); static const char *u[] = {"a", "b", " ", "\"", "\\", "/", "\n", "\t", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "{", "Z", "\r", "\b", "\f"}; for (size_t i = 0; i < n; i++) r.text += u[s.below(19)]; if (!r.text.empty() && s.chance(1, 60)) { size_t m = s.chance(1, 10) ? 70000 : 12000; m = s.below(m); Str b = r.text; while (r.text.size() < m) r.text += b; } break; }
  }
  return r;
}
inline Str describe(const Rec &r) {
  Str o = "kind=" + std::to_string(r.kind); char b[200];
  if (r.kind == K_RRSET || r.kind == K_RDATA || r.kind == K_NAME_FWD) o += " owner=" + present(r.owner);
  if (r.kind == K_RRSET) o += " bw=" + present(r.bailiwick);
  if (r.kind == K_RRSET || r.kind == K_RDATA) { o += " type=" + type_name(r.type) + " rdata=["; for (size_t i = 0; i < r.rdatas.size() && i < 6; i++) o += (i ? "," : "") + hex(r.rdatas[i]).substr(0, 120); o += "]"; }
  if (r.kind == K_RDATA && r.slice) o += " sliced=" + std::to_string(r.slice);
  if (r.kind == K_NAME_REV) o += " rname=" + present(r.rname);
  if (r.kind == K_NAME_FWD || r.kind == K_NAME_REV) { o += " types={"; int k = 0; for (auto t : r.types) { if (k++ > 12) break; o += std::to_string(t) + ","; } o += "}"; }
  if (r.kind == K_RRSET || r.kind == K_RDATA || r.kind == K_TIME) { snprintf(b, 200, " first=%llu last=%llu count=%llu", (unsigned long long)r.first, (unsigned long long)r.last, (unsigned long long)r.count); o += b; }
  if (r.kind == K_VERSION) { snprintf(b, 200, " vtype=%u version=%u", r.vtype, r.version); o += b; }
  if (r.kind == K_SOURCE) o += " text=" + quote(r.text);
  return o;
}
// exact-size heap copies, so that any access past the end of key or value is seen
struct Exact { uint8_t *p; size_t n; explicit Exact(const Str &s) : n(s.size()) { p = (uint8_t *)malloc(n ? n : 1); if (n) memcpy(p, s.data(), n); if (!n) { free(p); p = (uint8_t *)malloc(0); } } ~Exact() { free(p); } Exact(const Exact &) = delete; };
inline struct dnstable_entry *decode(const Str &k, const Str &v) { Exact a(k), b(v); return dnstable_entry_decode(a.p, a.n, b.p, b.n); }

// ---- dates
struct Civil { int64_t y; int m, d, H, M, S; };
inline Civil civil(uint64_t t) {
  int64_t days = (int64_t)(t / 86400); int rem = (int)(t % 86400); Civil c; c.H = rem / 3600; c.M = rem / 60 % 60; c.S = rem % 60;
  int64_t z = days + 719468, era = z / 146097; int64_t doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  c.d = doy - (153 * mp + 2) / 5 + 1; c.m = mp < 10 ? mp + 3 : mp - 9; c.y = yoe + era * 400 + (c.m <= 2); return c;
}
