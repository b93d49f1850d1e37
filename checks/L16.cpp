// L16: zone files.
#include "buf.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
extern "C" { void *zf_open(const char *); void zf_close(void *); size_t zf_count(void *); uint32_t zf_serial(void *); size_t zf_domain(void *, uint8_t *, size_t); long zf_read(void *, uint8_t *, size_t); extern long zf_fail_at; extern int zf_hooked; }
pbt::Config pbt::config = {"L16", "Zone files written from generated lists of up to 30 records (A, AAAA, NS, CNAME, PTR, MX, SRV, TXT, SOA, unknown types) in generated layouts: absolute, relative, empty and @ owners, $ORIGIN and $TTL lines, blank lines and comments, records in parentheses over several lines, missing class or TTL, with and without a newline at the end, closing SOA, malformed lines, plain or compressed (file names with blanks and quotes included), read errors after any octet, truncated and corrupted compressed files. The records read are compared in wire format with the ones written, and name, serial, count and heap use are checked. Non-trivial: 3 or more records after the SOA.", 400000, 110};
static size_t base; static bool have_base;
void pbt_init() { for (const char *c : {"refused", "malformed", "closing_soa", "no_newline_at_the_end", "records", "compressed", "damaged_compressed", "read_errors"}) pbt::classify(c, 0); }
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
typedef std::vector<Str> Name; // labels; absolute
static Str wire(const Name &n) { Str w; for (auto &l : n) { w += (char)l.size(); w += l; } w += '\0'; return w; }
static Str text(const Name &n, size_t upto) { Str t; for (size_t i = 0; i < upto; i++) { if (i) t += "."; t += n[i]; } return t; }
static Str be(uint64_t v, int n) { Str s; for (int i = n - 1; i >= 0; i--) s += (char)(v >> (8 * i)); return s; }
static Name name(Src &s, const Name &base) { static const char *l[] = {"a", "b", "www", "WwW", "x-1", "_tcp", "0", "a-rather-long-label-of-the-kind-that-people-do-use-sometimes-ok"}; Name n; size_t k = s.below(4); for (size_t i = 0; i < k; i++) n.push_back(l[s.below(8)]); if (s.chance(1, 5)) { static const char *o[] = {"com", "net", "org"}; n.push_back("other"); n.push_back(o[s.below(3)]); } else n.insert(n.end(), base.begin(), base.end()); return n; }
static bool ends(const Name &n, const Name &o) { return n.size() >= o.size() && std::equal(o.begin(), o.end(), n.end() - o.size()); }
// a name as written under an origin
static Str put(Src &s, const Name &n, const Name *origin) { if (origin && ends(n, *origin) && s.chance(2, 3)) { if (n.size() == origin->size()) return "@"; return text(n, n.size() - origin->size()); } return text(n, n.size()) + "."; }
static Str gz(const Str &d) { Str o("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10); size_t i = 0; do { size_t k = std::min<size_t>(65535, d.size() - i); o += (char)(i + k == d.size()); auto le = [&](uint64_t v, int n) { for (int j = 0; j < n; j++) o += (char)(v >> (8 * j)); }; le(k, 2); le(~k & 0xffff, 2); o += d.substr(i, k); i += k; } while (i < d.size()); uint32_t c = ~0u; for (unsigned char ch : d) { c ^= ch; for (int j = 0; j < 8; j++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } c = ~c; for (int j = 0; j < 4; j++) o += (char)(c >> (8 * j)); uint32_t n = d.size(); for (int j = 0; j < 4; j++) o += (char)(n >> (8 * j)); return o; }
struct Rec { Str w; };
void pbt_case(Src &s) {
  Str f; Name zone; size_t zl = s.below(3); for (size_t i = 0; i <= zl; i++) zone.push_back(i == zl ? "com" : i == 1 ? "b" : "example"); if (s.chance(1, 20)) zone.clear();
  Name cur = zone; bool have_origin = false; uint32_t ttl = 0; bool have_ttl = false; auto blank = [&]() { if (s.chance(1, 6)) f += s.oneof<const char *>({"\n", "; a comment\n", "   \n", "\t; x (\n", ";\n\n"}); };
  auto directive = [&]() { if (s.chance(1, 8)) { ttl = s.oneof<uint32_t>({300, 1, 86400, 604800, 2147483647}); have_ttl = true; f += "$TTL " + (ttl == 86400 && s.flip() ? Str("1d") : ttl == 604800 && s.flip() ? Str("1w") : std::to_string(ttl)) + "\n"; } if (s.chance(1, 8)) { cur = zone; size_t k = s.below(3); if (k == 1 && cur.size() > 1) cur.erase(cur.begin()); else if (k == 2) cur.insert(cur.begin(), "sub"); have_origin = true; f += "$ORIGIN " + text(cur, cur.size()) + ".\n"; } };
  Name prev; bool have_prev = false; std::vector<Str> want; std::vector<size_t> ends_at; size_t closed_at = ~(size_t)0; uint32_t serial = s.oneof<uint32_t>({1, 0, 2020010101u, 0x7fffffffu, 0x80000000u, 0xffffffffu, s.u32()});
  auto sp = [&]() { return Str(s.oneof<const char *>({" ", "\t", "  ", " \t "})); };
  auto record = [&](bool soa) { // appends one record, returns its wire form
    Name own = soa ? zone : name(s, zone); Str o; if (have_prev && s.chance(1, 4)) { own = prev; o = ""; } else o = put(s, own, have_origin || !want.empty() ? &cur : nullptr); uint32_t t = ttl; Str tt; bool wt = !have_ttl || s.flip(); if (wt) { t = s.oneof<uint32_t>({0, 60, 3600, 2147483647, (uint32_t)s.below(1000000)}); tt = std::to_string(t) + sp(); }
    Str cl = s.chance(1, 4) && !soa ? "" : Str("IN") + sp(); Str ty, rd, rt; int type; int k = soa ? 8 : s.below(8); const Name *og = have_origin || !want.empty() ? &cur : nullptr; auto target = [&]() { Name n = name(s, zone); rd += wire(n); rt += put(s, n, og); }; bool paren = false;
    switch (k) {
    case 0: { type = 1; ty = "A"; uint32_t a = s.u32(); rd = be(a, 4); char b[32]; snprintf(b, 32, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); rt = b; break; }
    case 1: { type = 28; ty = "AAAA"; Str a = s.bytes(16); rd = a; for (int i = 0; i < 8; i++) { char b[8]; snprintf(b, 8, "%s%x", i ? ":" : "", (uint8_t)a[2 * i] << 8 | (uint8_t)a[2 * i + 1]); rt += b; } break; }
    case 2: { type = 2; ty = "NS"; target(); break; } case 3: { type = 5; ty = "CNAME"; target(); break; }
    case 4: { type = 15; ty = "MX"; uint16_t p = s.below(65536); rd = be(p, 2); rt = std::to_string(p) + " "; target(); break; }
    case 5: { type = 33; ty = "SRV"; for (int i = 0; i < 3; i++) { uint16_t p = s.below(65536); rd += be(p, 2); rt += std::to_string(p) + " "; } target(); break; }
    case 6: { type = 16; ty = "TXT"; size_t n = 1 + s.below(3); for (size_t i = 0; i < n; i++) { Str v; size_t l = s.size(60); static const char al[] = "abcXYZ019 -=;()./:"; for (size_t j = 0; j < l; j++) v += al[s.below(18)]; rd += (char)v.size() + v; rt += (i ? " \"" : "\"") + v + "\""; } break; }
    case 7: { type = 65280 + s.below(10); ty = "TYPE" + std::to_string(type); rd = s.bytes(1 + s.size(20)); rt = "\\# " + std::to_string(rd.size()) + " " + hex(rd); break; }
    default: { type = 6; ty = "SOA"; target(); rt += " "; target(); paren = s.flip(); rt += paren ? " (" : ""; uint32_t v[5] = {serial, 3600, 600, 86400, (uint32_t)s.below(100000)}; for (int i = 0; i < 5; i++) { rd += be(v[i], 4); rt += paren ? s.oneof<const char *>({"\n\t\t", " ", " ; note\n  "}) : " "; rt += std::to_string(v[i]); } rt += paren ? s.oneof<const char *>({" )", "\n)", ")"}) : ""; break; }
    }
    if (s.chance(1, 3)) for (auto &c : ty) c = tolower(c); Str head = tt + cl; f += o + sp() + head + ty + sp() + rt; if (s.chance(1, 8)) f += " ; comment ( \" here"; prev = own; have_prev = true;
    return wire(own) + be(type, 2) + be(1, 2) + be(t, 4) + be(rd.size(), 2) + rd; };
  blank(); directive(); blank(); int start = s.weighted({24, 1, 1, 1}); bool refuse = start > 0, gzip = s.chance(1, 250), unterminated = false; size_t bad = ~(size_t)0; bool closed = false; size_t n = s.size(30);
  if (start == 1) { record(false); f += "\n"; } else if (start == 2) f += s.oneof<const char *>({"example.com. IN\n", "what is this\n", "a.com. 60 IN SOA ns.\n", "a.com. 60 IN BOGUS 1\n", "a.com. 60 IN A 1.2.3\n", "$INCLUDE other\n"}); if (start != 3) { want.push_back(record(true)); f += "\n"; ends_at.push_back(f.size()); if (!have_origin) cur = zone; have_origin = true;
    size_t badat = s.chance(1, 5) ? s.below(n + 1) : ~(size_t)0;
    for (size_t i = 0; i < n; i++) { blank(); directive(); if (i == badat) { bad = want.size(); f += s.oneof<const char *>({"www IN A 1.2.3\n", "www IN A\n", "www 60 IN BOGUS x\n", "www.example.com. 60 IN AAAA 1::2::3\n", "$INCLUDE other.zone\n", "www 60 IN MX ten mail\n", "www 60 IN TYPE65280 \\# 3 0102\n", "www 60 IN TXT\n"}); } want.push_back(record(false)); f += "\n"; ends_at.push_back(f.size()); }
    if (s.chance(1, 3)) { size_t w = want.size(); record(true); f += "\n"; closed = true; closed_at = f.size(); if (s.flip()) { for (size_t i = s.below(3); i; i--) { record(false); f += "\n"; } } (void)w; } else if (s.chance(1, 3)) { f.pop_back(); unterminated = true; } else blank(); }
  Str path = Str(pbt::tmpdir()) + "/" + s.oneof<const char *>({"zone", "gz", "z.g"}) + (gzip ? ".gz" : ""); if (gzip && s.flip()) path = Str(pbt::tmpdir()) + "/" + s.oneof<const char *>({"a b.gz", "a'b.gz", "a;b.gz", "$x.gz", "-f.gz", "'a.gz", "a''b.gz", "'.gz", "a\\.gz", "a\n.gz", "*.gz", "a\"b.gz"}); bool missing = s.chance(1, 30); int damage = gzip && !refuse ? s.weighted({2, 2, 1}) : 0; long fail = !gzip && s.chance(1, 15) ? (long)s.below(f.size() + 1) : -1; if (missing) { unlink(path.c_str()); refuse = true; if (!gzip && s.flip()) path = pbt::tmpdir(); } else { int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); Str d = gzip ? gz(f) : f; if (damage == 1) d.resize(s.below(d.size() - 1) + 1); else if (damage == 2) d[d.size() - 8 + s.below(8)] ^= 1 << s.below(8); if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t)d.size()) _exit(3); close(fd); }
  pbt::note("%s:%s\n%s", path.c_str(), damage == 1 ? " (truncated)" : damage == 2 ? " (wrong checksum)" : fail >= 0 ? (" (fails after " + std::to_string(fail) + " octets)").c_str() : "", f.c_str()); if (pbt::want_sample()) pbt::sample("%s", f.c_str());
  bool often = s.chance(1, 3); size_t stop = s.chance(1, 8) ? s.below(want.size() + 1) : ~(size_t)0; size_t before = pbt::live_bytes(); zf_fail_at = fail; zf_hooked = 0; void *z = zf_open(path.c_str()); zf_fail_at = -1; if (!zf_hooked) fail = -1; static std::vector<uint8_t> b; if (b.empty()) { have_base = false; b.resize(70000); }
  if (refuse) { CHECK(!z, "accepted although %s", missing ? "there is no file" : start == 1 ? "the first record is no SOA" : start == 2 ? "the first line is malformed" : "there is no record"); pbt::classify("refused"); }
  else if (damage || fail >= 0) { // everything in front of the damage, then an error
    size_t got = 0, sure = 0; bool cut = true, odd = false; if (fail >= 0) { for (size_t e : ends_at) sure += f.find_first_not_of(" \t\n", e) < (size_t)fail; /* the reader looks at the next character */ if (sure > bad) sure = bad; cut = closed_at > (size_t)fail || bad != ~(size_t)0; } else cut = !closed || damage == 1;
    if (!z) CHECK(!sure, "refused"); else { long k = 0; while (got < stop) { k = zf_read(z, b.data(), b.size()); if (k < 0 && k != -1) break; if (k <= 0) break; CHECK(!odd, "a record that is not in the file, and then another one"); if (got >= want.size() || Str((char *)b.data(), k) != want[got]) { CHECK(damage == 1, "record %zu is %s, expected %s", got, hex(b.data(), k).c_str(), got < want.size() ? hex(want[got]).c_str() : "none"); odd = true; } got++; }
      if (got < stop) { CHECK(k != 0 || closed || !cut, "the end is reported after %zu of %zu records although the rest could not be read", got, want.size()); CHECK(k != 0 || closed_at <= (size_t)fail || damage, "the end is reported although the rest could not be read"); CHECK(got >= sure, "only %zu of the %zu records that could be read", got, sure); } zf_close(z); } pbt::classify(damage ? "damaged_compressed" : "read_errors"); }
  else { CHECK(z, "refused"); size_t got = 0; bool err = false; auto meta = [&](size_t cnt) { size_t k = zf_domain(z, b.data(), b.size()); CHECK(Str((char *)b.data(), k) == wire(zone), "zone name %s", quote(Str((char *)b.data(), k)).c_str()); CHECK(zf_serial(z) == serial, "serial %u, expected %u", zf_serial(z), serial); CHECK(zf_count(z) == cnt, "count %zu after %zu records", zf_count(z), cnt); }; meta(1);
    while (got < stop) { long k = zf_read(z, b.data(), b.size()); if (k == -1) { CHECK(got == bad, "error after %zu records, %s", got, bad == ~(size_t)0 ? "the file is well-formed" : "before the malformed line"); err = true; pbt::classify("malformed"); break; } CHECK(k >= 0, "record that cannot be written"); if (!k) break; CHECK(got != bad, "the malformed line before record %zu is not reported", got); CHECK(got < want.size(), "record %zu does not exist", got); CHECK(Str((char *)b.data(), k) == want[got], "record %zu is %s, expected %s", got, hex(b.data(), k).c_str(), hex(want[got]).c_str()); got++; if (often) meta(got); }
    if (!err && stop == ~(size_t)0) { CHECK(got == want.size(), "only %zu of %zu records", got, want.size()); CHECK(bad == ~(size_t)0, "the malformed line is not reported"); if (!closed) { CHECK(zf_read(z, b.data(), b.size()) == 0, "not at the end any more"); } if (closed) pbt::classify("closing_soa"); if (unterminated) pbt::classify("no_newline_at_the_end"); }
    if (!err || often) meta(std::max<size_t>(got, 1)); zf_close(z); if (want.size() > 3) pbt::nontrivial(); pbt::classify("records", got); }
  if (gzip) pbt::classify("compressed"); unlink(path.c_str());
  size_t after = pbt::live_bytes(); if (!have_base) have_base = true; else CHECK(after <= before, "%zd octets of memory are still allocated", (ssize_t)(after - before));
}
