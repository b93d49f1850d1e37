// Random databases (several source files, consistent indexes and time ranges), random queries over them, and an
// independent evaluation of a query: the list of entries it must return, in order.
#pragma once
#include "entryview.h"
#include <memory>

struct Tri { uint64_t first, last, count; };
struct Item { Rec r; Str key; std::map<unsigned, Tri> in; };         // one RRSET or RDATA key and the files it occurs in

struct DB {
  unsigned nfiles = 1;
  std::vector<Item> items;
  std::vector<std::map<Str, Str>> files;        // full contents
  std::vector<Str> names, labels_; std::vector<unsigned> types;
  std::vector<Str> rdatas;
};
struct DBOpts { bool zero_last = false; unsigned maxfiles = 5; bool ip = false; bool big = false; bool huge_times = false; unsigned large = 300; }; // large: one in so many databases has hundreds of records, one in eight of that rate more files

inline bool name_at(const Str &s, size_t off, Str &n, size_t *end = nullptr) { // a complete wire name at off
  size_t i = off; while (i < s.size()) { size_t l = (uint8_t)s[i]; if (l == 0) { if (i + 1 - off > 255) return false; n = s.substr(off, i + 1 - off); if (end) *end = i + 1; return true; } if (l > 63) return false; i += l + 1; } return false; }
inline bool is_name_type(unsigned t) { switch (t) { case 2: case 5: case 6: case 12: case 15: case 17: case 30: case 33: case 39: case 47: case 64: case 65: return true; } return false; }
inline bool is_rev_indexed(unsigned t) { switch (t) { case 2: case 5: case 6: case 12: case 15: case 33: case 39: case 64: case 65: return true; } return false; }
inline bool is_standalone(unsigned t) { switch (t) { case 2: case 5: case 12: case 15: case 33: case 39: return true; } return false; }

inline Str q_label(Src &s) {
  switch (s.weighted({8, 5, 3, 2, 2, 1})) {
  case 0: return s.oneof<Str>({"a", "b", "c", "d"});
  case 1: return s.oneof<Str>({"aa", "ab", "ba", "a-", "az", "bb"});
  case 2: return s.oneof<Str>({"*", "+", "A", "aB", "**", "a*", "+a"});
  case 3: return s.oneof<Str>({Str("\xff", 1), Str("a\xff", 2), Str("\xff\xff", 2), Str("\0", 1), Str("a\0", 2), Str("\xfe", 1), Str("\x01" "a", 2), Str("\x01*", 2), Str("\x01+", 2)});
  case 4: return s.oneof<Str>({"com", "org", "example", "`", "Z"});
  default: return Str(1 + s.below(63), s.oneof<char>({'a', '\xff', 'z'}));
  }
}
inline Str q_name(Src &s, const std::vector<Str> &lab, size_t maxl = 4) {
  std::vector<Str> l; size_t n = s.below(maxl + 1), tot = 1; for (size_t i = 0; i < n; i++) { const Str &x = s.pick(lab); if (tot + x.size() + 1 > 255) break; tot += x.size() + 1; l.push_back(x); } return wire(l); }
inline Tri gen_tri(Src &s, const DBOpts &o) {
  Tri t; t.first = o.huge_times && s.chance(1, 3) ? gen_time(s) : 100 + s.below(14); t.last = t.first + s.below(10); if (t.last < t.first) t.last = t.first; t.count = s.chance(1, 10) ? s.u64() : 1 + s.below(5);
  if (o.zero_last && s.chance(1, 6)) t.last = 0; return t; }
inline void tri_merge(Tri &a, const Tri &b) { a.first = std::min(a.first, b.first); a.last = std::max(a.last, b.last); a.count += b.count; }
inline Str tri_val(const Tri &t) { return varint(t.first) + varint(t.last) + varint(t.count); }

// rdata of a type from the name pool; well-formed
inline Str q_rdata(Src &s, const DB &db, unsigned t) {
  auto nm = [&] { return s.chance(1, 8) ? q_name(s, db.labels_) : s.pick(db.names); };
  switch (t) {
  case 1: { static const char *pool[] = {"\1\1a\0", "\1\1a\1", "\0\0\0\0", "\xff\xff\xff\xff", "\12\0\0\1", "\12\0\0\2", "\12\0\0\xff", "\12\0\1\0", "\1a\1b", "\1a\0\1"}; if (s.chance(3, 4)) return Str(pool[s.below(10)], 4); return s.bytes(4); }
  case 28: { if (s.chance(1, 3)) return s.bytes(16); Str x;
    if (s.chance(1, 4)) { // an address which repeats the octets of a short record's key
      if (!db.rdatas.empty() && s.chance(2, 3)) x = s.pick(db.rdatas); else x = s.bytes(s.below(4));
      if (x.size() < 12) { x += varint(s.pick(db.types)) + rev(s.flip() ? s.pick(db.names) : Str(1, '\0')); if (s.flip()) x += Str(s.below(3), '\0'); if (s.chance(1, 3)) x.resize(s.below(x.size() + 1)); }
      bool pad = s.chance(1, 4); x = x.substr(0, 16); x.resize(16, pad ? '\xff' : '\0'); if (s.flip()) x[15] = (char)s.below(6); return x; } if (s.flip()) { static const char *pool[] = {"\12\0\0\1", "\12\0\0\2", "\1a\1b", "\xff\xff\xff\xff", "\0\0\0\0"}; x = Str(pool[s.below(5)], 4); } else x = Str("\x20\x01\x0d\xb8", 4);
    x += s.oneof<char>({1, 28, 0, '\xff'}); Str y = s.chance(1, 2) ? s.pick(db.names) : Str(); x += y; x = x.substr(0, 16); x.resize(16, s.chance(1, 5) ? '\xff' : '\0'); if (s.chance(1, 2)) x[15] = (char)s.below(3); return x; }
  case 2: case 5: case 12: case 39: return nm();
  case 15: return Str(1, '\0') + (char)s.below(3) + nm();
  case 33: return s.bytes(4) + Str(1, '\0') + (char)s.below(3) + nm();
  case 6: return nm() + s.pick(db.names) + Str(20, (char)s.below(3));
  case 17: return nm() + s.pick(db.names);
  case 47: case 30: return nm() + Str("\0\1\x40", 3);
  case 64: case 65: return Str(1, '\0') + (char)s.below(3) + nm() + (s.flip() ? Str("\0\1\0\3\2h2", 7) : Str());
  case 16: { if (s.chance(1, 6)) return s.oneof<Str>({Str("\12\0", 2), Str(1, '\12'), Str("\x20\x01", 2), Str("\1\1", 2), Str(), Str(1, '\0'), Str("\xff", 1)}); if (s.chance(1, 2)) { Str x = s.pick(db.names); return x.size() > 1 ? x.substr(0, x.size() - (s.flip() ? 1 : 0)) : Str(1, '\0'); } Str x = s.bytes(s.below(6)); return Str(1, (char)x.size()) + x; }
  }
  if (!db.rdatas.empty() && s.chance(1, 3)) { Str x = s.pick(db.rdatas); if (s.flip() && !x.empty()) x.resize(s.below(x.size() + 1)); else if (s.chance(1, 3)) x += s.bytes(1 + s.below(2)); return x; }
  if (s.chance(1, 4)) return s.pick(db.names);
  return s.bytes(s.below(7));
}

inline void gen_db(Src &s, DB &db, const DBOpts &o) {
  bool large = o.large && s.chance(1, o.large); db.nfiles = o.maxfiles <= 1 ? 1 : 1 + s.below(o.large && s.chance(1, large ? 3 : 25) ? o.maxfiles * 4 : o.maxfiles);
  size_t nl = 2 + s.below(5); for (size_t i = 0; i < nl; i++) { Str l = i && s.chance(1, 3) ? s.pick(db.labels_) : q_label(s); if (i && s.chance(1, 3)) { int d = s.flip() ? 1 : -1; l.back() = (char)(l.back() + d); } db.labels_.push_back(l); }
  if (large) { size_t n = 10 + s.below(30); for (size_t i = 0; i < n; i++) db.labels_.push_back(Str(1, 'h') + std::to_string(i * 7 % 41)); }
  size_t nn = large ? 20 + s.below(100) : 2 + s.below(o.big ? 12 : 7);
  for (size_t i = 0; i < nn; i++) {
    Str n; if (!db.names.empty() && s.chance(1, 2)) { auto l = labels(s.pick(db.names)); switch (s.below(3)) { case 0: if (!l.empty()) l.erase(l.begin()); break; case 1: l.insert(l.begin(), s.pick(db.labels_)); break; default: l.push_back(s.pick(db.labels_)); } n = wire(l); if (n.size() > 255) n = wire({}); }
    else n = q_name(s, db.labels_);
    if (s.chance(1, 25)) { // a name of the greatest length, or nearly
      size_t want = 255 - s.below(3); auto l = labels(n); while (!l.empty() && wire(l).size() + 2 > want) l.pop_back();
      for (size_t have = wire(l).size(); have + 2 <= want; ) { size_t room = want - have - 1, w = std::min<size_t>(room, s.flip() ? 63 : 1 + s.below(63)); if (room - w == 1) { if (w > 1) w--; else w++; } l.insert(l.begin(), Str(w, s.oneof<char>({'m', 'a', '\xff'}))); have += w + 1; }
      n = wire(l); if (n.size() > 255) n = wire({});
      if (s.flip()) { db.names.push_back(n); auto &x = l[s.below(l.size())]; x[s.flip() ? x.size() - 1 : s.below(x.size())] ^= 1; n = wire(l); } // and one which differs in a single octet
    }
    db.names.push_back(n); }
  size_t nt = 1 + s.below(5); for (size_t i = 0; i < nt; i++) { unsigned t = o.ip && s.chance(3, 4) ? (s.flip() ? 28 : 1) : s.oneof<unsigned>({1, 2, 5, 15, 6, 12, 16, 28, 33, 39, 47, 17, 64, 65, 30, 46, 99, 127, 128, 257, 300, 16384, 32769, 65535}); db.types.push_back(t); }
  bool epochs = db.nfiles > 1 && !o.huge_times && s.chance(1, 3); unsigned turn = epochs ? s.below(db.nfiles) : 0;   // every file covers its own stretch of time
  size_t nr = large ? 100 + s.below(400) : s.size(o.big ? 40 : 12); size_t nlong = 0;
  std::map<Str, Item> it; std::vector<std::map<Str, TypeSet>> fwd(db.nfiles), rv(db.nfiles);
  for (size_t i = 0; i < nr; i++) {
    Rec r; r.kind = K_RRSET; r.owner = s.pick(db.names); r.type = s.pick(db.types);
    { auto l = labels(r.owner); size_t k = s.chance(1, 4) ? 99 : s.below(l.size() + 1); if (k == 99) r.bailiwick = s.pick(db.names); else { l.erase(l.begin(), l.begin() + k); r.bailiwick = wire(l); } }
    size_t n = 1 + s.size(3); std::set<Str> seen; for (size_t j = 0; j < n; j++) { Str d = q_rdata(s, db, r.type); if (s.chance(1, 60) && nlong < 4 && r.type != 1 && r.type != 28 && !is_standalone(r.type)) { d += Str(s.chance(1, 8) ? s.below(40000) : s.below(3000), (char)s.below(256)); nlong++; } if (o.ip && r.type == 1 && d.size() != 4) continue; if (seen.insert(d).second) { r.rdatas.push_back(d); db.rdatas.push_back(d); } }
    Str rk = r.key(); bool any = false;
    for (unsigned f = 0; f < db.nfiles; f++) {
      if (!(s.flip() || (f + 1 == db.nfiles && !any))) continue; any = true;
      auto a = it.find(rk); if (a != it.end() && a->second.in.count(f)) continue;
      Tri t = gen_tri(s, o); if (epochs) { t.first = 100 + 6 * ((f + turn) % db.nfiles) + s.below(4); t.last = t.first + s.below(4); } auto &x = it[rk]; x.r = r; x.key = rk; x.in[f] = t; fwd[f][r.owner].insert(r.type);
      for (auto &d : r.rdatas) {
        size_t so = slice_offset(r.type);
        for (int sl = 0; sl <= (so && d.size() >= so ? 1 : 0); sl++) {
          Rec q; q.kind = K_RDATA; q.owner = r.owner; q.type = r.type; q.rdatas = {d}; q.slice = sl ? so : 0; Str k = q.key(); auto &y = it[k]; y.r = q; y.key = k; if (y.in.count(f)) tri_merge(y.in[f], t); else y.in[f] = t; }
        Str nm; if (is_rev_indexed(r.type) && name_at(d, so, nm)) rv[f][nm].insert(r.type);
      }
    }
  }
  db.files.assign(db.nfiles, {});
  for (auto &x : it) { for (auto &f : x.second.in) db.files[f.first][x.first] = tri_val(f.second); db.items.push_back(x.second); }
  for (unsigned f = 0; f < db.nfiles; f++) {
    bool old = s.chance(1, 4), mixed = s.chance(1, 6);
    auto put = [&](int kind, const Str &n, const TypeSet &t) { Rec r; r.kind = kind; (kind == K_NAME_FWD ? r.owner : r.rname) = n; if (!(old || (mixed && s.flip()))) r.types = t; db.files[f][r.key()] = r.val(); };
    for (auto &x : fwd[f]) put(K_NAME_FWD, x.first, x.second);
    for (auto &x : rv[f]) put(K_NAME_REV, x.first, x.second);
    if (s.chance(1, 5)) { Str n = s.pick(db.names); if (!fwd[f].count(n)) put(K_NAME_FWD, n, {s.pick(db.types)}); }          // dangling index entries
    if (s.chance(1, 5)) { Str n = s.pick(db.names); if (!rv[f].count(n)) put(K_NAME_REV, n, {s.oneof<unsigned>({2, 15, 6})}); }
    uint64_t lo = ~0ULL, hi = 0; bool have = false; for (auto &x : db.items) if (x.in.count(f)) { auto &t = x.in.at(f); lo = std::min(lo, t.first); hi = std::max(hi, std::max(t.last, t.first)); have = true; }
    if (!have) { lo = 100 + s.below(20); hi = lo + s.below(10); }
    Rec tr; tr.kind = K_TIME; tr.first = lo; tr.last = hi;
    switch (s.weighted({6, 2, 1, 1})) { case 0: db.files[f][tr.key()] = tr.val(); break; case 1: tr.first -= std::min<uint64_t>(tr.first, s.below(5)); tr.last += s.below(5); if (tr.last < hi) tr.last = hi; db.files[f][tr.key()] = tr.val(); break; case 2: break; default: db.files[f][tr.key()] = ""; }
    size_t nv = s.below(4); for (size_t i = 0; i < nv; i++) { Rec v; v.kind = K_VERSION; v.vtype = s.below(4); v.version = s.chance(1, 4) ? s.u32() : s.below(3); db.files[f][v.key()] = v.val(); }
    if (s.chance(1, 2)) { Rec v; v.kind = K_SOURCE; v.text = s.oneof<Str>({"src", "", "a b", "src2", "\xc3\xa9"}); db.files[f][v.key()] = ""; }
  }
}

// ---- queries
enum { QK_RRSET, QK_NAME, QK_IP, QK_RAW, QK_TIME, QK_VERSION, QK_SOURCE };
enum { W_NONE, W_LEFT, W_RIGHT };
struct Query {
  int kind = QK_RRSET; Str text;                       // data as given to the library
  Str name; int wild = W_NONE; bool plus = false;      // name without the wildcard label
  bool do_type = false; unsigned type = 0; Str type_text; bool do_bw = false; Str bw, bw_text; bool cs = false, aggr = true;
  bool do_b[4] = {}; uint64_t b[4] = {};               // first_before, first_after, last_before, last_after
  Str lo, hi; Str raw; int vtype = -1; bool has_offset = false; uint64_t offset = 0;
  bool null_data = false;
  bool timed() const { return do_b[0] || do_b[1] || do_b[2] || do_b[3]; }
  Str describe() const { Str o; static const char *kn[] = {"rrset", "rdata-name", "rdata-ip", "rdata-raw", "time-range", "version", "source-info"}; o += kn[kind]; o += " " + quote(text); if (do_type) o += " type=" + type_text; if (do_bw) o += " bailiwick=" + quote(bw_text); if (cs) o += " cs"; if (!aggr) o += " unaggregated"; static const char *bn[] = {"first<=", "first>=", "last<=", "last>="}; for (int i = 0; i < 4; i++) if (do_b[i]) o += Str(" ") + bn[i] + std::to_string(b[i]); if (has_offset) o += " offset=" + std::to_string(offset); return o; }
};
inline Str ip_text(Src &s, const Str &a) { char b[64]; (void)s; inet_ntop(a.size() == 4 ? AF_INET : AF_INET6, a.data(), b, 64); Str o = b; if (a.size() == 16 && s.chance(1, 4)) for (auto &c : o) c = toupper(c); return o; }
inline Str hex_text(Src &s, const Str &d) { Str o; bool up = s.chance(1, 4), mix = s.chance(1, 4); for (unsigned char c : d) { char b[3]; snprintf(b, 3, (up || (mix && s.flip())) ? "%02X" : "%02x", c); o += b; } return o; }
inline void mask_block(const Str &a, unsigned plen, Str &lo, Str &hi) { lo = hi = a; for (size_t i = 0; i < a.size() * 8; i++) if (i >= plen) { lo[i / 8] &= ~(0x80 >> (i & 7)); hi[i / 8] |= 0x80 >> (i & 7); } }

inline void q_name_data(Src &s, const DB &db, Query &q) {
  std::vector<Str> pool = db.names; if (q.kind == QK_NAME) for (auto &it : db.items) if (it.r.kind == K_RDATA) { Str n; if (name_at(it.r.rdatas[0], it.r.slice, n)) pool.push_back(n); }
  Str base = s.chance(1, 8) ? q_name(s, db.labels_) : s.pick(pool); auto l = labels(base);
  if (!s.chance(1, 5)) q.cs = s.chance(1, 4);
  if (s.chance(1, 6)) q.cs = true;
  int w = s.weighted({3, 4, 4}); Str wl = s.flip() ? "*" : "+";
  std::vector<Str> t = l; size_t drop = l.empty() ? 0 : s.below(std::min<size_t>(l.size(), 3) + 1);
  if (w == 1) { t.erase(t.begin(), t.begin() + drop); t.insert(t.begin(), wl); }
  else if (w == 2) { t.resize(t.size() - drop); t.push_back(wl); }
  if (s.chance(1, 12) && !t.empty()) { auto &x = t[s.below(t.size())]; if (x != "*" && x != "+") x.back() = (char)(x.back() + 1); }
  auto isw = [](const Str &x) { return x == "*" || x == "+"; };
  while (t.size() >= 2 && isw(t.front()) && isw(t.back())) { if (w == 2) t.erase(t.begin()); else t.pop_back(); }
  if (wire(t).size() > 255) t = w == 1 ? std::vector<Str>{wl} : std::vector<Str>{};
  if (s.chance(1, 5) && !q.cs) for (auto &x : t) for (auto &c : x) if (c >= 'a' && c <= 'z' && s.flip()) c -= 32;
  q.text = present_var(s, wire(t)); Str n = q.cs ? wire(t) : lower(wire(t)); t = labels(n);
  q.wild = W_NONE;
  if (!t.empty()) { bool L = isw(t.front()), R = isw(t.back());
    if (q.kind == QK_RRSET ? L : (L && !R)) { q.wild = W_LEFT; q.plus = t.front() == "+"; t.erase(t.begin()); }
    else if (R) { q.wild = W_RIGHT; q.plus = t.back() == "+"; t.pop_back(); } }
  q.name = wire(t);
}
inline void q_bounds(Src &s, const DB &db, Query &q) {
  int only = s.chance(2, 3) ? (int)s.below(4) : 4;
  for (int i = 0; i < 4; i++) if (only < 4 ? i == only || s.chance(1, 6) : s.chance(2, 5)) { q.do_b[i] = true;
    if (s.chance(1, 12)) q.b[i] = s.u64();
    else if (!db.items.empty() && s.chance(2, 3)) { auto &it = s.pick(db.items); auto p = it.in.begin(); std::advance(p, s.below(it.in.size())); q.b[i] = (s.flip() ? p->second.first : p->second.last) + s.below(3) - 1; }
    else q.b[i] = 98 + s.below(28); }
}
inline Query gen_query(Src &s, const DB &db, int kind) {
  Query q; q.kind = kind;
  switch (kind) {
  case QK_RRSET: case QK_NAME: q_name_data(s, db, q); break;
  case QK_IP: {
    std::vector<Str> pool; for (auto &it : db.items) if (it.r.kind == K_RDATA && (it.r.type == 1 || it.r.type == 28)) pool.push_back(it.r.rdatas[0]);
    Str a = !pool.empty() && !s.chance(1, 6) ? s.pick(pool) : s.bytes(s.flip() ? 16 : 4);
    if (a.size() == 16 && s.chance(1, 6)) a.resize(4); else if (a.size() != 4 && a.size() != 16) a.resize(4);
    if (s.chance(1, 6)) { size_t i = a.size() - 1; a[i] = (char)(a[i] + (s.flip() ? 1 : -1)); }
    switch (s.below(3)) {
    case 0: q.lo = q.hi = a; q.text = ip_text(s, a); break;
    case 1: { unsigned m = a.size() * 8, p = s.chance(1, 4) ? s.oneof<unsigned>({0, 1, 31, 32, 24, 8}) : s.below(m + 1); if (a.size() == 16 && s.chance(1, 4)) p = s.oneof<unsigned>({0, 63, 64, 65, 127, 128, 32, 40}); mask_block(a, p, q.lo, q.hi); q.text = ip_text(s, a) + "/" + (s.chance(1, 10) ? "0" : "") + std::to_string(p); break; }
    default: { Str b = a; if (!pool.empty() && s.flip()) { Str c = s.pick(pool); if (c.size() == a.size()) b = c; } if (s.flip()) { size_t i = b.size() - 1 - s.below(std::min<size_t>(b.size(), 4)); b[i] = (char)(b[i] + 1 + s.below(3)); } if (s.chance(1, 10)) b = Str(a.size(), '\xff'); if (s.chance(1, 10)) a = Str(a.size(), '\0'); if (b < a && !s.chance(1, 5)) std::swap(a, b); q.lo = a; q.hi = b; q.text = ip_text(s, a) + "-" + ip_text(s, b); }
    } break; }
  case QK_RAW: { Str x; if (!db.rdatas.empty() && !s.chance(1, 8)) { x = s.pick(db.rdatas); if (s.chance(1, 3)) for (auto &it : db.items) if (it.r.kind == K_RDATA && it.r.slice && s.chance(1, 2)) { x = it.r.rdatas[0].substr(it.r.slice); break; } } else x = s.bytes(s.below(5));
    switch (s.below(5)) { case 0: case 1: break; case 2: x.resize(s.below(x.size() + 1)); break; case 3: { unsigned t = s.pick(db.types); x += varint(t); if (s.flip()) { Str o = rev(s.pick(db.names)); x += o.substr(0, s.below(o.size() + 1)); } break; } default: if (!x.empty()) x.back() = (char)(x.back() + 1); }
    if (x.empty()) x = Str(1, (char)s.below(3));   // no octets is not a valid value
    q.raw = x; q.text = hex_text(s, x); break; }
  case QK_TIME: case QK_SOURCE: q.null_data = true; break;
  case QK_VERSION: if (s.flip()) { q.vtype = s.below(4); static const char *n[] = {"rrset", "rrset_name", "rdata", "rdata_name"}; q.text = n[q.vtype]; } else q.null_data = true; break;
  }
  if (kind == QK_RRSET || kind == QK_NAME || kind == QK_RAW) if (s.chance(2, 5)) { q.do_type = true; q.type = s.chance(1, 8) ? 1 + s.below(254) : s.pick(db.types); if (q.type == 255) q.type = 1; q.type_text = type_query(s, q.type); }
  if (kind == QK_RRSET && s.chance(1, 3)) { q.do_bw = true; Str n = s.pick(db.names); if (s.flip() && !db.items.empty()) { auto &it = s.pick(db.items); if (it.r.kind == K_RRSET) n = it.r.bailiwick; } auto l = labels(n); if (s.chance(1, 6)) for (auto &x : l) for (auto &c : x) if (c >= 'a' && c <= 'z') c -= 32; q.bw_text = present_var(s, wire(l)); q.bw = lower(wire(l)); }
  return q;
}

// ---- the oracle
enum { NO, YES, OPT };
inline bool left_match(const Str &n, const Str &suffix, bool plus) { auto a = labels(n), b = labels(suffix); if (a.size() < b.size()) return false; for (size_t i = 0; i < b.size(); i++) if (a[a.size() - b.size() + i] != b[i]) return false; return !plus || a.size() == b.size() + 1; }
inline bool right_match(const Str &n, const Str &prefix, bool plus) { auto a = labels(n), b = labels(prefix); if (a.size() < b.size()) return false; for (size_t i = 0; i < b.size(); i++) if (a[i] != b[i]) return false; return !plus || a.size() == b.size() + 1; }
inline bool begins(const Str &s, const Str &p) { return s.compare(0, p.size(), p) == 0; }
inline int q_match(const Query &q, const Rec &r, Str &order) {
  order = r.key();
  if (q.kind == QK_RRSET) {
    if (r.kind != K_RRSET) return NO; if (q.do_type && r.type != q.type) return NO; if (q.do_bw && r.bailiwick != q.bw) return NO;
    if (q.wild == W_NONE) return r.owner == q.name ? YES : NO;
    if (q.wild == W_LEFT) return left_match(r.owner, q.name, q.plus) ? YES : NO;
    order = r.owner + order; return right_match(r.owner, q.name, q.plus) ? YES : NO;
  }
  if (r.kind != K_RDATA) return NO;
  const Str &d = r.rdatas[0]; Str form = d.substr(r.slice);
  if (q.kind == QK_RAW) return (!q.do_type || r.type == q.type) && begins(form, q.raw) ? YES : NO;
  if (q.kind == QK_IP) return r.type == (q.lo.size() == 4 ? 1u : 28u) && d.size() == q.lo.size() && q.lo <= d && d <= q.hi ? YES : NO;
  if (q.kind != QK_NAME) return NO;
  if (q.do_type ? r.type != q.type : !is_name_type(r.type)) return NO;
  if (slice_offset(r.type) && !r.slice) return NO;
  Str n; bool wf = name_at(form, 0, n); Str pre = q.name.substr(0, q.name.size() - 1);
  if (q.wild == W_LEFT) { if (!wf) return NO; order = rev(n) + order; if (!left_match(n, q.name, q.plus)) return NO; return is_rev_indexed(r.type) ? YES : OPT; }
  if (q.wild == W_NONE) return wf && n == q.name ? YES : NO;
  if (!wf) return begins(form, pre) ? OPT : NO;
  return right_match(n, q.name, q.plus) ? YES : NO;
}
inline bool q_pass(const Query &q, const Tri &t) { if (q.do_b[0] && t.first > q.b[0]) return false; if (q.do_b[1] && t.first < q.b[1]) return false; if (q.do_b[2] && t.last > q.b[2]) return false; if (q.do_b[3] && t.last < q.b[3]) return false; return true; }
inline Str num(uint64_t v) { return std::to_string(v); }
inline Str canon(const Rec &r, const Tri &t) {
  Str o = num(r.kind) + "|" + hex(r.owner) + "|" + num(r.type) + "|" + (r.kind == K_RRSET ? hex(r.bailiwick) : Str()) + "|"; for (auto &d : r.rdatas) o += hex(d) + ",";
  return o + "|" + num(t.first) + "|" + num(t.last ? t.last : t.first) + "|" + num(t.count ? t.count : 1); }
inline Str canon(const View &v) { if (v.type == K_TIME) return "T|" + num(v.first) + "|" + num(v.last); if (v.type == K_VERSION) return "V|" + num(v.vt) + "|" + num(v.ver); if (v.type == K_SOURCE) return "S|" + hex(v.src);
  Str o = num(v.type) + "|" + hex(v.owner) + "|" + num(v.rrtype) + "|" + hex(v.bw) + "|"; for (auto &d : v.rd) o += hex(d) + ","; return o + "|" + num(v.first) + "|" + num(v.last) + "|" + num(v.count); }
struct Group { std::vector<Str> m; bool opt = false; std::vector<const Item *> it; std::vector<Tri> tri; };
// merged: times of all files combined before filtering; otherwise one entry per file
inline std::vector<Group> evaluate(const DB &db, const Query &q, bool merged) {
  std::vector<std::pair<Str, Group>> out;
  if (q.kind == QK_TIME || q.kind == QK_VERSION || q.kind == QK_SOURCE) {
    uint8_t kb = q.kind == QK_TIME ? K_TIME : q.kind == QK_VERSION ? K_VERSION : K_SOURCE; std::map<Str, std::vector<Str>> m; // key -> values
    for (auto &f : db.files) for (auto &kv : f) if ((uint8_t)kv.first[0] == kb && (q.vtype < 0 || (uint8_t)kv.first[1] == q.vtype)) m[kv.first].push_back(kv.second);
    std::vector<Group> r;
    for (auto &x : m) { Group g; auto one = [&](const Str &v) { size_t i = 0; uint64_t a = 0, b = 0; if (kb == K_SOURCE) { g.m.push_back("S|" + hex(x.first.substr(1))); return; } if (v.empty()) return; unvarint(v, i, a); if (kb == K_VERSION) { g.m.push_back("V|" + num((uint8_t)x.first[1]) + "|" + num(a)); return; } unvarint(v, i, b); g.m.push_back("T|" + num(a) + "|" + num(b)); };
      if (!merged) for (auto &v : x.second) one(v);
      else { bool empty = false; uint64_t a = ~0ULL, b = 0; for (auto &v : x.second) { if (v.empty()) { empty = true; continue; } size_t i = 0; uint64_t p = 0, w = 0; unvarint(v, i, p); if (kb == K_TIME) unvarint(v, i, w); a = std::min(a, p); b = std::max(b, w); }
        if (kb == K_SOURCE) one(""); else if (!empty) one(kb == K_TIME ? varint(a) + varint(b) : varint(a)); }
      if (!g.m.empty()) r.push_back(g); }
    return r;
  }
  for (auto &it : db.items) {
    Str ord; int m = q_match(q, it.r, ord); if (m == NO) continue;
    std::vector<Tri> t; if (merged) { Tri a = it.in.begin()->second; for (auto p = std::next(it.in.begin()); p != it.in.end(); ++p) tri_merge(a, p->second); t.push_back(a); } else for (auto &p : it.in) t.push_back(p.second);
    std::sort(t.begin(), t.end(), [](const Tri &a, const Tri &b) { return a.first != b.first ? a.first < b.first : a.last < b.last; });
    const Tri *prev = nullptr; unsigned sub = 0;
    for (auto &x : t) if (q_pass(q, x)) { if (prev && prev->first == x.first && prev->last == x.last) out.back().second.m.push_back(canon(it.r, x)); else { Group g; g.opt = m == OPT; g.m.push_back(canon(it.r, x)); char b[8]; snprintf(b, 8, "%04u", sub++); out.push_back({ord + b, g}); } out.back().second.it.push_back(&it); out.back().second.tri.push_back(x); prev = &x; }
  }
  // keys are prefix-comparable only as whole strings; the per-key suffix must not disturb their order
  std::stable_sort(out.begin(), out.end(), [](const std::pair<Str, Group> &a, const std::pair<Str, Group> &b) { Str x = a.first.substr(0, a.first.size() - 4), y = b.first.substr(0, b.first.size() - 4); if (x != y) return x < y; return a.first.substr(a.first.size() - 4) < b.first.substr(b.first.size() - 4); });
  std::vector<Group> r; for (auto &x : out) r.push_back(x.second); return r;
}
inline size_t total(const std::vector<Group> &g) { size_t n = 0; for (auto &x : g) n += x.m.size(); return n; }
inline void compare(const std::vector<Group> &exp, const std::vector<Str> &act, const char *what) {
  size_t p = 0;
  for (auto &g : exp) {
    std::vector<Str> a; for (size_t i = 0; i < g.m.size() && p + i < act.size(); i++) a.push_back(act[p + i]); std::vector<Str> m = g.m; std::sort(a.begin(), a.end()); std::sort(m.begin(), m.end());
    if (a == m) { p += m.size(); continue; } if (g.opt) continue;
    pbt::fail("%s: result %zu is %s, expected %s", what, p, p < act.size() ? act[p].c_str() : "(end)", g.m[0].c_str());
  }
  CHECK(p == act.size(), "%s: %zu results too many, first %s", what, act.size() - p, act[p].c_str());
}

// ---- running queries
extern "C" void dnstable_merge_func(void *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint8_t **, size_t *);
inline void put_file(const Str &name, const std::map<Str, Str> &t) { std::vector<mtblx_kv> v; for (auto &x : t) v.push_back({(const uint8_t *)x.first.data(), x.first.size(), (const uint8_t *)x.second.data(), x.second.size()}); mtblx_put_table(name.c_str(), v.data(), v.size()); }
enum { SRC_SET, SRC_ONE, SRC_MERGER };
struct Store {
  int mode; struct dnstable_reader *rd = nullptr; std::vector<struct mtbl_reader *> mr; struct mtbl_merger *mg = nullptr; const struct mtbl_source *src = nullptr;
  Store(const DB &db, int mode_) : mode(mode_) {
    mtblx_clear(); Str lines; for (unsigned f = 0; f < db.nfiles; f++) { Str n = "mem:" + num(f); put_file(n, db.files[f]); lines += n + "\n"; } mtblx_put_setfile("mem:s", lines.c_str());
    if (mode == SRC_SET) { rd = dnstable_reader_init_setfile("mem:s"); CHECK(rd, "init_setfile failed"); return; }
    for (unsigned f = 0; f < db.nfiles; f++) mr.push_back(mtbl_reader_init(("mem:" + num(f)).c_str(), nullptr));
    if (mode == SRC_ONE) src = mtbl_reader_source(mr[0]);
    else { auto o = mtbl_merger_options_init(); mtbl_merger_options_set_merge_func(o, dnstable_merge_func, nullptr); mg = mtbl_merger_init(o); mtbl_merger_options_destroy(&o); for (auto r : mr) mtbl_merger_add_source(mg, mtbl_reader_source(r)); src = mtbl_merger_source(mg); }
    rd = dnstable_reader_init(src);
  }
  ~Store() { dnstable_reader_destroy(&rd); mtbl_merger_destroy(&mg); for (auto &r : mr) mtbl_reader_destroy(&r); mtblx_clear(); }
  Store(const Store &) = delete;
  bool merged(const Query &q) const { return mode != SRC_SET || q.aggr; }
};
inline int gen_mode(Src &s, DB &db) { int m = s.weighted({4, 2, 2}); if (m == SRC_ONE && db.nfiles > 1) m = SRC_MERGER; return m; }
inline dnstable_query_type qtype(int kind) { static const dnstable_query_type t[] = {DNSTABLE_QUERY_TYPE_RRSET, DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW, DNSTABLE_QUERY_TYPE_TIME_RANGE, DNSTABLE_QUERY_TYPE_VERSION, DNSTABLE_QUERY_TYPE_SOURCE_INFO}; return t[kind]; }
static const dnstable_filter_parameter_type q_param[4] = {DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER};
inline struct dnstable_query *make_query(const Query &q) {
  auto h = dnstable_query_init(qtype(q.kind)); CHECK(h, "query_init failed");
#define OKQ(x, ...) CHECK((x) == dnstable_res_success, __VA_ARGS__)
  OKQ(dnstable_query_set_case_sensitive(h, q.cs), "set_case_sensitive failed");
  if (!q.null_data) OKQ(dnstable_query_set_data(h, q.text.c_str()), "set_data(%s) failed: %s", quote(q.text).c_str(), dnstable_query_get_error(h));
  if (q.do_type) OKQ(dnstable_query_set_rrtype(h, q.type_text.c_str()), "set_rrtype(%s) failed", q.type_text.c_str());
  if (q.do_bw) OKQ(dnstable_query_set_bailiwick(h, q.bw_text.c_str()), "set_bailiwick(%s) failed", q.bw_text.c_str());
  OKQ(dnstable_query_set_aggregated(h, q.aggr), "set_aggregated failed");
  for (int i = 0; i < 4; i++) if (q.do_b[i]) OKQ(dnstable_query_set_filter_parameter(h, q_param[i], &q.b[i], sizeof q.b[i]), "set_filter_parameter failed");
  if (q.has_offset) OKQ(dnstable_query_set_offset(h, q.offset), "set_offset failed");
  return h;
}
inline std::vector<Str> drain(struct dnstable_iter *it, size_t max = 100000, std::function<void(struct dnstable_entry *)> each = nullptr) {
  std::vector<Str> v; struct dnstable_entry *e; 
  while (v.size() < max) { e = nullptr; dnstable_res r = dnstable_iter_next(it, &e); if (r != dnstable_res_success) { CHECK(r == dnstable_res_failure, "next returned %d without a timeout", r); CHECK(!e, "an entry together with a failure"); break; } CHECK(e, "success without an entry"); v.push_back(canon(view(e))); if (each) each(e); dnstable_entry_destroy(&e); }
  CHECK(v.size() < max, "endless result");
  return v;
}
inline std::vector<Str> run_query(Store &st, struct dnstable_query *h) {
  auto it = dnstable_reader_query(st.rd, h); CHECK(it, "query returned no iterator"); auto v = drain(it);
  struct dnstable_entry *e = nullptr; CHECK(dnstable_iter_next(it, &e) == dnstable_res_failure && !e, "an entry after the end");
  dnstable_iter_destroy(&it); CHECK(!it, "destroy left the handle"); return v;
}
inline Str describe(const DB &db) { Str o = num(db.nfiles) + " files;"; size_t n = 0; for (auto &it : db.items) { if (n++ > 30) { o += " ..."; break; } o += "\n    " + describe(it.r) + " in"; for (auto &f : it.in) o += " f" + num(f.first) + "(" + num(f.second.first) + "," + num(f.second.last) + "," + num(f.second.count) + ")"; }
  for (unsigned f = 0; f < db.nfiles; f++) { auto x = db.files[f].find(Str(1, (char)K_TIME)); o += "\n    time range f" + num(f) + ": " + (x == db.files[f].end() ? "none" : hex(x->second)); } return o; }
// a query and its result under the model and under the library
inline void check_query(const DB &db, Store &st, const Query &q, size_t *n = nullptr) {
  auto exp = evaluate(db, q, st.merged(q)); auto h = make_query(q);
  auto act = run_query(st, h); compare(exp, act, "query"); auto again = run_query(st, h); CHECK(again == act, "executing the query object again gives %zu results instead of %zu", again.size(), act.size());
  dnstable_query_destroy(&h); CHECK(!h, "destroy left the handle"); if (n) *n = act.size();
}
