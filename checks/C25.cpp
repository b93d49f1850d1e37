// C25: malformed records among intact ones.
#include "query.h"
pbt::Config pbt::config = {"C25", "Random databases of 1 to 4 files into which damaged records are strewn (keys and values of records cut, extended, with octets changed, inserted or removed, oversized labels and numbers, arbitrary octets behind every key kind), searched by every kind of query, with type, bailiwick, time bounds, aggregated or not, from setfile, merger or table. Relation: a record which the entry decoder rejects changes no result - the same query over the database without those records returns the same entries. Non-trivial: some result, and a rejected record among the keys the query goes through.", 100000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
static bool decodes(const Str &k, const Str &v) { std::vector<uint8_t> a(k.begin(), k.end()), b(v.begin(), v.end()); auto e = dnstable_entry_decode(a.data(), a.size(), b.data(), b.size()); bool ok = e; dnstable_entry_destroy(&e); return ok; }
static Str damage(Src &s, Str x) {
  size_t n = 1 + s.size(2);
  for (size_t i = 0; i < n; i++) switch (s.below(7)) {
    case 0: x.resize(s.below(x.size() + 1)); break;
    case 1: if (!x.empty()) x[s.below(x.size())] = s.oneof<char>({0, 1, 2, 3, 0x3f, 0x40, '\x80', '\xc0', '\xff'}); break;
    case 2: if (!x.empty()) x[s.below(x.size())] ^= (char)(1 << s.below(8)); break;
    case 3: { Str y = s.bytes(1 + s.below(3)); x.insert(s.below(x.size() + 1), y); break; }
    case 4: { size_t p = s.below(x.size() + 1); x.erase(p, 1 + s.below(3)); break; }
    case 5: x += s.oneof<Str>({Str(1, '\0'), Str("\x80", 1), Str(12, '\x80'), Str(12, '\xff'), Str("\xff\xff\xff\xff\x7f", 5), Str("\x3f", 1), Str("\1a", 2)}); break;
    default: { size_t p = s.below(x.size() + 1); x.insert(p, s.oneof<Str>({Str("\x80\x80\x80\x80\x80\x80", 6), Str(9, '\xff'), Str("\x40", 1), Str(70, 'a'), Str("\xc0\x0c", 2)})); }
  }
  return x;
}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 4; o.big = s.chance(1, 4); o.ip = s.chance(1, 3); gen_db(s, db, o);
  // damage
  std::map<Str, int> where; for (auto &f : db.files) for (auto &kv : f) where[kv.first]++;
  std::vector<std::pair<Str, Str>> all; for (auto &f : db.files) for (auto &kv : f) all.push_back(kv);
  size_t nj = 1 + s.size(14); std::set<Str> bad; DB clean = db;
  for (size_t i = 0; i < nj; i++) {
    Str k, v; if (all.empty()) break;
    auto &base = s.pick(all); k = base.first; v = base.second;
    switch (s.weighted({6, 2, 2, 1})) { case 0: k = k.substr(0, 1) + damage(s, k.substr(1)); break; case 1: v = damage(s, v); break; case 2: k = k.substr(0, 1) + damage(s, k.substr(1)); v = damage(s, v); break; default: k = Str(1, (char)s.below(4)) + s.bytes(s.below(12)); if (s.flip()) v = s.bytes(s.below(6)); }
    if (s.chance(1, 16)) v = s.flip() ? v + s.bytes(100 + s.below(1000)) : s.bytes(100 + s.below(1000));
    if (s.chance(1, 10) && !k.empty()) k[0] = (char)s.below(4);
    auto w = where.find(k); unsigned f = s.below(db.nfiles);
    if (w != where.end()) { if (w->second > 1) continue; for (unsigned g = 0; g < db.nfiles; g++) if (db.files[g].count(k)) f = g; }
    where[k] = 1; bool ok = decodes(k, v); db.files[f][k] = v; if (ok) { clean.files[f][k] = v; bad.erase(k); } else { clean.files[f].erase(k); bad.insert(k); }
  }
  int mode = gen_mode(s, db); size_t nq = 1 + s.below(4); std::vector<Query> qs;
  for (size_t i = 0; i < nq; i++) {
    Query q = gen_query(s, db, s.oneof<int>({QK_RRSET, QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_NAME, QK_IP, QK_IP, QK_RAW})); if (s.chance(1, 3)) q_bounds(s, db, q); q.aggr = !s.chance(1, 3);
    if (s.chance(1, 3) && q.kind <= QK_NAME) { q.name = wire({}); q.plus = s.chance(1, 3); q.wild = s.flip() ? W_LEFT : W_RIGHT; q.text = q.plus ? "+." : "*."; }
    if (s.chance(1, 4) && q.kind == QK_IP) { bool six = s.flip(); q.text = six ? "::/0" : "0.0.0.0/0"; q.lo = Str(six ? 16 : 4, '\0'); q.hi = Str(six ? 16 : 4, '\xff'); }
    qs.push_back(q);
  }
  std::vector<std::vector<Str>> res; Str bk; for (auto &k : bad) bk += "\n    rejected " + hex(k);
  // an IP query may also meet addresses of a wrong length, which no address text describes
  auto odd = [](const Query &q, const Str &c) { if (q.kind != QK_IP) return false; size_t p = c.find("||"), e = c.find(',', p); return p == Str::npos || e - p - 2 != 2 * q.lo.size(); };
  auto run = [&](const DB &d) { std::vector<std::vector<Str>> r; Store st(d, mode); for (auto &q : qs) { pbt::note("query %s\n  db %s%s", q.describe().c_str(), describe(db).c_str(), bk.c_str()); auto h = make_query(q); r.push_back(run_query(st, h)); { auto &v = r.back(); v.erase(std::remove_if(v.begin(), v.end(), [&](const Str &c) { return odd(q, c); }), v.end()); } dnstable_query_destroy(&h); if (!q.aggr) std::sort(r.back().begin(), r.back().end()); } return r; };
  auto a = run(db), b = run(clean);
  for (size_t i = 0; i < nq; i++) {
    auto &q = qs[i]; pbt::note("query %s\n  db %s%s", q.describe().c_str(), describe(db).c_str(), bk.c_str());
    for (size_t j = 0; j < std::max(a[i].size(), b[i].size()); j++) { const char *x = j < a[i].size() ? a[i][j].c_str() : "(end)", *y = j < b[i].size() ? b[i][j].c_str() : "(end)"; CHECK(!strcmp(x, y), "result %zu is %s with %zu rejected records in the database and %s without them", j, x, bad.size(), y); }
    uint8_t kb = q.kind == QK_RRSET ? K_RRSET : K_RDATA; bool on = false; for (auto &k : bad) if (!k.empty() && ((uint8_t)k[0] == kb || (uint8_t)k[0] == kb + 1)) on = true;
    if (on && !b[i].empty()) pbt::nontrivial(); if (q.timed()) pbt::classify("timed"); if (!b[i].empty()) pbt::classify("with_results"); if (on) pbt::classify("rejected_of_that_kind"); if (!q.aggr) pbt::classify("unaggregated");
    if (pbt::want_sample()) pbt::sample("query %s -> %zu entries; %zu rejected records", q.describe().c_str(), b[i].size(), bad.size());
  }
}
