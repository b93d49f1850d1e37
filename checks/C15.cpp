// C15: query parameters, as a history of setter calls against a model of the query.
#include "query.h"
pbt::Config pbt::config = {"C15", "Histories of setter calls on one query object (data, rrtype, bailiwick, filter parameters, aggregation, case, offset; valid, mutated, random, over-long and NULL values) against a model that parses the values independently; after accepted and rejected calls alike the query is executed over a random database and compared with the model's query. Non-trivial: a value is rejected and the query executed afterwards with results.", 150000, 150};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
static Str mutate(Src &s, Str x) {
  size_t n = 1 + s.below(3); static const char cs[] = "./-*+\\0129aA: \tgG%_\x80\xff";
  for (size_t i = 0; i < n; i++) { char c = s.chance(1, 6) ? (char)(1 + s.below(255)) : cs[s.below(sizeof cs - 1)]; size_t p = s.below(x.size() + 1);
    switch (s.below(4)) { case 0: x.insert(p, 1, c); break; case 1: if (!x.empty()) x.erase(p % x.size(), 1); break; case 2: if (!x.empty()) x[p % x.size()] = c; break; default: if (s.chance(1, 8)) x.insert(p, Str(s.oneof<unsigned>({64, 63, 255, 256, 1000, 70000}), c)); else if (!x.empty()) x.resize(p); } }
  for (auto &c : x) if (!c) c = '0';
  return x; }
static bool wname(const Str &t, Str &w) { wdns_name_t n; if (wdns_str_to_name_case(t.c_str(), &n) != wdns_res_success) return false; w = Str((char *)n.data, n.len); free(n.data); return true; }
static bool addr(const Str &t, Str &a) { char b[16]; if (inet_pton(AF_INET, t.c_str(), b) == 1) { a = Str(b, 4); return true; } if (inet_pton(AF_INET6, t.c_str(), b) == 1) { a = Str(b, 16); return true; } return false; }
static bool parse_ip(const Str &t, Str &lo, Str &hi) {
  size_t d = t.find('-'); if (d != Str::npos) return addr(t.substr(0, d), lo) && addr(t.substr(d + 1), hi) && lo.size() == hi.size();
  d = t.find('/'); if (d == Str::npos) { if (!addr(t, lo)) return false; hi = lo; return true; }
  Str a; if (!addr(t.substr(0, d), a)) return false; Str p = t.substr(d + 1); if (p.empty()) return false; unsigned v = 0; for (char c : p) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); if (v > 1000) v = 1000; }
  if (v > a.size() * 8) return false; mask_block(a, v, lo, hi); return true; }
static bool parse_hex(const Str &t, Str &o) { o.clear(); if (t.empty() || t.size() % 2) return false; for (size_t i = 0; i < t.size(); i += 2) { if (!isxdigit((uint8_t)t[i]) || !isxdigit((uint8_t)t[i + 1])) return false; o += (char)strtoul(t.substr(i, 2).c_str(), nullptr, 16); } return true; }
static void interpret_name(Query &q, const Str &w) { auto t = labels(w); auto isw = [](const Str &x) { return x == "*" || x == "+"; }; q.wild = W_NONE; q.plus = false;
  if (!t.empty()) { bool L = isw(t.front()), R = isw(t.back()); if (q.kind == QK_RRSET ? L : (L && !R)) { q.wild = W_LEFT; q.plus = t.front() == "+"; t.erase(t.begin()); } else if (R) { q.wild = W_RIGHT; q.plus = t.back() == "+"; t.pop_back(); } } q.name = wire(t); }
static bool both_wild(const Str &w) { auto t = labels(w); auto isw = [](const Str &x) { return x == "*" || x == "+"; }; return t.size() >= 2 && isw(t.front()) && isw(t.back()); }
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = s.chance(1, 2) ? 1 : 3; o.ip = s.chance(1, 3); gen_db(s, db, o); Store st(db, gen_mode(s, db));
  Query m; m.kind = s.oneof<int>({QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_IP, QK_IP, QK_RAW, QK_RAW, QK_VERSION, QK_TIME, QK_SOURCE});
  auto h = dnstable_query_init(qtype(m.kind)); CHECK(h, "init failed"); bool have = m.kind >= QK_TIME, skip_exec = false, rejected = false; Str hist; size_t steps = 1 + s.below(10);
  auto failed = [&](dnstable_res r, bool ok, const char *what, const Str &v) {
    CHECK(r == dnstable_res_success || r == dnstable_res_failure, "%s returned %d", what, r);
    CHECK((r == dnstable_res_success) == ok, "%s(%s) %s", what, quote(v.substr(0, 300)).c_str(), ok ? "rejected" : "accepted");
    if (!ok) { const char *e = dnstable_query_get_error(h); CHECK(e && *e, "no error message"); rejected = true; } };
  for (size_t i = 0; i < steps; i++) {
    switch (s.weighted({6, 3, 2, 3, 1, 1, 1})) {
    case 0: { // data
      Query g; Str v; bool null = s.chance(1, 12);
      if (s.chance(1, 15)) v = s.bytes(s.below(12)); else { int k = s.chance(1, 10) ? s.below(7) : m.kind; g = gen_query(s, db, k); v = g.text; if (s.chance(1, 3)) v = mutate(s, v); if (k == QK_IP && v.find('/') != Str::npos && s.chance(1, 4)) v = v.substr(0, v.find('/') + 1) + std::to_string(s.below(400)); }
      v = v.c_str();
      bool cs = s.chance(1, 4); if (s.chance(1, 3)) { OKQ(dnstable_query_set_case_sensitive(h, cs), "set_case_sensitive failed"); m.cs = cs; }
      auto r = dnstable_query_set_data(h, null ? nullptr : v.c_str()); hist += " data(" + (null ? Str("NULL") : quote(v.substr(0, 300))) + ")"; pbt::note("after%s", hist.c_str());
      bool ok = false; Str w, a, b;
      switch (m.kind) {
      case QK_RRSET: case QK_NAME: if (null) { ok = true; have = false; } else if ((ok = wname(v, w))) { have = true; if (!m.cs) w = lower(w); skip_exec = both_wild(w); interpret_name(m, w); } break;
      case QK_IP: if (null) { ok = true; have = false; } else if ((ok = parse_ip(v, a, b))) { m.lo = a; m.hi = b; have = true; } break;
      case QK_RAW: if (null) { ok = true; have = false; } else if ((ok = parse_hex(v, a))) { m.raw = a; have = true; } break;
      case QK_VERSION: if (null) { ok = true; m.vtype = -1; } else { static const char *n[] = {"rrset", "rrset_name", "rdata", "rdata_name"}; for (int k = 0; k < 4; k++) if (!strcasecmp(v.c_str(), n[k])) { ok = true; m.vtype = k; if (v != n[k]) goto unspecified; } } break;
      }
      failed(r, ok, "set_data", v); break;
      unspecified: goto done; // whether the names of kinds are matched without regard to case is not specified
    }
    case 1: { Str v; bool null = s.chance(1, 8); unsigned t = s.pick(db.types); v = s.chance(1, 4) ? s.oneof<Str>({"ANY", "any", "TYPE255", "ANY-DNSSEC", "any-dnssec", "TYPE0255", "", "TYPE", "TYPE65536", "TYPE-1", "foo", "TYPE0", "TYPE1x"}) : type_query(s, t); if (s.chance(1, 8)) v = mutate(s, v); v = v.c_str();
      auto r = dnstable_query_set_rrtype(h, null ? nullptr : v.c_str()); hist += " rrtype(" + (null ? Str("NULL") : quote(v.substr(0, 300))) + ")"; pbt::note("after%s", hist.c_str());
      uint16_t x = 0; bool any = null || !strcasecmp(v.c_str(), "ANY") || !strcasecmp(v.c_str(), "ANY-DNSSEC"); if (!any) { x = wdns_str_to_rrtype(v.c_str()); any = x == 255; } bool ok = any || x;
      if (ok) { m.do_type = !any; m.type = x; m.type_text = v; } failed(r, ok, "set_rrtype", v); break; }
    case 2: { Str v; bool null = s.chance(1, 6); Query g = gen_query(s, db, QK_RRSET); v = g.do_bw ? g.bw_text : present_var(s, s.pick(db.names)); if (s.chance(1, 4)) v = mutate(s, v); v = v.c_str();
      auto r = dnstable_query_set_bailiwick(h, null ? nullptr : v.c_str()); hist += " bailiwick(" + (null ? Str("NULL") : quote(v.substr(0, 300))) + ")"; pbt::note("after%s", hist.c_str()); Str w; bool ok = m.kind == QK_RRSET && (null || wname(v, w));
      if (ok) { m.do_bw = !null; m.bw = lower(w); m.bw_text = v; } failed(r, ok, "set_bailiwick", v); break; }
    case 3: { int k = s.below(4); uint64_t v = s.chance(1, 8) ? s.u64() : 98 + s.below(28); bool null = s.chance(1, 5); size_t len = s.chance(1, 8) ? s.oneof<size_t>({0, 4, 7, 9, 16, (size_t)-1}) : 8; int p = s.chance(1, 10) ? 77 : (int)q_param[k];
      if (m.kind > QK_RAW) break; // time bounds on metadata queries are not specified
      uint64_t two[2] = {v, v}; auto r = dnstable_query_set_filter_parameter(h, (dnstable_filter_parameter_type)p, null ? nullptr : two, len); hist += " bound" + num(k) + (null ? Str("(NULL)") : "(" + num(v) + ")") + (len != 8 ? " len " + num(len) : "") + (p == 77 ? " kind 77" : ""); pbt::note("after%s", hist.c_str());
      bool ok = len == 8 && p != 77; if (ok) { m.do_b[k] = !null; m.b[k] = v; } failed(r, ok, "set_filter_parameter", num(v)); break; }
    case 4: m.aggr = s.flip(); OKQ(dnstable_query_set_aggregated(h, m.aggr), "set_aggregated failed"); hist += m.aggr ? " aggr" : " unaggr"; break;
    case 5: m.cs = s.flip(); OKQ(dnstable_query_set_case_sensitive(h, m.cs), "set_case_sensitive failed"); hist += m.cs ? " cs" : " nocs"; break;
    default: break;
    }
    if (s.chance(2, 3) && have && !((m.kind == QK_RRSET || m.kind == QK_NAME) && skip_exec)) {
      Query q = m; if (q.kind > QK_RAW) q.do_type = false; // an rrtype has no meaning there
      pbt::note("executing after%s\n  mode %d db %s", hist.c_str(), st.mode, describe(db).c_str()); auto exp = evaluate(db, q, st.merged(q)); auto act = run_query(st, h); compare(exp, act, "query"); hist += " run"; if (rejected && act.size()) pbt::nontrivial(); pbt::classify("executed"); }
  }
done:
  if (pbt::want_sample()) pbt::sample("kind %d:%s", m.kind, hist.c_str()); if (rejected) pbt::classify("rejected");
  dnstable_query_destroy(&h); CHECK(!h, "destroy left the handle"); dnstable_query_destroy(&h);
}
