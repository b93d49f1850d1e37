// C22: the dnstable_lookup program.
#include "cli.h"
#include <time.h>
extern "C" int lookup_main(int, char **);
pbt::Config pbt::config = {"C22", "Random command lines of dnstable_lookup (every subcommand, options in any order, grouping and duplication, every documented date format, time limits under a simulated clock, invalid uses) on random databases, run as the program's own main in a child. Oracle: an independent model of the options and of the date formats, and the query results through the library; exit status, standard output byte for byte, counts and statistics on standard error. Non-trivial: a valid command line with at least one option whose results are not empty.", 40000, 120};
static const uint64_t G = 1000000000ULL;
struct Clk { uint64_t first, last, third; unsigned reads, late; }; static Clk *sh_clk; static bool clk_on; static uint64_t clk_mono, clk_real; static std::vector<uint64_t> clk_script; static size_t clk_pos; static uint64_t clk_tmo;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
static void step() { if (clk_pos < clk_script.size()) clk_mono += clk_script[clk_pos++]; else if (clk_pos) clk_mono++; }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!clk_on) return __real_clock_gettime(c, t);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { t->tv_sec = clk_real; t->tv_nsec = 123456789; return 0; }
  t->tv_sec = clk_mono / G; t->tv_nsec = clk_mono % G; if (!sh_clk->reads++) sh_clk->first = clk_mono; if (sh_clk->reads <= 3) sh_clk->third = clk_mono; else if (clk_mono > sh_clk->third + clk_tmo) sh_clk->late++; sh_clk->last = clk_mono; step(); return 0;
}
static void tick() { if (clk_on) step(); }
void pbt_init() { mtblx_tick = tick; void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) abort(); sh_clk = (Clk *)p; }
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}

// the calendar, independently of the C library
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
static void civil(int64_t z, int64_t &y, int &m, int &d) { z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y = (int64_t)yoe + era * 400 + (m <= 2); }
struct When { Str text; bool ok; uint64_t t; };
static When iso(Src &s, int64_t t) { // a date in one of the documented forms
  int64_t dy = t >= 0 ? t / 86400 : -((-t + 86399) / 86400), r = t - dy * 86400, y; int m, d; civil(dy, y, m, d); CHECK(days(y, m, d) == dy, "harness calendar"); char b[64];
  int f = s.below(4); if (f == 0) { snprintf(b, 64, "%04d-%02d-%02d", (int)y, m, d); t = dy * 86400; }
  else snprintf(b, 64, "%04d-%02d-%02d%c%02d:%02d:%02d%s", (int)y, m, d, f == 1 ? ' ' : 'T', (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60), f == 3 ? "Z" : "");
  return {b, t > 0, (uint64_t)t};
}
static When ago(Src &s, uint64_t n, uint64_t now) { // a duration of n seconds
  Str o; static const char *u = "wdhms"; static const uint64_t f[] = {604800, 86400, 3600, 60, 1}; uint64_t left = n; unsigned parts = 0;
  while (left && parts < 8) { int k = s.below(5); uint64_t q = left / f[k]; if (parts >= 6 || !q) { k = 4; q = left; } if (parts < 6 && s.flip()) q = 1 + s.below(q); parts++; left -= q * f[k]; o += std::to_string(q); char c = u[k]; if (s.flip()) c = toupper(c); o += c; }
  if (!left && o.size() && (o.back() | 32) == 's' && o.find_first_not_of("0123456789") != o.size() - 1 && s.chance(1, 6)) o.pop_back();
  return {o, n > 0 && n < now, now - n};
}
static When gen_when(Src &s, uint64_t t, uint64_t now) {
  if (t > INT64_MAX) t &= INT64_MAX;
  switch (s.weighted({5, 4, 3, 4, 1, 2})) {
  case 0: return {std::to_string(t), t > 0, t};
  case 1: if (t > 253402300799ULL) t = 253402300799ULL - s.below(1000000); return iso(s, (int64_t)t);
  case 2: { uint64_t n = t < now ? now - t : s.flip() ? now : 1 + s.below(now + 5); return {"-" + std::to_string(n), n > 0 && n < now, now - n}; }
  case 3: { uint64_t n = t < now ? now - t : 1 + s.below(now + 5); When w = ago(s, n, now); if (w.text.find_first_not_of("0123456789") == Str::npos) w.text += "s"; return w; }
  case 4: return iso(s, -(int64_t)s.below(s.flip() ? 10 : 60000000000ULL));
  default: { static const char *bad[] = {"", "x", "w", "0", "-0", "10x", "1w2y", "0d", "1d0h", "2020-13-01", "2020-00-10", "2020-01-32", "2020-01-01 25:00:00", "2020-01-01T00:00", "2020-01-01T00:00:00+00", "2020-01-01Z", "1970-01-01", "1970-01-01T00:00:00Z", "1970-01-01 00:00:00", "now", "-1h", "1w-1d", "99999999999999w", "30500568904943w", "30500568904944w", "106751991167301d", "9223372036854775807m", "5000000000000000000s9000000000000000000s", "-99999999999999999"}; return {bad[s.below(sizeof bad / sizeof *bad)], false, 0}; }
  }
}
static void lines_of(const Str &e, std::map<Str, std::vector<Str>> &m) { size_t i = 0; while (i < e.size()) { size_t n = e.find('\n', i); if (n == Str::npos) n = e.size(); Str l = e.substr(i, n - i); i = n + 1; size_t c = l.find(" : "); if (c == Str::npos) continue; Str k = l.substr(0, c); while (!k.empty() && k.back() == ' ') k.pop_back(); m[k].push_back(l.substr(c + 3)); } }


void pbt_case(Src &s) {
  DB db; DBOpts o; bool timed = s.chance(1, 8), focus = timed && s.flip(); o.big = timed; if (focus) o.large = 8; o.maxfiles = 4; o.ip = s.chance(1, 4); o.huge_times = s.chance(1, 6); gen_db(s, db, o);
  mtblx_clear(); Str lines; for (unsigned f = 0; f < db.nfiles; f++) { Str n = "mem:" + num(f); put_file(n, db.files[f]); lines += n + "\n"; } mtblx_put_setfile("mem:s", lines.c_str());
  uint64_t now = s.oneof<uint64_t>({1700000000, 200, 127, 100000, 1000000000000ULL}); bool fail = false; Str why;
  auto bad = [&](const char *w) { if (!fail) why = w; fail = true; };
  Query q = gen_query(s, db, focus ? QK_RRSET : s.oneof<int>({QK_RRSET, QK_RRSET, QK_RRSET, QK_NAME, QK_NAME, QK_IP, QK_RAW, QK_VERSION, QK_TIME})); bool meta = q.kind == QK_TIME || q.kind == QK_VERSION;
  if (timed && q.kind <= QK_NAME) { q.name = wire({}); q.plus = false; q.text = "*."; q.wild = q.kind == QK_RRSET ? W_LEFT : W_RIGHT; q.do_type = q.do_bw = false; }
  // options
  std::vector<std::vector<Str>> opts; bool j = false, J = false, R = false, u = false, c = false, C = q.cs, n = false; uint64_t lim[4] = {}; int st = 0; int64_t off = 0; uint64_t tmo = 0, itv = 0; bool moving = false;
  auto flag = [&](const char *f) { opts.push_back({Str("-") + f}); };
  if (C) flag("C");
  switch (s.below(4)) { case 0: break; case 1: case 2: j = true; flag("j"); break; default: J = true; flag("J"); }
  if (s.chance(1, 24)) { (j ? J : j) = true; flag(J && j ? (opts.back()[0] == "-j" ? "J" : "j") : j ? "j" : "J"); }
  if (s.chance(1, (j || J) ? 3 : 30)) { R = true; flag("R"); }
  if (s.chance(1, (j || J || R) ? 30 : 4)) { n = true; flag("n"); }
  if (s.chance(1, 4)) { u = true; flag("u"); }
  if (s.chance(1, 4)) { st = 1 + s.below(3); for (int i = 0; i < st; i++) flag("s"); }
  bool bounds = s.chance(1, meta || focus ? 8 : 2);
  if (bounds) { if (s.chance(2, 5)) { c = true; flag("c"); }
    Query b; q_bounds(s, db, b); static const char *ol[4] = {"B", "a", "b", "A"}; for (int i = 0; i < 2; i++) if (b.do_b[i] && s.chance(1, 4)) { b.do_b[i + 2] = true; b.b[i + 2] = b.b[i] + 2 - s.below(4); if (!b.b[i + 2]) b.b[i + 2] = 1; }
    for (int i = 0; i < 4; i++) if (b.do_b[i]) { unsigned times = s.chance(1, 10) ? 2 : 1; while (times--) { When w = gen_when(s, b.b[i] + times, now); if (!w.ok) bad("date"); else lim[i] = w.t; opts.push_back({Str("-") + ol[i], w.text}); } } }
  if (s.chance(1, meta || focus ? 12 : 4)) { off = 1 + s.below(s.chance(1, 8) ? 2000000000 : 6); if (s.chance(1, 12)) { off = -(int64_t)s.below(3); bad("offset"); } opts.push_back({"-O", std::to_string(off)}); if (off > 0 && s.chance(1, 10)) { off = 1; opts.push_back({"-O", "1"}); } }
  uint64_t mult = focus && s.chance(1, 4) ? 20 + s.below(60) : 1; // intervals of minutes
  if (s.chance(timed ? 4 : 1, 5)) { tmo = s.below(s.chance(1, 10) ? 1 : 4) + (s.chance(1, 10) ? 0 : 1); if (!tmo) bad("timeout"); tmo *= mult; opts.push_back({"-t", std::to_string(tmo)}); }
  if (s.chance(focus ? 7 : timed ? 3 : 1, 8)) { itv = s.below(focus && tmo > mult && s.chance(2, 3) ? tmo / mult - 1 : timed ? 8 : 3) + (s.chance(1, 10) ? 0 : 1); if (!itv) bad("interval"); itv *= mult; opts.push_back({"-i", std::to_string(itv)}); }
  if (s.chance(1, 40)) { opts.push_back({s.oneof<Str>({"-h", "-x", "-Z", "--json"})}); bad("unknown option"); }
  if (tmo || itv) moving = focus || s.chance(2, 3);
  for (size_t i = opts.size(); i > 1; i--) { size_t k = s.below(i); if (opts[i - 1][0] != opts[k][0]) { bool same = false; for (size_t x = 0; x < opts.size(); x++) if (x != i - 1 && x != k && (opts[x][0] == opts[k][0] || opts[x][0] == opts[i - 1][0])) same = true; if (!same) std::swap(opts[i - 1], opts[k]); } }
  std::vector<Str> args; bool join = false;
  for (auto &v : opts) { bool fl = v.size() == 1 && v[0].size() == 2; if (fl && join && s.flip()) { args.back() += v[0].substr(1); continue; } if (v.size() == 2 && !v[1].empty() && s.chance(1, 4)) { if (join && s.flip()) args.back() += v[0].substr(1) + v[1]; else args.push_back(v[0] + v[1]); join = false; continue; }
    if (v.size() == 2 && join && s.chance(1, 3)) { args.back() += v[0].substr(1); args.push_back(v[1]); join = false; continue; } for (auto &x : v) args.push_back(x); join = fl; }
  // operands
  std::vector<Str> opn; static const char *sub[] = {"rrset", "rdata", "rdata", "rdata", "time_range", "version"}; opn.push_back(sub[q.kind]);
  if (q.kind == QK_NAME) opn.push_back("name"); if (q.kind == QK_IP) opn.push_back("ip"); if (q.kind == QK_RAW) opn.push_back("raw");
  if (q.kind <= QK_RAW && s.chance(1, 40)) { q.text = s.oneof<Str>({"", "a/b", "/", "a..b", "zz", "..", "1.2.3.4/33", "::/129", "0", "*.a.*", "\\", "1.2.3.4-1.2.3.3"}); }
  if (!q.null_data) opn.push_back(q.text);
  if (q.do_bw && !q.do_type) { q.do_type = true; q.type = 255; q.type_text = "ANY"; }
  if (q.do_type && s.chance(1, 40)) q.type_text = s.oneof<Str>({"", "NOSUCH", "TYPE65536", "A,NS"});
  if (q.do_type) opn.push_back(q.type_text); if (q.do_bw) opn.push_back(q.bw_text);
  if (s.chance(1, 40)) switch (s.below(5)) {
    case 0: { while (opn.size() < (q.kind == QK_RRSET ? 5u : q.kind == QK_IP ? 4u : q.kind == QK_TIME ? 2u : q.kind == QK_VERSION ? 3u : 5u)) opn.push_back("com"); bad("too many operands"); break; }
    case 1: opn.resize(q.kind == QK_TIME || q.kind == QK_VERSION ? 0 : q.kind == QK_RRSET ? s.below(2) : s.below(3)); bad("too few operands"); break;
    case 2: opn[0] = s.oneof<Str>({"rrse", "rrsets", "", "RRSET", "rdata_name", "time-range", "source_info"}); bad("subcommand"); break;
    case 3: if (opn.size() >= 3 && opn[0] == "rdata") { opn[1] = s.oneof<Str>({"names", "", "IP", "hex"}); bad("rdata kind"); } break;
    default: if (q.kind == QK_VERSION) { opn.resize(1); opn.push_back(s.oneof<Str>({"", "RRSET", "source_info", "rdata_", "name"})); bad("version type"); } }
  bool dash = false; for (auto &x : opn) if (!x.empty() && x[0] == '-') dash = true; if (dash || s.chance(1, 10)) args.push_back("--");
  args.insert(args.end(), opn.begin(), opn.end());
  // environment
  std::vector<std::pair<Str, Str>> env; int src; unsigned one = 0; if (s.chance(1, 40)) { if (s.flip()) { env = {{"DNSTABLE_FNAME", "mem:0"}, {"DNSTABLE_SETFILE", "mem:s"}}; } bad("environment"); src = 0; }
  else if (u ? s.chance(1, 12) : s.flip()) { src = 1; one = s.below(db.nfiles); if (s.chance(1, 40)) { env = {{"DNSTABLE_FNAME", "mem:none"}}; bad("no such file"); } else env = {{"DNSTABLE_FNAME", "mem:" + num(one)}}; if (u) bad("unaggregated single file"); }
  else { src = 2; env = {{"DNSTABLE_SETFILE", "mem:s"}}; }
  if (meta && off) bad("offset of metadata"); if (meta && R) bad("raw metadata"); if (n && (j || J || R)) bad("-n and JSON"); if (j && J) bad("-j and -J"); if (R && !j && !J) bad("raw text");
  if (q.kind == QK_RRSET && opn.size() > 1 && opn[1].find('/') != Str::npos) bad("slash");
  pbt::note("dnstable_lookup%s\n  %s now %llu fail '%s'\n  db %s", shown(args).c_str(), env.empty() ? "no environment" : env[0].second.c_str(), (unsigned long long)now, why.c_str(), describe(db).c_str());
  // the results expected
  std::vector<Str> exp; std::map<Str, uint64_t> stage; uint64_t cat[8] = {}; 
  if (!fail) {
    auto h = dnstable_query_init(qtype(q.kind)); dnstable_query_set_case_sensitive(h, C); if (!q.null_data && dnstable_query_set_data(h, q.text.c_str()) != dnstable_res_success) bad("data");
    if (!fail && q.do_type && dnstable_query_set_rrtype(h, q.type_text.c_str()) != dnstable_res_success) bad("rrtype");
    if (!fail && q.do_bw && dnstable_query_set_bailiwick(h, q.bw_text.c_str()) != dnstable_res_success) bad("bailiwick");
    if (!fail) {
      uint64_t b[4]; memcpy(b, lim, sizeof b);
      if (c) { if (b[3]) b[1] = std::max(b[1], b[3]); if (b[0]) b[2] = b[2] ? std::min(b[2], b[0]) : b[0]; }
      if (!meta) for (int i = 0; i < 4; i++) if (b[i]) OKQ(dnstable_query_set_filter_parameter(h, q_param[i], &b[i], sizeof b[i]), "set_filter_parameter");
      if (off) dnstable_query_set_offset(h, off); dnstable_query_set_aggregated(h, !u);
      struct mtbl_reader *mr = nullptr; struct dnstable_reader *rd; if (src == 2) rd = dnstable_reader_init_setfile("mem:s"); else { mr = mtbl_reader_init(("mem:" + num(one)).c_str(), nullptr); rd = dnstable_reader_init(mtbl_reader_source(mr)); }
      auto it = dnstable_reader_query(rd, h); CHECK(it, "no iterator"); struct dnstable_entry *e;
      auto f = dnstable_formatter_init(); dnstable_formatter_set_output_format(f, dnstable_output_format_json); dnstable_formatter_set_date_format(f, j ? dnstable_date_format_unix : dnstable_date_format_rfc3339); dnstable_formatter_set_raw_rdata(f, R);
      while (dnstable_iter_next(it, &e) == dnstable_res_success) { char *t = j || J ? dnstable_entry_format(f, e) : dnstable_entry_to_text(e); CHECK(t, "format"); Str x = t; free(t); if (j || J || dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RRSET) x += "\n"; exp.push_back(x); dnstable_entry_destroy(&e); }
      for (int i = 0; dnstable_stat_stage_to_str((dnstable_stat_stage)i); i++) for (int k = 0; dnstable_stat_category_to_str((dnstable_stat_category)k); k++) { bool ex = false; uint64_t v = 0; if (dnstable_iter_get_count(it, (dnstable_stat_stage)i, (dnstable_stat_category)k, &ex, &v) == dnstable_res_success && ex) { stage[Str(dnstable_stat_stage_to_str((dnstable_stat_stage)i)) + " " + dnstable_stat_category_to_str((dnstable_stat_category)k)] = v; if (k < 8) cat[k] += v; } }
      dnstable_formatter_destroy(&f); dnstable_iter_destroy(&it); dnstable_reader_destroy(&rd); if (mr) mtbl_reader_destroy(&mr);
    }
    dnstable_query_destroy(&h);
  }
  uint64_t maxstep = 0; clk_script.clear(); clk_pos = 0; if (moving && !fail) { bool slow = focus || (timed && s.chance(1, 4)); uint64_t scale = (1 + s.below(6)) * mult; maxstep = slow ? scale * 100000000 : 0; size_t k = 1 + s.below(slow ? 600 : 40); for (size_t i = 0; i < k; i++) clk_script.push_back(s.chance(1, 2) ? 0 : slow ? scale * s.oneof<uint64_t>({1, 10000000u, 20000000u, 50000000u, 100000000u}) : s.oneof<uint64_t>({1, 400000000u, 1000000000u, 999999999u, 2500000000u})); }
  *sh_clk = Clk(); clk_tmo = tmo * G; clk_mono = s.oneof<uint64_t>({5 * G, 7 * G + 999999999, 100 * G + 1}); clk_real = now; clk_on = true;
  Ran r = run_cli(lookup_main, "dnstable_lookup", args, env); clk_on = false; Clk k = *sh_clk;
  const char *cl = shown(args).c_str(); Str cls = shown(args); cl = cls.c_str();
  if (fail) { CHECK(r.code != 0, "exit status 0 although %s is invalid:%s", why.c_str(), cl); CHECK(r.out.empty(), "output together with a failure (%s):%s", why.c_str(), cl); CHECK(!r.err.empty(), "failure without a message (%s):%s", why.c_str(), cl); }
  else {
    CHECK(r.code == 0, "exit status %d for%s: %s", r.code, cl, r.err.c_str());
    size_t got = exp.size(); bool cut = false; std::map<Str, std::vector<Str>> sl; lines_of(r.err, sl);
    if (tmo && moving) { // as many results as the time allowed
      Str full; size_t i = 0; if (n) { if (sscanf(strstr(r.err.c_str(), "Dumped") ? strstr(r.err.c_str(), "Dumped") : "", "Dumped %zu", &got) != 1) CHECK(false, "no count with -n: %s", r.err.c_str()); CHECK(got <= exp.size(), "%zu of %zu results", got, exp.size()); }
      else if (u) { got = 0; for (size_t p = 0; p < r.out.size(); p++) if (r.out[p] == '\n') got++; got = exp.size(); cut = true; if (r.out.empty()) cut = true; Str all; for (auto &x : exp) all += x; CHECK(r.out.size() <= all.size(), "more output than results"); if (r.out.size() == all.size()) cut = false; }
      else { while (i < exp.size() && full.size() < r.out.size()) full += exp[i++]; CHECK(full == r.out, "with a time limit the output is not the beginning of the results:%s\n%s\n---\n%s", cl, r.out.substr(0, 1500).c_str(), full.substr(0, 1500).c_str()); got = i; }
      if (got < exp.size()) cut = true;
      CHECK(k.late <= 6, "still at work %u clock readings after the limit of %llu s", k.late, (unsigned long long)tmo);
      if (cut) { CHECK(k.last >= k.first + tmo * G, "stopped after %llu ns of %llu s", (unsigned long long)(k.last - k.first), (unsigned long long)tmo); if (!j && !J) CHECK(r.err.find("timed out") != Str::npos, "stopped early without saying so: %s", r.err.c_str()); }
    } else {
      Str full; for (auto &x : exp) full += x; if (n) full.clear();
      if (u) { // equal keys of different files may come in any order
        Str a = r.out, b = full; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (off) CHECK(exp.empty() == r.out.empty() || n, "output and results differ"); else CHECK(a == b, "output differs from the results:%s\n%s\n---\n%s", cl, r.out.substr(0, 1500).c_str(), full.substr(0, 1500).c_str());
      } else CHECK(r.out == full, "output differs from the results:%s\n%s\n---\n%s", cl, r.out.substr(0, 1500).c_str(), full.substr(0, 1500).c_str());
    }
    if (!j && !J && !(u && cut)) { char b[80]; snprintf(b, 80, ";;; Dumped %zu entries.", got); CHECK(r.err.find(b) != Str::npos, "'%s' missing: %s", b, r.err.c_str()); }
    if (j || J) CHECK(r.err.find(";;;") == Str::npos, "summary in JSON mode: %s", r.err.c_str());
    if (!st && !itv) CHECK(sl.empty(), "statistics which were not asked for: %s", r.err.c_str());
    else { CHECK(!sl["entries"].empty() && !sl["elapsed"].empty(), "no statistics: %s", r.err.c_str()); if (!(u && cut)) CHECK(sl["entries"].back() == std::to_string(got), "%s entries counted, %zu printed", sl["entries"].back().c_str(), got);
      if (itv && moving) { // one report per interval, the last one at the end
        unsigned long long prev = 0; auto &el = sl["elapsed"]; for (size_t x = 0; x < el.size(); x++) { unsigned long long sec = 0, ns = 0; CHECK(sscanf(el[x].c_str(), "%llu.%9llus", &sec, &ns) == 2, "elapsed %s", el[x].c_str()); sec = sec * G + ns; if (!tmo && x && x + 1 < el.size()) CHECK(sec - prev >= itv * G, "statistics after %s, %.9f s after the last ones, the interval is %llu s", el[x].c_str(), (double)(sec - prev) / G, (unsigned long long)itv);
          if (maxstep) CHECK(sec - prev <= itv * G + 10 * maxstep, "no statistics for %.9f s, the interval is %llu s", (double)(sec - prev) / G, (unsigned long long)itv); prev = sec; } if (el.size() > 2) pbt::classify("periodic_statistics"); }
      if (!itv) CHECK(sl["entries"].size() == 1, "statistics printed %zu times", sl["entries"].size());
      if (!moving) { CHECK(sl["elapsed"].back() == "0.000000000s", "elapsed %s while the clock stands still", sl["elapsed"].back().c_str()); CHECK(sl["entries"].size() == 1, "statistics printed %zu times", sl["entries"].size()); }
      else { unsigned long long sec = 0, ns = 0; CHECK(sscanf(sl["elapsed"].back().c_str(), "%llu.%9llus", &sec, &ns) == 2, "elapsed %s", sl["elapsed"].back().c_str()); CHECK(sec * G + ns <= k.last - k.first, "elapsed %s of %llu ns", sl["elapsed"].back().c_str(), (unsigned long long)(k.last - k.first)); }
      if (!c && !moving) {
        if (st >= 2) { for (auto &x : stage) { CHECK(sl[x.first].size() == 1, "no line for %s: %s", x.first.c_str(), r.err.c_str()); CHECK(sl[x.first][0] == std::to_string(x.second), "%s is %s, the iterator says %llu", x.first.c_str(), sl[x.first][0].c_str(), (unsigned long long)x.second); } CHECK(sl.size() == stage.size() + 2, "further statistics: %s", r.err.c_str()); }
        else { unsigned i = 0; for (; dnstable_stat_category_to_str((dnstable_stat_category)i); i++) { Str nm = dnstable_stat_category_to_str((dnstable_stat_category)i); CHECK(sl[nm].size() == 1, "no line for %s: %s", nm.c_str(), r.err.c_str()); CHECK(sl[nm][0] == std::to_string(cat[i]), "%s is %s, the iterator says %llu", nm.c_str(), sl[nm][0].c_str(), (unsigned long long)cat[i]); } CHECK(sl.size() == i + 2, "further statistics: %s", r.err.c_str()); } } }
    if (!exp.empty() && !opts.empty()) pbt::nontrivial(); if (cut) pbt::classify("timed_out"); if (c && (lim[3] || lim[0])) pbt::classify("strict"); if (bounds) pbt::classify("bounds"); if (st || itv) pbt::classify("statistics");
  }
  if (fail) pbt::classify("invalid"); if (pbt::want_sample()) pbt::sample("%s dnstable_lookup%s -> %d, %zu results%s%s", env.empty() ? "-" : env[0].second.c_str(), cl, r.code, exp.size(), fail ? ", invalid: " : "", why.c_str());
  mtblx_clear();
}
