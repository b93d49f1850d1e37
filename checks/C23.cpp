// C23: the dnstable_dump program.
#include "cli.h"
extern "C" int dump_main(int, char **);
pbt::Config pbt::config = {"C23", "Random command lines of dnstable_dump (every kind, short and long options, grouped, in any order, repeated, valid and invalid combinations) on random files with unknown and undecodable keys mixed in, run as the program's own main in a child. Oracle: every key/value pair of the requested kind decoded one by one in key order and formatted; exit status and standard output byte for byte. Non-trivial: a valid command line with at least one entry.", 36000, 90};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 1; o.big = s.chance(1, 4); o.ip = s.chance(1, 6); o.huge_times = s.chance(1, 4); gen_db(s, db, o); auto &f = db.files[0];
  size_t junk = s.size(4); for (size_t i = 0; i < junk; i++) { Str k = s.oneof<Str>({Str(1, '\4'), Str(1, '\x64'), Str(1, '\0'), Str(1, '\2'), Str("\0\5", 2), Str("\2\7", 2), Str("\1\100", 2), Str("\3\5", 2), Str("\xfd", 1)}) + s.bytes(s.below(4)); if (!f.count(k)) f[k] = s.flip() ? Str() : s.bytes(s.below(4)); }
  if (s.chance(1, 30)) f.clear();
  mtblx_clear(); put_file("mem:0", f);
  static const struct { int kind; const char *sh, *lo; } kinds[] = {{K_RRSET, "r", "rrset_full"}, {K_RDATA, "d", "rdata_full"}, {K_NAME_FWD, nullptr, "rrset_names"}, {K_NAME_REV, nullptr, "rdata_names"}, {K_TIME, "t", "time_range"}, {K_VERSION, "v", "version_entries"}, {K_SOURCE, "s", "source_info_entries"}};
  bool fail = false; Str why; auto bad = [&](const char *w) { if (!fail) why = w; fail = true; };
  std::vector<Str> opts; std::set<int> sel; int k = s.below(7); auto opt = [&](const char *sh, const char *lo) { if (sh && (!lo || s.flip())) opts.push_back(Str("-") + sh); else opts.push_back(Str("--") + lo); };
  bool none = s.chance(1, 30); if (!none) { sel.insert(k); opt(kinds[k].sh, kinds[k].lo); if (s.chance(1, 20)) opt(kinds[k].sh, kinds[k].lo); } if (s.chance(1, 20)) { int x = s.below(7); sel.insert(x); opt(kinds[x].sh, kinds[x].lo); }
  bool j = s.chance(1, 2), R = s.chance(1, (sel.count(0) || sel.count(1)) && j ? 3 : 25); if (j) opt("j", "json"); if (R) opt("R", "raw"); if (j && s.chance(1, 20)) opt("j", "json");
  if (s.chance(1, 40)) { opts.push_back(s.oneof<Str>({"-x", "--nosuch", "-jx", "--rrset_ful_", "-Z"})); bad("unknown option"); }
  if (sel.size() == 1) k = *sel.begin();
  if (sel.size() != 1) bad(sel.empty() ? "no kind" : "two kinds"); if (R && !j) bad("raw text"); if (R && !sel.count(0) && !sel.count(1)) bad("raw of another kind");
  for (size_t i = opts.size(); i > 1; i--) std::swap(opts[i - 1], opts[s.below(i)]);
  std::vector<Str> args; for (auto &x : opts) { if (!args.empty() && x[1] != '-' && args.back()[1] != '-' && s.chance(1, 3)) args.back() += x.substr(1); else args.push_back(x); }
  Str file = "mem:0"; if (s.chance(1, 30)) { file = s.oneof<Str>({"mem:none", ""}); bad("no such file"); } size_t at = s.chance(2, 3) ? args.size() : s.below(args.size() + 1);
  if (s.chance(1, 40)) bad("no file"); else { args.insert(args.begin() + at, file); if (s.chance(1, 40)) { args.push_back("mem:0"); bad("two files"); } }
  std::vector<Str> exp; 
  if (!fail) {
    auto fm = dnstable_formatter_init(); dnstable_formatter_set_output_format(fm, dnstable_output_format_json); dnstable_formatter_set_date_format(fm, dnstable_date_format_unix); dnstable_formatter_set_raw_rdata(fm, R);
    for (auto &x : f) if ((uint8_t)x.first[0] == kinds[k].kind) { auto e = decode(x.first, x.second); if (!e) continue; char *t = j ? dnstable_entry_format(fm, e) : dnstable_entry_to_text(e); if (t) { Str y = t; free(t); if (j || k != 1) y += "\n"; exp.push_back(y); } dnstable_entry_destroy(&e); }
    dnstable_formatter_destroy(&fm);
  }
  Str cl = shown(args); pbt::note("dnstable_dump%s\n  db %s", cl.c_str(), describe(db).c_str());
  Ran r = run_cli(dump_main, "dnstable_dump", args, {});
  if (fail) { CHECK(r.code != 0, "exit status 0 although invalid (%s):%s", why.c_str(), cl.c_str()); CHECK(r.out.empty(), "output together with a failure (%s):%s\n%s", why.c_str(), cl.c_str(), r.out.substr(0, 500).c_str()); CHECK(!r.err.empty(), "failure without a message (%s):%s", why.c_str(), cl.c_str()); pbt::classify("invalid"); }
  else { CHECK(r.code == 0, "exit status %d for%s: %s", r.code, cl.c_str(), r.err.c_str()); Str full; for (auto &x : exp) full += x; CHECK(r.out == full, "output differs from the entries:%s\n%s\n---\n%s", cl.c_str(), r.out.substr(0, 1500).c_str(), full.substr(0, 1500).c_str()); if (!exp.empty()) pbt::nontrivial(); pbt::classify(kinds[k].lo); }
  if (pbt::want_sample()) pbt::sample("dnstable_dump%s -> %d, %zu entries%s%s", cl.c_str(), r.code, exp.size(), fail ? ", invalid: " : "", why.c_str());
  mtblx_clear();
}
