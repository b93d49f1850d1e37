// C26: standard output that cannot be written.
#include "cli.h"
extern "C" int lookup_main(int, char **);
extern "C" int dump_main(int, char **);
pbt::Config pbt::config = {"C26", "Random dumps and lookups of random databases (from none to thousands of octets of output), run once undisturbed and then with standard output on a file that takes only a random number of octets, on a full device, or closed. If the output does not fit, the exit status is not 0, there is a message, and what was written is the beginning of the output; if it fits, status and output are those of the undisturbed run. Non-trivial: output was lost.", 6000, 60};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
void pbt_case(Src &s) {
  DB db; DBOpts o; o.maxfiles = 3; o.big = s.flip(); gen_db(s, db, o);
  mtblx_clear(); Str lines; for (unsigned f = 0; f < db.nfiles; f++) { Str n = "mem:" + num(f); put_file(n, db.files[f]); lines += n + "\n"; } mtblx_put_setfile("mem:s", lines.c_str());
  std::vector<Str> args; std::vector<std::pair<Str, Str>> env; bool dump = s.flip(); auto mainf = dump ? dump_main : lookup_main; const char *name = dump ? "dnstable_dump" : "dnstable_lookup";
  if (dump) { if (s.flip()) args.push_back("-j"); args.push_back(s.oneof<Str>({"-r", "-d", "--rrset_names", "--rdata_names", "-t", "-v", "-s"})); args.push_back("mem:0"); }
  else {
    switch (s.below(4)) { case 0: break; case 1: args.push_back("-j"); break; case 2: args.push_back("-J"); break; default: args.push_back(s.flip() ? "-s" : "-n"); }
    bool set = s.flip(); env = {{set ? "DNSTABLE_SETFILE" : "DNSTABLE_FNAME", set ? "mem:s" : "mem:0"}}; if (set && s.chance(1, 4)) args.push_back("-u");
    switch (s.below(4)) { case 0: args.insert(args.end(), {"rrset", "*."}); break; case 1: args.insert(args.end(), {"rdata", "name", "*."}); break; case 2: args.insert(args.end(), {"rdata", "ip", s.flip() ? "0.0.0.0/0" : "::/0"}); break; default: args.push_back(s.flip() ? "version" : "time_range"); }
  }
  pbt::note("%s%s\n  db %s", name, shown(args).c_str(), describe(db).c_str());
  Ran a = run_cli(mainf, name, args, env); CHECK(a.code == 0, "exit status %d: %s", a.code, a.err.c_str());
  int how = s.weighted({4, 2, 1}); size_t n = a.out.size(), limit = how != OUT_FILE ? 0 : s.chance(1, 4) ? n : s.chance(1, 4) ? n + s.below(10) : s.chance(1, 4) && n ? n - 1 : n ? s.below(n) : 0;
  Ran b = run_cli_faulty(mainf, name, args, env, how, limit); bool lost = n > limit;
  static const char *hn[] = {"file of limited size", "full device", "closed output"};
  if (how == OUT_FILE) CHECK(b.out == a.out.substr(0, std::min(n, limit)), "the part written is not the beginning of the output (limit %zu of %zu octets)", limit, n);
  if (lost) { CHECK(b.code != 0, "exit status 0 although %zu of %zu octets of output were lost (%s)", n - limit, n, hn[how]); CHECK(b.err.size() > 0 && (b.err != a.err), "output lost without a message (%s)", hn[how]); pbt::nontrivial(); }
  else CHECK(b.code == 0, "exit status %d although nothing was lost (%s, %zu octets): %s", b.code, hn[how], n, b.err.c_str());
  pbt::classify(hn[how]); pbt::classify(lost ? "lost" : "complete"); pbt::classify(name); if (pbt::want_sample()) pbt::sample("%s%s: %zu octets, %s taking %zu -> status %d", name, shown(args).c_str(), n, hn[how], limit, b.code);
  mtblx_clear();
}
