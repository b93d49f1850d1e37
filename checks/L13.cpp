// L13: command-line parsing.
#include "buf.h"
#include <map>
#include <set>
#include <fcntl.h>
#include <unistd.h>
extern "C" {
#include "libmy/argv.h"
}
pbt::Config pbt::config = {"L13", "Generated option tables (every type, arrays, short and long names, one a prefix of another, mandatory options, exclusive groups, mandatory and optional operands) and generated argument lists (long, abbreviated and short options, several in one word, values joined with = or in later words, negative numbers, --, argument files, words from the environment, unknown options, missing and surplus words). A model predicts acceptance, every variable, which entries were used and the text of every value. Non-trivial: accepted with 3 or more entries used, or refused.", 2000000, 110};
static FILE *devnull; static const char dflt[] = "default";
void pbt_init() { devnull = fopen("/dev/null", "w"); argv_interactive = 0; pbt::tmpdir(); if (!freopen("/dev/null", "r", stdin)) _exit(3); }
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
typedef std::vector<Str> Words;
struct Ent { char sh = 0; Str lg; bool has_lg = false; unsigned type = 0; bool arr = false, mand = false, used = false; int kind = 0; /* 0 option 1 MAND 2 MAYBE 3 OR 4 XOR */ std::vector<Str> vals; union { char c; short s; unsigned short us; int i; unsigned u; long l; unsigned long ul; float f; double d; char *p; } v; argv_array_t a; long flag = 0; };
static bool hasarg(unsigned t) { return !(t == ARGV_BOOL || t == ARGV_BOOL_NEG || t == ARGV_INCR || t == ARGV_BOOL_INT || t == ARGV_BOOL_INT_NEG); }
static bool yes(const Str &x) { return !x.empty() && strchr("tTyY1", x[0]); }
static Str binary(int v) { Str s = "0b"; int i = 31; while (!(v >> i & 1)) i--; for (; i >= 0; i--) s += (char)('0' + (v >> i & 1)); return s; }
// whether a word is a value of the type; what other words give is unspecified
static bool wf(unsigned t, const Str &x) {
  auto in = [&](long lo, unsigned long hi, int base) { size_t p = base == 10 && !x.empty() && (x[0] == '+' || (x[0] == '-' && lo)) ? 1 : base == 16 && x.size() > 2 && x[0] == '0' && (x[1] | 32) == 'x' ? 2 : 0; if (p >= x.size()) return false; __int128 v = 0; for (size_t i = p; i < x.size(); i++) { int d = isdigit((unsigned char)x[i]) ? x[i] - '0' : isxdigit((unsigned char)x[i]) ? (x[i] | 32) - 'a' + 10 : 99; if (d >= base) return false; v = v * base + d; if (v > ((__int128)1 << 70)) return false; } if (x[0] == '-') v = -v; return v >= lo && v <= (__int128)hi; };
  switch (t) { case ARGV_SHORT: return in(-32768, 32767, 10); case ARGV_U_SHORT: return in(0, 65535, 10); case ARGV_INCR: case ARGV_INT: return in(INT32_MIN, INT32_MAX, 10); case ARGV_U_INT: return in(0, UINT32_MAX, 10); case ARGV_LONG: return in(INT64_MIN, INT64_MAX, 10); case ARGV_U_LONG: return in(0, UINT64_MAX, 10); case ARGV_BIN: return in(0, INT32_MAX, 2); case ARGV_OCT: return in(0, INT32_MAX, 8); case ARGV_HEX: return in(0, INT32_MAX, 16); case ARGV_FLOAT: case ARGV_DOUBLE: { if (x.empty() || x.find_first_not_of("0123456789+-.eE") != Str::npos) return false; char *e; strtod(x.c_str(), &e); return !*e; }
  case ARGV_SIZE: case ARGV_U_SIZE: { Str d = x; int k = 0; if (!d.empty() && strchr("bBkKmMgG", d.back())) { k = strchr("bB", d.back()) ? 0 : strchr("kK", d.back()) ? 10 : strchr("mM", d.back()) ? 20 : 30; d.pop_back(); } return t == ARGV_SIZE ? wf(ARGV_LONG, d) && (!k || d.size() < 8) : wf(ARGV_U_LONG, d) && (!k || d.size() < 8); } case ARGV_CHAR: return x.size() == 1; }
  return true;
}
// the value of a word as raw octets of the type, and as text
static Str raw(unsigned t, const Str &x) {
  auto b = [](auto v) { return Str((char *)&v, sizeof v); };
  switch (t) { case ARGV_BOOL_ARG: case ARGV_BOOL: case ARGV_BOOL_NEG: return b((char)yes(x)); case ARGV_BOOL_INT_ARG: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: return b((int)yes(x)); case ARGV_CHAR: return b((char)(x.empty() ? 0 : x[0])); case ARGV_CHAR_P: return x; case ARGV_SHORT: return b((short)strtoll(x.c_str(), 0, 10)); case ARGV_U_SHORT: return b((unsigned short)strtoll(x.c_str(), 0, 10)); case ARGV_INCR: case ARGV_INT: return b((int)strtoll(x.c_str(), 0, 10)); case ARGV_U_INT: return b((unsigned)strtoll(x.c_str(), 0, 10)); case ARGV_LONG: return b(strtol(x.c_str(), 0, 10)); case ARGV_U_LONG: return b(strtoul(x.c_str(), 0, 10)); case ARGV_FLOAT: return b(strtof(x.c_str(), 0)); case ARGV_DOUBLE: return b(strtod(x.c_str(), 0));
  case ARGV_BIN: return b((int)strtoll(x.c_str(), 0, 2)); case ARGV_OCT: return b((int)strtoll(x.c_str(), 0, 8)); case ARGV_HEX: return b((int)strtoll(x.c_str(), 0, 16)); case ARGV_SIZE: case ARGV_U_SIZE: { char *e; unsigned long v = t == ARGV_SIZE ? (unsigned long)strtol(x.c_str(), &e, 10) : strtoul(x.c_str(), &e, 10); int k = *e == 'k' || *e == 'K' ? 10 : *e == 'm' || *e == 'M' ? 20 : *e == 'g' || *e == 'G' ? 30 : 0; return b(v << k); } }
  abort();
}
static size_t width(unsigned t) { return t == ARGV_CHAR_P ? sizeof(char *) : raw(t, "0").size(); }
static Str vis(const Str &s) { Str o; for (unsigned char c : s) { const char *sp = "\033^\"'\\\n\r\t\b\f\a", *nm = "e^\"'\\nrtbfa"; const char *q = c ? strchr(sp, c) : nullptr; if (q) { o += '\\'; o += nm[q - sp]; } else if (c >= 32 && c < 127) o += (char)c; else { char m[8]; snprintf(m, 8, "\\%03o", c); o += m; } } return o; }
static Str shown(unsigned t, const Str &r) {
  auto g = [&](auto v) { memcpy(&v, r.data(), sizeof v); return v; }; char m[400]; m[0] = 0;
  switch (t) { case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: return g((char)0) ? "true (! 0)" : "false (0)"; case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: return g(0) ? "true (! 0)" : "false (0)"; case ARGV_CHAR: case ARGV_CHAR_P: return vis(r); case ARGV_SHORT: snprintf(m, 400, "%d", g((short)0)); break; case ARGV_U_SHORT: snprintf(m, 400, "%u", g((unsigned short)0)); break; case ARGV_INCR: case ARGV_INT: snprintf(m, 400, "%d", g(0)); break; case ARGV_U_INT: snprintf(m, 400, "%u", g(0u)); break; case ARGV_LONG: snprintf(m, 400, "%ld", g(0L)); break; case ARGV_U_LONG: snprintf(m, 400, "%lu", g(0UL)); break; case ARGV_FLOAT: snprintf(m, 400, "%f", g(0.f)); break; case ARGV_DOUBLE: snprintf(m, 400, "%f", g(0.)); break;
  case ARGV_BIN: { int v = g(0); if (!v) return "0"; snprintf(m, 400, "%s (%d)", binary(v).c_str(), v); break; } case ARGV_OCT: { int v = g(0); if (!v) return "0"; snprintf(m, 400, "0%o (%d)", v, v); break; } case ARGV_HEX: { int v = g(0); if (!v) return "0"; snprintf(m, 400, "0x%x (%d)", v, v); break; }
  case ARGV_SIZE: case ARGV_U_SIZE: { long v = g(0L); if (!v) return "0"; Str n = t == ARGV_SIZE ? std::to_string(v) : std::to_string((unsigned long)v); int k = v % (1L << 30) == 0 ? 30 : v % (1L << 20) == 0 ? 20 : v % 1024 == 0 ? 10 : 0; if (!k) return n; long q = v / (1L << k); Str qs = t == ARGV_SIZE ? std::to_string(q) : std::to_string((unsigned long)v >> k); return qs + (k == 30 ? "g" : k == 20 ? "m" : "k") + " (" + n + ")"; } }
  return m;
}
struct Model {
  std::vector<Ent> e; std::vector<int> queue; size_t tail = 0; bool ok = true; std::map<Str, Words> files; bool multi = true, toggle = false; Str why;
  void bad(const Str &w) { ok = false; if (why.empty()) why = w; }
  void store(Ent &x, const Str *w) { if (!hasarg(x.type) && !w) { if (x.type == ARGV_INCR) { if (x.vals[0].size() == 4) { int i; memcpy(&i, x.vals[0].data(), 4); i = (int)((unsigned)i + 1); x.vals[0] = Str((char *)&i, 4); } } else { bool t = x.type == ARGV_BOOL || x.type == ARGV_BOOL_INT; x.vals[0] = raw(x.type, t ? "1" : "0"); } return; } Str r = wf(x.type, *w) ? raw(x.type, *w) : "any"; if (x.arr) x.vals.push_back(r); else x.vals.assign(1, r); }
  void opt(int i, const Str *close) { Ent &x = e[i]; if (!multi && x.used && !x.arr && x.type != ARGV_INCR) bad("twice"); x.used = true;
    for (int d = -1; d <= 1; d += 2) for (int k = i; k + 2 * d >= 0 && k + 2 * d < (int)e.size() && (e[k + d].kind >= 3); k += 2 * d) if (e[k + 2 * d].used) bad("exclusive");
    if (close) store(x, close); else if (!hasarg(x.type)) store(x, nullptr); else queue.push_back(i); }
  void list(const Words &ws) { bool last = false;
    for (const Str &w : ws) {
      if (w == "--") { if (!last) { last = true; continue; } if (toggle) { last = false; continue; } }
      size_t eq = w.find('='); Str close = eq == Str::npos ? "" : w.substr(eq + 1), h = w.substr(0, eq); const Str *cp = eq == Str::npos ? nullptr : &close;
      if (!last && w.compare(0, 2, "--") == 0) { Str n = h.size() > 2 ? h.substr(2) : ""; if (n.empty()) { bad("no name"); continue; } int hit = -1, cnt = 0; for (size_t i = 0; i < e.size(); i++) if (e[i].has_lg) { if (e[i].lg == n) { hit = i; cnt = 1; break; } if (e[i].lg.compare(0, n.size(), n) == 0) { if (hit < 0) hit = i; cnt++; } } if (cnt > 1) { bad("ambiguous " + n); continue; } if (cnt == 1) { opt(hit, cp); continue; }
        if (Str("argv-file").compare(0, n.size(), n) == 0) { if (cp) file(*cp); else queue.push_back(-1); continue; } bad("unknown --" + n); continue; }
      if (!last && w.size() > 1 && w[0] == '-') { if (h.size() < 2) { bad("no letter"); continue; }
        for (size_t k = 1; k < h.size(); k++) { int hit = -1; for (size_t i = 0; i < e.size() && hit < 0; i++) if (e[i].kind == 0 && e[i].sh == h[k]) hit = i; if (hit >= 0) { opt(hit, cp); continue; }
          if (k == 1 && w.find_first_not_of("0123456789+-.") == Str::npos && queue.size() > tail && queue[tail] >= 0) { Ent &x = e[queue[tail]]; if (x.type == ARGV_SHORT || x.type == ARGV_INT || x.type == ARGV_LONG || x.type == ARGV_FLOAT || x.type == ARGV_DOUBLE) { store(x, &w); tail++; break; } } bad(Str("unknown -") + h[k]); }
        continue; }
      if (queue.size() > tail) { int i = queue[tail++]; if (i < 0) file(w); else store(e[i], &w); continue; }
      bool done = false; for (int kind = 1; kind <= 2 && !done; kind++) for (auto &x : e) if (x.kind == kind && (!x.used || x.arr)) { store(x, &w); x.used = true; done = true; break; } if (!done) bad("surplus");
    } }
  void file(const Str &p) { if (p == "-") return; // standard input is empty
    auto i = files.find(p); if (i == files.end()) { bad("no file"); return; } list(i->second); }
  void finish() { for (auto &x : e) { if (x.kind == 1 && !x.used) bad("operand missing"); if (x.mand && !x.used) bad("mandatory"); } if (queue.size() > tail) bad("value missing"); for (size_t i = 0; i < e.size(); i++) if (e[i].kind == 4) { bool any = e[i - 1].used; while (true) { any |= e[i + 1].used; if (i + 2 < e.size() && e[i + 2].kind == 4) i += 2; else break; } if (!any) bad("one of"); } }
};
static const unsigned alltypes[] = {ARGV_BOOL, ARGV_BOOL_NEG, ARGV_BOOL_ARG, ARGV_CHAR, ARGV_CHAR_P, ARGV_SHORT, ARGV_U_SHORT, ARGV_INT, ARGV_U_INT, ARGV_LONG, ARGV_U_LONG, ARGV_FLOAT, ARGV_DOUBLE, ARGV_BIN, ARGV_OCT, ARGV_HEX, ARGV_INCR, ARGV_SIZE, ARGV_U_SIZE, ARGV_BOOL_INT, ARGV_BOOL_INT_NEG, ARGV_BOOL_INT_ARG};
// a well-formed value; neg: may be negative
static Str value(Src &s, unsigned t, bool neg) {
  auto num = [&](long lo, long hi) { long v; switch (s.weighted({3, 1, 1})) { case 0: v = (long)s.below(100) - (lo < 0 ? 50 : 0); break; case 1: v = s.oneof<long>({lo, hi, hi / 2, hi - 1}); break; default: v = (long)(s.below(0) >> (1 + s.below(62))) & hi; if (lo < 0 && s.flip()) v = -v; } if (v < 0 && !neg) v = -(v + 1); return (s.chance(1, 12) && v >= 0 ? Str("+") : Str("")) + (s.chance(1, 12) && v >= 0 ? "00" : "") + std::to_string(v); };
  switch (t) { case ARGV_CHAR_P: { if (s.chance(1, 8)) { Str r; for (size_t n = 1 + s.below(12); n; n--) r += s.flip() ? (char)(33 + s.below(94)) : s.oneof<char>({'#', '=', ' ', '\'', '"', '\\', '\r', '\t', (char)0x80, (char)0xe4}); if (r[0] == '-') r[0] = '#'; return r; } static const char *v[] = {"", "a", "word", "two words", "x=y", "/a/path", "\"q'\\\n\t\033\007", "\xc3\xa9\xff\x80", "a longer value that goes on for a while, as file names and such do, 0123456789", "^"}; return v[s.below(10)]; } case ARGV_CHAR: { static const char *v[] = {"c", "Zulu", "", "\n", "=", "\xff", "'"}; return v[s.below(7)]; } case ARGV_SHORT: return num(-32768, 32767); case ARGV_U_SHORT: return num(0, 65535); case ARGV_INT: case ARGV_INCR: return num(INT32_MIN, INT32_MAX); case ARGV_U_INT: return num(0, 4294967295L); case ARGV_LONG: return num(INT64_MIN, INT64_MAX);
  case ARGV_U_LONG: return s.chance(1, 3) ? s.oneof<const char *>({"18446744073709551615", "9223372036854775808"}) : num(0, INT64_MAX); case ARGV_FLOAT: case ARGV_DOUBLE: { static const char *v[] = {"0", "1.5", "3.25", "1e10", "100", ".5", "1234567.875"}; return (neg && s.chance(1, 3) ? "-" : "") + Str(v[s.below(7)]); } case ARGV_BIN: { if (s.chance(1, 3)) { uint32_t v = (uint32_t)(s.below(0) & 0x7fffffff) >> s.below(31); Str r; do r.insert(r.begin(), (char)('0' + (v & 1))); while (v >>= 1); return r; } static const char *v[] = {"0", "1", "1011", "1111111111111111111111111111111", "0001"}; return v[s.below(5)]; } case ARGV_OCT: { if (s.chance(1, 3)) { uint32_t v = (uint32_t)(s.below(0) & 0x7fffffff) >> s.below(31); char b[16]; snprintf(b, sizeof b, "%o", v); return b; } static const char *v[] = {"0", "7", "644", "0755", "17777777777"}; return v[s.below(5)]; } case ARGV_HEX: { if (s.chance(1, 3)) { uint32_t v = (uint32_t)(s.below(0) & 0x7fffffff) >> s.below(31); char b[16]; snprintf(b, sizeof b, s.oneof<const char *>({"%x", "%X", "0x%x", "0X%X"}), v); return b; } static const char *v[] = {"0", "f", "0xFf", "0X1a", "7fffffff", "DeadBee"}; return v[s.below(6)]; }
  case ARGV_SIZE: case ARGV_U_SIZE: { static const char *u[] = {"", "b", "B", "k", "K", "m", "M", "g", "G"}; if (t == ARGV_U_SIZE && s.chance(1, 8)) return "18446744073709551615"; return (neg && t == ARGV_SIZE && s.chance(1, 4) ? "-" : "") + std::to_string(s.below(s.oneof<uint64_t>({10, 5000, 100000}))) + u[s.below(9)]; } default: { static const char *v[] = {"yes", "Y", "true", "T", "1", "no", "n", "false", "F", "0", "", "x"}; return v[s.below(12)]; } }
}
static void words(Src &s, const std::vector<Ent> &e, size_t n, Words &w, const std::vector<Str> &files, bool fit) {
  std::vector<int> opts; for (size_t i = 0; i < e.size(); i++) if (e[i].kind == 0) opts.push_back(i); std::vector<unsigned> owed;
  for (size_t k = 0; k < n; k++) { int c = s.weighted({fit ? 12u : 6u, 3, 2, fit ? 0u : 2u, 1, fit ? 0u : 1u, 1}); // option, word, value for what is owed, unknown, --, odd, file
    if (c == 0 && opts.empty()) c = 1; if (c == 6 && files.empty()) c = 1;
    switch (c) {
    case 0: { const Ent &x = e[opts[s.below(opts.size())]]; bool useLong = x.has_lg && (x.sh == 0 || s.flip()); Str t = useLong ? "--" + (s.chance(1, 4) ? x.lg.substr(0, 1 + s.below(x.lg.size())) : x.lg) : Str("-") + x.sh; if (useLong && Str("argv-file").compare(0, t.size() - 2, t.substr(2)) == 0) t = "--" + x.lg;
      if (!useLong && s.chance(1, 4)) { size_t m = 1 + s.below(4); for (size_t j = 0; j < m; j++) { const Ent &y = e[opts[s.below(opts.size())]]; if (y.sh) { t += y.sh; if (hasarg(y.type)) owed.push_back(y.type); } } w.push_back(t); if (hasarg(x.type)) owed.insert(owed.begin(), x.type); break; }
      if (s.chance(1, 3) ) { w.push_back(t + "=" + value(s, x.type, true)); break; } w.push_back(t); if (hasarg(x.type)) { if (s.chance(4, 5) && owed.empty()) { Str v = value(s, x.type, x.type == ARGV_SHORT || x.type == ARGV_INT || x.type == ARGV_LONG || x.type == ARGV_FLOAT || x.type == ARGV_DOUBLE); if (v.size() > 1 && v[0] == '-' && v.find_first_not_of("0123456789+-.") != Str::npos) v = "1"; w.push_back(v); } else owed.push_back(x.type); } break; }
    case 1: { unsigned t = ARGV_CHAR_P; for (auto &x : e) if (x.kind == 1 || x.kind == 2) { t = x.type; if (s.flip()) break; } w.push_back(value(s, owed.empty() ? t : owed[0], false)); break; }
    case 2: if (owed.empty()) break; w.push_back(value(s, owed[0], false)); owed.erase(owed.begin()); break;
    case 3: w.push_back(s.oneof<const char *>({"--zz", "--zz=1", "-Z", "-Z=4", "--x-unknown", "-!"})); break;
    case 4: w.push_back(s.flip() ? "--" : "-"); break;
    case 5: w.push_back(s.oneof<const char *>({"-=x", "--=x", "-5", "-1.5", "-+", "---", "=", "-a-"})); break;
    case 6: { Str f = files[s.below(files.size())]; if (s.flip()) w.push_back("--argv-file=" + f); else { w.push_back("--argv-file"); w.push_back(f); } break; }
    } }
  while (fit && !owed.empty()) { w.push_back(value(s, owed[0], false)); owed.erase(owed.begin()); }
}
void pbt_case(Src &s) {
  Model m; std::vector<Ent> &e = m.e; m.multi = !s.chance(1, 6); m.toggle = s.chance(1, 6); bool fit = s.chance(2, 3); size_t no = s.size(8); static const char letters[] = "abcdefgh15xy"; static const char *longs[] = {"alpha", "al", "alphabet", "beta", "be", "b-2", "gamma", "name", "names", "n", "file", "delta"}; std::set<char> us; std::set<int> ul; bool group = false; int gk = 3;
  for (size_t i = 0; i < no; i++) { Ent x; x.type = alltypes[s.below(22)]; if (s.chance(6, 7)) { char c = letters[s.below(12)]; if (us.insert(c).second) x.sh = c; } if (!x.sh || s.flip()) { int l = s.below(12); if (ul.insert(l).second) { x.lg = longs[l]; x.has_lg = true; } } if (!x.sh && !x.has_lg) continue; if (hasarg(x.type) && s.chance(1, 4)) x.arr = true; if (group && e.size() && e.back().kind == 0) { Ent o; o.kind = gk; e.push_back(o); } x.mand = !group && s.chance(1, 12); e.push_back(x); bool was = group; group = s.chance(1, was ? 3 : 6); if (group && e.back().mand) group = false; if (group && !was) gk = s.chance(1, 3) ? 4 : 3; }
  { size_t nm = s.weighted({3, 2, 1, 1}), ny = s.weighted({3, 1, 1}); bool ended = false; size_t at = 0; auto ins = [&](Ent x) { // somewhere after the previous operand, never inside a group
      std::vector<size_t> ok; for (size_t p = at; p <= e.size(); p++) if ((p == 0 || e[p - 1].kind < 3) && (p == e.size() || e[p].kind < 3)) ok.push_back(p); size_t p = ok[ok.size() - 1 - s.below(ok.size())]; e.insert(e.begin() + p, x); at = p + 1; };
    for (size_t i = 0; i < nm + ny && !ended; i++) { Ent x; x.kind = i < nm ? 1 : 2; static std::vector<unsigned> ha; if (ha.empty()) for (unsigned q : alltypes) if (hasarg(q)) ha.push_back(q); x.type = s.pick(ha); if (s.chance(1, 4)) { x.arr = true; ended = true; } ins(x); } }
  for (auto &x : e) { memset(&x.v, 0, sizeof x.v); if (x.kind >= 3) continue; if (!x.arr) { Str init = x.type == ARGV_CHAR_P ? Str() : Str(width(x.type), 0); if (x.type != ARGV_CHAR_P && x.type != ARGV_CHAR && s.flip()) { init[0] = s.below(2); } memcpy(&x.v, init.data(), x.type == ARGV_CHAR_P ? 0 : init.size()); if (x.type == ARGV_CHAR_P && s.flip()) { x.v.p = (char *)dflt; x.flag = 1; } x.vals.assign(1, init); } else { x.a.aa_entry_n = 77; x.a.aa_entries = nullptr; } }
  std::vector<Str> fl; size_t nf = s.chance(1, 12) ? 1 + s.below(2) : 0; for (size_t i = 0; i < nf; i++) { Str p = Str(pbt::tmpdir()) + "/f" + std::to_string(i); Words w; words(s, e, s.below(s.chance(1, 6) ? 40 : 5), w, fl, fit); Words kept; Str text; for (auto &x : w) if (x.find('\n') == Str::npos && x.size() < 900) { if (s.chance(1, 8)) text += "\n"; text += x + "\n"; if (!x.empty()) kept.push_back(x); } if (!text.empty() && s.chance(1, 4)) text.pop_back(); if (text.size() && text.back() != '\n' && kept.empty()) text = "\n"; int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) _exit(3); close(fd); m.files[p] = kept; fl.push_back(p); } if (s.chance(1, 60)) fl.push_back("/nonexistent/args"); if (e.empty()) fl.clear(); // without a table a word never belongs to --argv-file
  Words w, env; words(s, e, s.size(s.chance(1, 20) ? 40 : 9), w, fl, fit); if (fit) { for (auto &x : e) { if (x.mand && s.chance(9, 10)) { Str t = x.sh ? Str("-") + x.sh : "--" + x.lg; w.insert(w.begin(), t + "=" + value(s, x.type, true)); } if (x.kind == 1 && s.chance(2, 3)) w.push_back(value(s, x.type, false)); } }
  bool has_env = s.chance(1, 10); if (has_env) { Words c; words(s, e, s.below(5), c, {}, fit); for (auto &x : c) if (!x.empty() && x.find_first_of(" \t") == Str::npos) env.push_back(x); Str t; for (auto &x : env) { t += s.oneof<const char *>({"", " ", "\t "}); t += x + " "; } if (s.flip() && !env.empty()) t.pop_back(); if (env.empty() && s.flip()) t = "  "; setenv("ARGV_PRG-1", t.c_str(), 1); } else unsetenv("ARGV_PRG-1"); argv_process_env_b = !s.chance(1, 4); argv_env_after_b = s.flip();
  Str tab, line; for (auto &x : e) { tab += " "; if (x.kind) tab += x.kind == 1 ? "MAND" : x.kind == 2 ? "MAYBE" : x.kind == 3 ? "OR" : "XOR"; if (x.sh) tab += Str("-") + x.sh; if (x.has_lg) tab += "--" + x.lg; if (x.kind < 3) { tab += ":" + std::to_string(x.type); if (x.arr) tab += "[]"; if (x.mand) tab += "!"; } } for (auto &x : w) line += " " + pbt::quote(x); if (has_env) { line += argv_process_env_b ? argv_env_after_b ? "; env after:" : "; env before:" : "; env ignored:"; for (auto &x : env) line += " " + pbt::quote(x); } for (auto &p : m.files) { line += "\n  file " + p.first + ":"; for (auto &x : p.second) line += " " + pbt::quote(x); } pbt::note("table:%s\nwords:%s%s%s", tab.c_str(), line.c_str(), m.multi ? "" : " (no repetition)", m.toggle ? " (-- toggles)" : "");
  std::vector<size_t> nul; // table in a heap block of the exact size
  argv_t *t = (argv_t *)malloc(sizeof(argv_t) * (e.size() + 1)); for (size_t i = 0; i < e.size(); i++) { Ent &x = e[i]; argv_t a = {x.kind == 0 ? x.sh : x.kind == 1 ? ARGV_MAND : x.kind == 2 ? ARGV_MAYBE : x.kind == 3 ? ARGV_OR : ARGV_ONE_OF, x.has_lg ? x.lg.c_str() : nullptr, x.kind >= 3 ? 0u : x.type | (x.arr ? ARGV_FLAG_ARRAY : 0) | (x.mand ? ARGV_FLAG_MAND : 0), x.kind >= 3 ? nullptr : x.arr ? (void *)&x.a : (void *)&x.v, nullptr, nullptr}; t[i] = a; } argv_t lastent = {ARGV_LAST, nullptr, 0, nullptr, nullptr, nullptr}; t[e.size()] = lastent;
  Str prog = s.oneof<const char *>({"prg-1", "/usr/bin/prg-1", "./x/prg-1"}); std::vector<char *> av; av.push_back(strdup(prog.c_str())); for (auto &x : w) av.push_back(strdup(x.c_str())); av.push_back(nullptr);
  argv_multi_accept_b = m.multi; argv_last_toggle_b = m.toggle; argv_error_stream = s.chance(1, 4) ? devnull : nullptr; argv_error_type = s.oneof<int>({ARGV_USAGE_NONE, ARGV_USAGE_SHORT, ARGV_USAGE_LONG, ARGV_USAGE_SEE, ARGV_USAGE_SHORT_REM, ARGV_USAGE_ALL});
  if (has_env && argv_process_env_b && !argv_env_after_b) m.list(env); m.list(w); if (has_env && argv_process_env_b && argv_env_after_b) m.list(env); m.finish();
  int r = argv_process_no_env(t, av.size() - 1, av.data()); pbt::note("result %d, expected %s", r, m.ok ? "0" : ("an error: " + m.why).c_str());
  CHECK((r == 0) == m.ok, "%s", m.ok ? "refused" : ("accepted in spite of: " + m.why).c_str()); CHECK(!strcmp(argv_program, "prg-1"), "program name %s", argv_program);
  if (m.ok) { size_t used = 0; for (size_t i = 0; i < e.size(); i++) { Ent &x = e[i]; if (x.kind >= 3) continue; const char *nm = x.sh ? &x.sh : x.lg.c_str(); (void)nm; used += x.used; CHECK(argv_entry_was_used(&t[i]) == x.used, "entry %zu is reported as %sused", i, x.used ? "not " : ""); if (x.kind == 0 && x.sh) CHECK(argv_was_used(t, x.sh) == x.used, "-%c is reported as %sused", x.sh, x.used ? "not " : ""); if (x.has_lg) { Str cp = x.lg; CHECK(argv_long_was_used(t, cp.c_str()) == x.used, "--%s is reported as %sused", x.lg.c_str(), x.used ? "not " : ""); }
      size_t n = x.arr ? (size_t)x.a.aa_entry_n : 1, wd = width(x.type); CHECK(n == x.vals.size(), "entry %zu has %zu values, expected %zu", i, n, x.vals.size()); for (size_t k = 0; k < n; k++) { const char *p = x.arr ? (char *)x.a.aa_entries + k * wd : (char *)&x.v; Str got; if (x.type == ARGV_CHAR_P) { const char *q; memcpy(&q, p, sizeof q); if (!x.used && !x.arr) { CHECK(q == (x.flag ? dflt : nullptr), "the default of entry %zu, which was not given, is lost", i); continue; } CHECK(q, "entry %zu has no string", i); got = q; } else { if (x.vals[k] == "any") continue; got = Str(p, wd); } CHECK(got == x.vals[k] && (x.type != ARGV_CHAR_P || x.used), "entry %zu value %zu is %s, expected %s", i, k, x.type == ARGV_CHAR_P ? pbt::quote(got).c_str() : shown(x.type, got).c_str(), x.type == ARGV_CHAR_P ? pbt::quote(x.vals[k]).c_str() : shown(x.type, x.vals[k]).c_str()); }
      bool odd = x.type != ARGV_CHAR_P && x.vals.size() && x.vals[0] == "any"; if (s.chance(1, 4)) { Exact b(400); int k = argv_value_string(&t[i], (char *)b.p, 400); Str got = b.str(k < 0 || k > 400 ? 0 : k), want; if (odd) want = ""; else if (x.arr) want = n == 0 ? "0 array entries" : shown(x.type, x.vals[0]) + (n > 1 ? " (1st of " + std::to_string(n) + " entries)" : ""); else want = x.type == ARGV_CHAR_P && !x.used ? x.flag ? dflt : "(null)" : shown(x.type, x.vals[0]); CHECK(odd || got == want, "entry %zu is shown as %s, expected %s", i, pbt::quote(got).c_str(), pbt::quote(want).c_str()); size_t sm = 12 + s.below(30); Exact c(sm); k = argv_value_string(&t[i], (char *)c.p, sm); CHECK(k >= 0 && (size_t)k <= sm, "length %d in a buffer of %zu", k, sm); } }
    if (used >= 3) pbt::nontrivial(); pbt::classify("accepted"); pbt::classify("entries_used", used); } else { pbt::nontrivial(); pbt::classify("refused"); }
  if (s.chance(1, 6)) { bool eqs = false; Str all; for (size_t i = 0; i < w.size(); i++) { if (i) all += " "; all += w[i]; eqs |= w[i].find('=') != Str::npos; } if (!eqs) { size_t n = 1 + s.below(all.size() + 4); Exact b(n); argv_copy_args((char *)b.p, n); Str got((char *)b.p, strnlen((char *)b.p, n)); CHECK(got.size() < n && got == all.substr(0, n - 1).substr(0, got.size()) && (got.size() == std::min(all.size(), n - 1) || got.size() + 1 == n - 1), "copy of the arguments in %zu octets: %s", n, pbt::quote(got).c_str()); } }
  if (pbt::want_sample()) pbt::sample("table:%s\nwords:%s -> %s", tab.c_str(), line.c_str(), m.ok ? "accepted" : m.why.c_str());
  argv_cleanup(t); for (auto p : av) free(p); free(t);
}
