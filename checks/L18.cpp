// L18: thread numbers and atomics.
#include "buf.h"
#include "interleave.h"
#include <functional>
#include <set>
#include <map>
extern "C" { void shim_reset(long long, void *); long long shim_value(int); void *shim_ptr(void); long long shim_op(int, int, long long); void *shim_pget(void); int shim_pset(void *); void shim_register(void); int shim_num(void); }
pbt::Config pbt::config = {"L18", "Up to five threads, each with a generated list of operations, run by a deterministic scheduler which lets the generated choices decide at every memory access of the code under test (instrumented by the compiler) which thread goes on. Oracle: the history of calls and results is linearisable with respect to a sequential counter or pointer; numbers of threads are distinct, consecutive and constant. Non-trivial: at least one switch of threads inside an operation.", 40000, 90};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
struct Op { int op; long long x, r; uint64_t from, to; int th; };
static const char *on_[] = {"add", "sub", "zero", "sub_and_test", "inc", "dec", "dec_and_test", "inc_and_test", "add_negative", "read", "set", "pget", "pset"};
static bool apply(int w, const Op &o, long long &v) { // one operation done at once; false if its result cannot be
  auto cut = [&](unsigned long long n) { return w == 0 ? (long long)(int)(unsigned)n : (long long)n; }; auto add = [&](long long d) { v = cut((unsigned long long)v + (unsigned long long)d); };
  switch (o.op) { case 0: add(o.x); return true; case 1: add(-o.x); return true; case 2: { bool ok = o.r == v; v = 0; return ok; } case 3: add(-o.x); return o.r == (v == 0); case 4: add(1); return true; case 5: add(-1); return true; case 6: add(-1); return o.r == (v == 0); case 7: add(1); return o.r == (v == 0); case 8: add(o.x); return o.r == (v < 0); case 9: return o.r == v; case 10: v = o.x; return true; case 11: return o.r == v; case 12: if (o.r) v = o.x; return true; }
  return false;
}
static std::set<std::pair<unsigned, long long>> seen;
static bool lin(int w, const std::vector<Op> &h, unsigned done, long long v, long long fin) {
  if (done == (1u << h.size()) - 1) return v == fin; if (!seen.insert({done, v}).second) return false;
  for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) { bool first = true; for (size_t k = 0; k < h.size(); k++) if (k != i && !(done >> k & 1) && h[k].to < h[i].from) first = false; if (!first) continue; long long n = v; if (apply(w, h[i], n) && lin(w, h, done | 1u << i, n, fin)) return true; }
  return false;
}
static bool have_base; static long long base;
static void threads(Src &s) {
  size_t n = 1 + s.below(5); std::vector<std::vector<int>> got(n); std::vector<unsigned> reads(n); std::vector<std::function<void()>> b; for (size_t i = 0; i < n; i++) reads[i] = 1 + s.below(3);
  for (size_t i = 0; i < n; i++) b.push_back([&, i] { shim_register(); for (unsigned k = 0; k < reads[i]; k++) got[i].push_back(shim_num()); });
  sch::go(s, b); std::set<int> all; Str t; for (auto &g : got) { for (int x : g) { t += " " + std::to_string(x); CHECK(x == g[0], "a thread's number changed from %d to %d", g[0], x); } t += ";"; CHECK(all.insert(g[0]).second, "two threads have number %d:%s", g[0], t.c_str()); }
  CHECK(*all.rbegin() - *all.begin() + 1 == (int)n, "numbers are not consecutive:%s", t.c_str()); if (have_base) CHECK(*all.begin() == base, "numbering goes on with %d instead of %lld", *all.begin(), base); have_base = true; base = *all.rbegin() + 1;
  if (sch::switches > n) pbt::nontrivial(); pbt::classify("thread_numbers");
}
static void atomics(Src &s) {
  int w = s.below(3); static char cell[8]; size_t n = 1 + s.below(4), tot = 0; std::vector<std::vector<Op>> ops(n); long long init = w == 2 ? (long long)(intptr_t)&cell[0] : s.weighted({6, 1}) == 0 ? (long long)s.below(7) - 2 : w == 0 ? s.oneof<long long>({INT32_MAX - 1, INT32_MIN + 1}) : s.oneof<long long>({1LL << 32, 0xffffffffLL, INT64_MAX - 1, INT64_MIN + 1, -(1LL << 32), 1LL << 40});
  int flavour = s.below(3); if (flavour == 1 && w < 2) init = 0;
  for (auto &v : ops) { size_t k = 1 + s.below(n == 1 ? 5 : 3); for (size_t i = 0; i < k && tot < 10; i++, tot++) { Op o = {}; o.op = w == 2 ? 11 + (int)s.below(2) : flavour == 1 ? s.oneof<int>({6, 4, 6, 3}) : flavour == 2 ? s.oneof<int>({2, 0, 4, 1, 2}) : (int)s.below(11); o.x = w == 2 ? (long long)(intptr_t)&cell[1 + s.below(7)] : o.op == 10 ? (w == 1 && s.flip() ? (1LL << 33) + (long long)s.below(3) : (long long)s.below(5)) : (long long)s.below(7) - 2; v.push_back(o); } }
  if (flavour == 1 && w < 2) { for (auto &v : ops) for (auto &o : v) init += o.op == 6 ? 1 : o.op == 3 ? o.x : o.op == 4 ? -1 : 0; }
  shim_reset(init, (void *)(intptr_t)init); uint64_t clock = 0; std::vector<std::function<void()>> b;
  for (size_t i = 0; i < n; i++) b.push_back([&, i] { for (auto &o : ops[i]) { o.th = i; o.from = ++clock; sch::point(); o.r = o.op == 11 ? (long long)(intptr_t)shim_pget() : o.op == 12 ? shim_pset((void *)(intptr_t)o.x) : shim_op(w, o.op, o.x); o.to = ++clock; sch::point(); } });
  sch::go(s, b); std::vector<Op> h; Str t; for (auto &v : ops) for (auto &o : v) { h.push_back(o); char m[120]; snprintf(m, 120, "\n  [%llu,%llu] thread %d: %s(%lld) = %lld", (unsigned long long)o.from, (unsigned long long)o.to, o.th, on_[o.op], o.x, o.r); t += m; }
  long long fin = w == 2 ? (long long)(intptr_t)shim_ptr() : shim_value(w); seen.clear(); pbt::note("width %d from %lld to %lld%s", w, init, fin, t.c_str()); CHECK(lin(w, h, 0, init, fin), "no order of the operations explains the results, from %lld to %lld:%s", init, fin, t.c_str()); seen.clear();
  if (w == 2) for (auto &o : h) if (o.op == 12 && !o.r) { bool ov = false; for (auto &p : h) if (p.op == 12 && p.r && p.th != o.th && p.from < o.to && o.from < p.to) ov = true; CHECK(ov, "setting a pointer fails although nobody else set it:%s", t.c_str()); }
  if (sch::switches > n) pbt::nontrivial(); pbt::classify(w == 0 ? "atomic" : w == 1 ? "atomic64" : "atomic_ptr"); if (pbt::want_sample()) pbt::sample("width %d from %lld to %lld%s", w, init, fin, t.c_str());
}
void pbt_case(Src &s) { if (s.chance(1, 4)) threads(s); else atomics(s); }
