// L07: growable vectors and byte buffers against std::vector.
#include "buf.h"
extern "C" { void *v32_op(int, void *, void *, size_t, void *); void *v12_op(int, void *, void *, size_t, void *); void *vptr_op(int, void *, void *, size_t, void *); void *ubuf_op(int, void *, void *, size_t, void *); void *ubuf_str_op(int, void *, const char *, long, const char *); }
pbt::Config pbt::config = {"L07", "Random histories of 1-60 operations on vectors of 4-, 8- and 12-octet elements and on byte buffers (add, append, extend also by itself, reset, clip, reserve, write-and-advance, detach, reinit, string and format appends, terminate, strip), after each of which content, size, byte count and end pointer are compared with a list. Non-trivial: the storage grew.", 700000, 90};
void pbt_init() {}
typedef void *(*Op)(int, void *, void *, size_t, void *);
struct Vec {
  Op op; size_t es; void *v; Str m; bool u;
  size_t n() const { return m.size() / es; }
  void check() {
    size_t k = 99; op(8, v, nullptr, 0, &k); CHECK(k == n(), "size is %zu, expected %zu", k, n()); op(7, v, nullptr, 0, &k); CHECK(k == m.size(), "bytes is %zu, expected %zu", k, m.size());
    char *d = (char *)op(11, v, nullptr, 0, nullptr); CHECK(!memcmp(d, m.data(), m.size()), "content is %s, expected %s", hex(d, m.size()).substr(0, 400).c_str(), hex(m).substr(0, 400).c_str());
    char *p = (char *)op(10, v, nullptr, 0, nullptr); CHECK(p == d + m.size(), "end pointer is at offset %ld, expected %zu", (long)(p - d), m.size());
    if (n()) { char e[16]; op(9, v, nullptr, n() - 1, e); CHECK(!memcmp(e, m.data() + m.size() - es, es), "last element wrong"); op(9, v, nullptr, n() / 2, e); CHECK(!memcmp(e, m.data() + n() / 2 * es, es), "middle element wrong"); }
  }
};
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
static Str cs(Src &s) { Str x = s.bytes(s.size(s.chance(1, 30) ? 400 : 24)); for (auto &c : x) if (!c) c = '0'; return x; }
static void strip0(Str &m) { if (!m.empty() && m.back() == 0) m.pop_back(); }
void pbt_case(Src &s) {
  size_t base = pbt::live_bytes(); bool sampling = pbt::want_sample(); Str trace; {
  static const Op ops[] = {v32_op, v12_op, vptr_op, ubuf_op}; static const size_t ess[] = {4, 12, 8, 1};
  int t = s.weighted({2, 2, 1, 5}); Vec a[2]; bool grew = false; const char *names[] = {"v32", "v12", "vptr", "ubuf"}; trace = names[t];
  for (int i = 0; i < 2; i++) { a[i].op = ops[t]; a[i].es = ess[t]; a[i].u = t == 3; if (t == 3 && s.chance(1, 4)) a[i].v = ubuf_str_op(0, nullptr, nullptr, 0, nullptr); else if (t == 3 && s.chance(1, 4)) { Str x = cs(s); a[i].v = ubuf_str_op(1, nullptr, x.c_str(), 0, nullptr); a[i].m = x; } else a[i].v = ops[t](0, nullptr, nullptr, s.below(6), nullptr); a[i].check(); }
  size_t steps = 1 + s.below(s.chance(1, 3) ? 60 : 15);
  for (size_t k = 0; k < steps; k++) {
    Vec &x = a[s.below(2)], &y = a[s.below(2)]; size_t es = x.es; if (x.m.size() > 60000) { x.op(4, x.v, nullptr, 0, nullptr); x.m.clear(); }
    int op = s.weighted({6, 5, 3, 1, 3, 2, 3, 1, 1, 3, 3, 2, 3, 3, 2, 2}); if (!x.u && op >= 9) op -= 9; char nm[40]; snprintf(nm, 40, " %d.%d", (int)(&x - a), op); trace += nm; pbt::note("step %zu vec %d op %d n=%zu", k, (int)(&x - a), op, x.n());
    switch (op) {
    case 0: { Str e = s.bytes(es); x.op(1, x.v, e.data(), 0, nullptr); x.m += e; break; }
    case 1: { size_t n = s.size(s.chance(1, 20) ? 600 : 20); Str e = s.bytes(es * n); Exact z(e); x.op(2, x.v, z.p, n, nullptr); x.m += e; if (n > 6) grew = true; break; }
    case 2: { Str ym = y.m; if (!x.m.empty() || !y.m.empty()) { x.op(3, x.v, y.v, 0, nullptr); x.m += ym; if (&x == &y) pbt::classify("extend_by_itself"); } break; }
    case 3: x.op(4, x.v, nullptr, 0, nullptr); x.m.clear(); break;
    case 4: { size_t n = s.below(x.n() + 3); x.op(5, x.v, nullptr, n, nullptr); if (n < x.n()) x.m.resize(n * es); break; }
    case 5: x.op(6, x.v, nullptr, s.size(300), nullptr); grew = true; break;
    case 6: { size_t n = s.size(40), extra = s.below(5); x.op(6, x.v, nullptr, n + extra, nullptr); Str e = s.bytes(n * es); char *p = (char *)x.op(10, x.v, nullptr, 0, nullptr); memcpy(p, e.data(), e.size()); x.op(12, x.v, nullptr, n, nullptr); x.m += e; break; }
    case 7: { size_t n = 0; void *p = x.op(13, x.v, nullptr, 0, &n); CHECK(n == x.n() && !memcmp(p, x.m.data(), x.m.size()), "detach gives %zu elements", n); free(p); x.m.clear(); break; }
    case 8: { size_t n; x.op(15, x.v, nullptr, s.below(5), &n); x.m.clear(); break; }
    case 9: { Str e = cs(s); Exact z(e + Str(1, 0)); ubuf_str_op(2, x.v, (char *)z.p, 0, nullptr); strip0(x.m); x.m += e; break; }
    case 10: ubuf_str_op(3, x.v, nullptr, 0, nullptr); if (x.m.empty() || x.m.back()) x.m += '\0'; break;
    case 11: { char *c = (char *)ubuf_str_op(4, x.v, nullptr, 0, nullptr); if (x.m.empty() || x.m.back()) x.m += '\0'; CHECK(!strcmp(c, x.m.c_str()), "cstr wrong"); break; }
    case 12: { Str e = cs(s), f = cs(s); long v = (long)s.u64(); ubuf_str_op(5, x.v, e.c_str(), v, f.c_str()); char b[2000]; snprintf(b, sizeof b, "%s|%ld|%5.2s", e.c_str(), v, f.c_str()); strip0(x.m); x.m += b; break; }
    case 13: { char c = x.m.empty() || s.flip() ? (char)s.below(256) : x.m.back(); ubuf_str_op(6, x.v, nullptr, c, nullptr); if (!x.m.empty() && x.m.back() == c) x.m.pop_back(); break; }
    case 14: { Str e = s.bytes(s.size(30)); ubuf_str_op(7, x.v, e.data(), e.size(), nullptr); x.m += e; break; }
    case 15: if (s.flip()) { ubuf_str_op(8, x.v, nullptr, 0, nullptr); x.m += "literal"; } else { Str e = cs(s); ubuf_str_op(9, x.v, e.c_str(), 0, nullptr); strip0(x.m); x.m += e; } break;
    }
    a[0].check(); a[1].check();
  }
  for (auto &x : a) { x.op(14, x.v, nullptr, 0, nullptr); if (x.n() > 6) grew = true; }
  if (grew) pbt::nontrivial(); pbt::classify(names[t]); }
  if (sampling) pbt::sample("%s", trace.c_str());
  trace.clear(); trace.shrink_to_fit(); (void)base;
}
