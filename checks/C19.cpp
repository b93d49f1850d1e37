// C19: composable record streams.
#include "enc.h"
#include <memory>
#include <time.h>
pbt::Config pbt::config = {"C19", "Random trees of join, removal, filter (with and without seeking past rejected keys) and time-limited pass-through over tables and mergers with colliding keys; opened whole, at a key, a prefix or a range, then read and repositioned in random order, with the time limit expiring and being extended; in one case of ten the merge function of a join at the top fails for some keys. Oracle: the set-level result computed on maps. Non-trivial: an operator drops or joins records and there is a seek or a bounded opening.", 900000, 60};
extern "C" {
void *sh_ljoin(const struct mtbl_source *, const struct mtbl_source *, mtbl_merge_func, void *); void *sh_filter(const struct mtbl_source *, int (*)(void *, struct mtbl_iter *, const uint8_t *, size_t, const uint8_t *, size_t, bool *), void *); void *sh_timeout(const struct mtbl_source *, const struct timespec *); void *sh_remove(const struct mtbl_source *, const struct mtbl_source **, size_t);
const struct mtbl_source *sh_source(int, void *); void sh_free(int, void *); int sh_next(struct mtbl_iter *, const uint8_t **, size_t *, const uint8_t **, size_t *); int sh_seek(struct mtbl_iter *, const uint8_t *, size_t); }
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
typedef std::map<Str, Str> Map;
static Str combine(const Str &a, const Str &b) { std::vector<Str> t; for (const Str *x : {&a, &b}) { size_t i = 0; while (i < x->size()) { size_t j = x->find(',', i); if (j == Str::npos) j = x->size(); t.push_back(x->substr(i, j - i)); i = j + 1; } } std::sort(t.begin(), t.end()); Str o; for (auto &x : t) o += (o.empty() ? "" : ",") + x; return o; }
static void merge_cb(void *bad, const uint8_t *k, size_t lk, const uint8_t *a, size_t la, const uint8_t *b, size_t lb, uint8_t **m, size_t *lm) { if (bad && ((std::set<Str> *)bad)->count(Str((const char *)k, lk))) { *m = nullptr; *lm = 0; return; } Str o = combine(Str((char *)a, la), Str((char *)b, lb)); *m = (uint8_t *)malloc(o.size() + 1); memcpy(*m, o.data(), o.size()); *lm = o.size(); }
// a filter: keys are kept when their first octet is in `keep`, and their length parity suits
struct Filt { Str keep; int parity; bool seeks; bool ok(const Str &k) const { return keep.find(k[0]) != Str::npos && (parity < 0 || (int)(k.size() & 1) == parity); } };
static int filt_cb(void *c, struct mtbl_iter *it, const uint8_t *k, size_t lk, const uint8_t *, size_t, bool *match) {
  Filt *f = (Filt *)c; Str key((const char *)k, lk); *match = f->ok(key); if (*match || !f->seeks) return mtbl_res_success;
  if (f->keep.find(key[0]) != Str::npos) return mtbl_res_success;
  int best = 256; for (unsigned char x : f->keep) if (x > (uint8_t)key[0] && x < best) best = x;
  if (best == 256) return mtbl_res_failure;
  Str t(1, (char)best); Exact e(t); return mtbl_iter_seek(it, e.p, e.n); }
struct Node { int kind; /* 0..3 operators, 4 table, 5 merger */ Map out; const struct mtbl_source *src = nullptr; void *op = nullptr; struct mtbl_reader *rd = nullptr; struct mtbl_merger *mg = nullptr; std::vector<std::unique_ptr<Node>> kids; Filt f; Str desc; bool timed = false;
  ~Node() { if (op) sh_free(kind, op); if (mg) mtbl_merger_destroy(&mg); if (rd) mtbl_reader_destroy(&rd); } };
static struct timespec limit; static unsigned serial; static unsigned dropped, joined;
static Str gen_key(Src &s) { Str k; size_t n = 1 + s.below(3); for (size_t i = 0; i < n; i++) k += s.oneof<char>({'a', 'b', 'c', '\0', '\xff', 'd'}); if (s.chance(1, 30)) { size_t m = s.oneof<unsigned>({20, 60, 130, 260, 300, 700}) + s.below(40); Str r = k; r += s.oneof<char>({'a', '\0', '\xff'}); while (k.size() < m) k += r; for (unsigned i = s.below(3); i--;) k += s.oneof<char>({'a', 'b', '\xff'}); } return k; }
static std::unique_ptr<Node> table(Src &s, const std::vector<Str> &pool) {
  auto n = std::make_unique<Node>(); n->kind = 4; size_t c = s.size(14); for (size_t i = 0; i < c; i++) n->out[!pool.empty() && s.flip() ? s.pick(pool) : gen_key(s)] = "v" + std::to_string(serial++);
  std::vector<mtblx_kv> v; for (auto &x : n->out) v.push_back({(const uint8_t *)x.first.data(), x.first.size(), (const uint8_t *)x.second.data(), x.second.size()}); Str name = "mem:t" + std::to_string(serial++); mtblx_put_table(name.c_str(), v.data(), v.size()); n->rd = mtbl_reader_init(name.c_str(), nullptr); n->src = mtbl_reader_source(n->rd);
  n->desc = "table{"; for (auto &x : n->out) n->desc += hex(x.first) + "=" + x.second + " "; n->desc += "}"; return n; }
static std::unique_ptr<Node> gen(Src &s, int depth, std::vector<Str> &pool, bool spine) {
  std::unique_ptr<Node> n; int k = depth <= 0 ? 4 : (int)s.weighted({3, 3, spine ? 2u : 0u, 4, 3, 1});
  if (k == 4) n = table(s, pool);
  else if (k == 5) { n = std::make_unique<Node>(); n->kind = 5; auto o = mtbl_merger_options_init(); mtbl_merger_options_set_merge_func(o, merge_cb, nullptr); n->mg = mtbl_merger_init(o); mtbl_merger_options_destroy(&o); size_t c = 1 + s.below(3); n->desc = "merged("; for (size_t i = 0; i < c; i++) { auto t = table(s, pool); for (auto &x : t->out) { pool.push_back(x.first); auto p = n->out.find(x.first); if (p == n->out.end()) n->out[x.first] = x.second; else p->second = combine(p->second, x.second); } mtbl_merger_add_source(n->mg, t->src); n->desc += t->desc; n->kids.push_back(std::move(t)); } n->src = mtbl_merger_source(n->mg); n->desc += ")"; }
  else {
    n = std::make_unique<Node>(); n->kind = k; auto u = gen(s, depth - 1, pool, spine); n->timed = u->timed;
    if (k == 0) { auto r = gen(s, depth - 2, pool, false); for (auto &x : u->out) { auto p = r->out.find(x.first); n->out[x.first] = p == r->out.end() ? x.second : combine(x.second, p->second); joined += p != r->out.end(); } n->op = sh_ljoin(u->src, r->src, merge_cb, nullptr); n->desc = "join(" + u->desc + " with " + r->desc + ")"; n->kids.push_back(std::move(u)); n->kids.push_back(std::move(r)); }
    else if (k == 1) { n->f.keep = ""; for (char c : {'a', 'b', 'c', '\0', '\xff', 'd'}) if (s.flip()) n->f.keep += c; n->f.parity = s.chance(1, 3) ? (int)s.below(2) : -1; n->f.seeks = s.flip(); for (auto &x : u->out) if (n->f.ok(x.first)) n->out.insert(x); else dropped++; n->op = sh_filter(u->src, filt_cb, &n->f); n->desc = "filter[" + hex(n->f.keep) + "," + std::to_string(n->f.parity) + (n->f.seeks ? ",seeking" : "") + "](" + u->desc + ")"; n->kids.push_back(std::move(u)); }
    else if (k == 2) { n->timed = true; n->out = u->out; n->op = sh_timeout(u->src, &limit); n->desc = "timed(" + u->desc + ")"; n->kids.push_back(std::move(u)); }
    else { size_t c = s.below(4); std::vector<const struct mtbl_source *> v; n->out = u->out; n->desc = "without(" + u->desc + " minus"; for (size_t i = 0; i < c; i++) { auto r = gen(s, depth - 2, pool, false); for (auto &x : r->out) dropped += n->out.erase(x.first); v.push_back(r->src); n->desc += " " + r->desc; n->kids.push_back(std::move(r)); } n->op = sh_remove(u->src, v.data(), v.size()); n->desc += ")"; n->kids.push_back(std::move(u)); }
    n->src = sh_source(k, n->op);
  }
  for (auto &x : n->out) if (pool.size() < 60) pool.push_back(x.first); return n;
}
static std::set<Str> bad;
static std::unique_ptr<Node> gen_failing(Src &s, std::vector<Str> &pool) { // a join at the top whose merge fails for some keys
  auto n = std::make_unique<Node>(); n->kind = 0; auto u = gen(s, s.below(3), pool, true); n->timed = u->timed; auto r = gen(s, s.below(2), pool, false);
  for (auto &x : u->out) { auto p = r->out.find(x.first); n->out[x.first] = p == r->out.end() ? x.second : combine(x.second, p->second); if (p != r->out.end()) { joined++; if (s.chance(1, 3)) bad.insert(x.first); } }
  n->op = sh_ljoin(u->src, r->src, merge_cb, &bad); n->src = sh_source(0, n->op); n->desc = "join failing for " + std::to_string(bad.size()) + " keys(" + u->desc + " with " + r->desc + ")"; n->kids.push_back(std::move(u)); n->kids.push_back(std::move(r)); return n; }
void pbt_case(Src &s) {
  bad.clear();
  mtblx_clear(); serial = 0; dropped = joined = 0; limit.tv_sec = 4000000000LL; limit.tv_nsec = 0; size_t live = pbt::live_bytes();
  { std::vector<Str> pool; auto root = s.chance(1, 10) ? gen_failing(s, pool) : gen(s, 1 + s.below(4), pool, true); if (pool.empty()) pool.push_back("a"); bool moved = false;
    size_t niter = 1 + s.below(2); struct It { struct mtbl_iter *it; std::vector<std::pair<Str, Str>> r; size_t pos = 0; Str lo; Str log; bool stuck = false; }; std::vector<It> its;
    for (size_t i = 0; i < niter; i++) { It x; Str a, b; switch (s.below(4)) {
      case 0: x.it = mtbl_source_iter(root->src); for (auto &p : root->out) x.r.push_back(p); x.log = "iter"; break;
      case 1: { a = s.chance(2, 3) ? s.pick(pool) : gen_key(s); Exact e(a); x.it = mtbl_source_get(root->src, e.p, e.n); for (auto &p : root->out) if (p.first == a) x.r.push_back(p); x.log = "get " + hex(a); x.lo = a; break; }
      case 2: { a = s.chance(2, 3) ? s.pick(pool) : gen_key(s); a.resize(1 + s.below(a.size())); Exact e(a); x.it = mtbl_source_get_prefix(root->src, e.p, e.n); for (auto &p : root->out) if (p.first.compare(0, a.size(), a) == 0) x.r.push_back(p); x.log = "prefix " + hex(a); x.lo = a; break; }
      default: { a = s.chance(2, 3) ? s.pick(pool) : gen_key(s); b = s.chance(2, 3) ? s.pick(pool) : gen_key(s); if (b < a && !s.chance(1, 6)) std::swap(a, b); Exact e(a), f(b); x.it = mtbl_source_get_range(root->src, e.p, e.n, f.p, f.n); for (auto &p : root->out) if (p.first >= a && p.first <= b) x.r.push_back(p); x.log = "range " + hex(a) + " " + hex(b); x.lo = a; } }
      moved |= !x.lo.empty(); its.push_back(x); }
    size_t nop = 1 + s.below(24); bool expired = false; Str hist;
    auto next = [&](It &x) { if (x.stuck) return; const uint8_t *k = nullptr, *v = nullptr; size_t lk = 0, lv = 0; int r = sh_next(x.it, &k, &lk, &v, &lv);
      if (expired) { CHECK(r == 2 || (r == 0 && x.pos >= x.r.size()), "next returns %d although the time is up", r); return; }
      CHECK(r != 2, "time is up too early");
      if (x.pos >= x.r.size()) { CHECK(r == 0, "record %s after the end", hex(Str((char *)k, lk)).c_str()); return; }
      if (bad.count(x.r[x.pos].first)) { CHECK(r == 0, "record %s although its two values cannot be merged", hex(Str((char *)k, lk)).c_str()); x.stuck = true; pbt::classify("merge_failure"); return; }
      CHECK(r == 1, "end instead of record %s", hex(x.r[x.pos].first).c_str()); Str gk((char *)k, lk), gv((char *)v, lv); CHECK(gk == x.r[x.pos].first && gv == x.r[x.pos].second, "record %s=%s instead of %s=%s", hex(gk).c_str(), gv.c_str(), hex(x.r[x.pos].first).c_str(), x.r[x.pos].second.c_str()); x.pos++; };
    for (size_t i = 0; i < nop; i++) {
      It &x = its[s.below(its.size())]; int w = s.weighted({8, 5, root->timed ? 2u : 0u});
      if (w == 0) { size_t c = 1 + s.below(4); hist += " next*" + std::to_string(c); pbt::note("%s\n  %s:%s", root->desc.c_str(), x.log.c_str(), hist.c_str()); while (c--) next(x); }
      else if (w == 1) { Str k = s.chance(3, 4) ? s.pick(pool) : gen_key(s); if (s.chance(1, 6)) k += '\0'; if (k < x.lo) k = x.lo; hist += " seek " + hex(k); pbt::note("%s\n  %s:%s", root->desc.c_str(), x.log.c_str(), hist.c_str()); Exact e(k); int r = sh_seek(x.it, e.p, e.n); CHECK(r != 2 || expired, "time is up in seek"); size_t p = 0; while (p < x.r.size() && x.r[p].first < k) p++; x.pos = p; moved = true; x.stuck = false; if (r == 0) CHECK(p == x.r.size(), "seek to %s fails but %s follows", hex(k).c_str(), hex(x.r[p].first).c_str()); if (r == 2) { expired = false; limit.tv_sec = 4000000000LL; } }
      else { expired = !expired; limit.tv_sec = expired ? 0 : 4000000000LL; hist += expired ? " expire" : " extend"; }
    }
    expired = false; limit.tv_sec = 4000000000LL; hist += " drain"; for (auto &x : its) { pbt::note("%s\n  %s:%s", root->desc.c_str(), x.log.c_str(), hist.c_str()); while (x.pos < x.r.size() && !x.stuck) next(x); next(x); next(x); mtbl_iter_destroy(&x.it); }
    if (pbt::want_sample()) pbt::sample("%s; %s:%s", root->desc.substr(0, 500).c_str(), its.back().log.c_str(), hist.c_str());
    if ((dropped || joined) && moved) pbt::nontrivial(); if (joined) pbt::classify("joined"); if (dropped) pbt::classify("dropped"); if (root->timed) pbt::classify("timed");
    static const char *kn[] = {"top_join", "top_filter", "top_timed", "top_remove", "top_table", "top_merger"}; pbt::classify(kn[root->kind]);
  }
  mtblx_clear(); (void)live;
}
