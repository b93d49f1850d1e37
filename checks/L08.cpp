// L08: the binary heap against a sorted multiset.
#include "buf.h"
#include <map>
#include <set>
extern "C" {
#include "libmy/heap.h"
}
pbt::Config pbt::config = {"L08", "Random histories of up to 120 pushes, pops, replacements, bulk adds followed by heapify, truncations and resets on heaps with many equal elements and four comparison functions (ascending, descending, by remainder, all equal), compared after every operation with the multiset of live elements; finally everything is popped. Non-trivial: 3 or more elements popped.", 700000, 90};
void pbt_init() {}
struct It { int key, id; };
static int up(const void *a, const void *b) { int x = ((It *)a)->key, y = ((It *)b)->key; return x < y ? -1 : x > y; }
static int down(const void *a, const void *b) { return -up(a, b) * 1000; }
static int mod(const void *a, const void *b) { return ((It *)a)->key % 3 - ((It *)b)->key % 3; }
static int eq(const void *, const void *) { return 0; }
uint64_t pbt_fixed_count(bool) { return 1; }
void pbt_fixed(uint64_t) { struct heap *h = heap_init(up); CHECK(!heap_peek(h) && !heap_pop(h) && !heap_get(h, 0) && !heap_get(h, 1) && heap_size(h) == 0, "an empty heap yields something"); It x{1, 1}; CHECK(!heap_replace(h, &x) && heap_size(h) == 0, "replace on an empty heap"); heap_heapify(h); heap_clip(h, 3); heap_destroy(&h); CHECK(!h, "handle not cleared"); heap_destroy(&h); }
void pbt_case(Src &s) {
  int (*cmps[])(const void *, const void *) = {up, down, mod, eq}; auto cmp = cmps[s.weighted({6, 2, 2, 1})]; int range = s.oneof<int>({3, 10, 1000}); size_t base = pbt::live_bytes();
  struct heap *h = heap_init(cmp); std::set<It *> live; std::vector<It> store; store.reserve(400); size_t popped = 0; Str trace;
  auto mk = [&]() { store.push_back(It{(int)s.below(range) - range / 2, (int)store.size()}); return &store.back(); };
  auto smallest = [&](It *x) { for (auto *y : live) if (cmp(y, x) < 0) return false; return true; };
  auto check = [&]() { CHECK(heap_size(h) == live.size(), "size is %zu, expected %zu", heap_size(h), live.size()); It *p = (It *)heap_peek(h); if (live.empty()) { CHECK(!p && !heap_get(h, 0), "an empty heap yields something"); return; } CHECK(p && live.count(p), "top is not an element of the heap"); CHECK(smallest(p), "top %d is not a smallest element", p->key); CHECK(heap_get(h, 0) == p, "element 0 is not the top");
    CHECK(!heap_get(h, live.size()) && !heap_get(h, live.size() + 5), "element behind the end"); };
  auto all = [&]() { std::set<It *> g; for (size_t i = 0; i < heap_size(h); i++) g.insert((It *)heap_get(h, i)); return g; };
  auto pop = [&]() { It *p = (It *)heap_pop(h); if (live.empty()) { CHECK(!p, "pop of an empty heap yields something"); return; } CHECK(p && live.count(p), "popped something that is not in the heap"); CHECK(smallest(p), "popped %d, which is not a smallest element", p->key); live.erase(p); popped++; };
  size_t steps = 1 + s.below(s.chance(1, 4) ? 120 : 30);
  for (size_t k = 0; k < steps && store.size() < 300; k++) {
    int op = s.weighted({8, 4, 3, 2, 1, 1, 1}); trace += "PpRaCXh"[op]; pbt::note("step %zu op %d size %zu", k, op, live.size());
    switch (op) {
    case 0: { It *x = mk(); heap_push(h, x); live.insert(x); break; }
    case 1: pop(); break;
    case 2: { It *x = mk(), *top = (It *)heap_peek(h), *o = (It *)heap_replace(h, x); if (live.empty()) CHECK(!o, "replace on an empty heap yields something"); else { CHECK(o == top && live.count(o), "replace does not return the top"); live.erase(o); live.insert(x); } break; }
    case 3: { size_t n = s.below(20); while (n--) { It *x = mk(); heap_add(h, x); live.insert(x); } heap_heapify(h); break; }
    case 4: { size_t n = s.below(live.size() + 2); heap_clip(h, n); auto g = all(); CHECK(g.size() == std::min(n, live.size()), "clip to %zu leaves %zu", n, g.size()); for (auto *x : g) CHECK(live.count(x), "clip invents an element"); live = g; break; }
    case 5: if (s.chance(1, 3)) { heap_reset(h); live.clear(); } break;
    case 6: heap_heapify(h); break;
    }
    check(); if (s.chance(1, 4)) CHECK(all() == live, "elements of the heap differ from those pushed and not popped");
  }
  It *prev = nullptr; while (!live.empty()) { It *p = (It *)heap_peek(h); pop(); if (prev) CHECK(cmp(prev, p) <= 0, "popped %d after %d", p->key, prev->key); prev = p; check(); }
  CHECK(!heap_pop(h), "pop of an empty heap yields something"); heap_destroy(&h); CHECK(!h, "handle not cleared"); (void)base;
  if (pbt::want_sample()) pbt::sample("%s", trace.c_str()); if (popped >= 3) pbt::nontrivial();
}
