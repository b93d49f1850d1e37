// L12: list and tree macros.
#include "buf.h"
#include <list>
#include <map>
extern "C" {
struct elt; struct node;
void list_init(int); struct elt *list_new(int); int list_linked(struct elt *); int list_id(struct elt *); struct elt *list_get(int, int, struct elt *); int list_empty(int); void list_op(int, int, struct elt *, struct elt *, int);
void tree_init(void); struct node *node_new(int); int node_key(struct node *); struct node *rb_op(int, struct node *); int rb_empty(void); size_t rb_walk(int, int *, size_t); const char *rb_check(void); struct node *sp_op(int, struct node *); int sp_empty(void); size_t sp_walk(int *, size_t);
}
pbt::Config pbt::config = {"L12", "Random histories of up to 120 operations: on three lists (prepend, append, insert before/after, unlink, enqueue/dequeue, concatenate) compared by forward and backward walks with std::list, and on a red-black and a splay tree over a small or large key range (insert with duplicates, remove, find, nearest-greater, min, max, next, previous, both walks) compared with std::map, with the red-black colour, depth and parent-link rules checked after each step. Non-trivial: 5 or more elements alive at once.", 500000, 90};
void pbt_init() {}
static void lists(Src &s) {
  std::vector<struct elt *> m[3], freev; for (int i = 0; i < 3; i++) list_init(i); int id = 0; size_t most = 0; Str trace;
  auto check = [&](int l) { std::vector<struct elt *> f, b; CHECK(list_empty(l) == m[l].empty(), "empty is %d", list_empty(l)); for (auto *e = list_get(l, 0, nullptr); e && f.size() <= m[l].size(); e = list_get(l, 2, e)) f.push_back(e); for (auto *e = list_get(l, 1, nullptr); e && b.size() <= m[l].size(); e = list_get(l, 3, e)) b.push_back(e); std::reverse(b.begin(), b.end()); CHECK(f == m[l], "list %d: forward walk differs (%zu elements, expected %zu)", l, f.size(), m[l].size()); CHECK(b == m[l], "list %d: backward walk differs (%zu elements, expected %zu)", l, b.size(), m[l].size()); };
  size_t steps = 1 + s.below(s.chance(1, 3) ? 120 : 30);
  for (size_t k = 0; k < steps; k++) {
    int l = s.below(3), op = s.weighted({3, 4, 4, 4, 4, 1, 2, 2, 1, 1}); auto &v = m[l]; struct elt *e = nullptr; if (op == 2 || op == 7) { if (v.empty()) continue; } else if (op != 5) { if (!freev.empty() && s.flip()) { e = freev.back(); freev.pop_back(); } else e = list_new(id++); CHECK(!list_linked(e), "fresh or unlinked element claims to be linked"); }
    trace += "PAUbaCEDpq"[op]; pbt::note("step %zu list %d op %d size %zu", k, l, op, v.size());
    switch (op) {
    case 0: case 8: list_op(l, op, e, nullptr, 0); v.insert(v.begin(), e); break;
    case 1: case 6: case 9: list_op(l, op, e, nullptr, 0); v.push_back(e); break;
    case 2: { size_t i = s.below(v.size()); e = v[i]; CHECK(list_linked(e), "element of a list claims not to be linked"); list_op(l, 2, e, nullptr, 0); v.erase(v.begin() + i); freev.push_back(e); break; }
    case 7: { e = list_get(l, 0, nullptr); CHECK(e == v[0], "wrong head"); list_op(l, 7, e, nullptr, 0); v.erase(v.begin()); freev.push_back(e); break; }
    case 3: case 4: if (v.empty()) { list_op(l, 1, e, nullptr, 0); v.push_back(e); } else { size_t i = s.below(v.size()); list_op(l, op, e, v[i], 0); v.insert(v.begin() + i + (op == 4), e); } break;
    case 5: { int l2 = (l + 1 + s.below(2)) % 3; list_op(l, 5, nullptr, nullptr, l2); v.insert(v.end(), m[l2].begin(), m[l2].end()); m[l2].clear(); check(l2); break; }
    }
    check(l); most = std::max(most, v.size());
  }
  for (int i = 0; i < 3; i++) { check(i); for (auto *e : m[i]) free(e); } for (auto *e : freev) free(e);
  if (most >= 5) pbt::nontrivial(); pbt::classify("list_histories"); if (pbt::want_sample()) pbt::sample("lists: %s", trace.c_str());
}
static void trees(Src &s, bool rb) {
  tree_init(); std::map<int, struct node *> m; int range = s.oneof<int>({8, 30, 200, 100000}); auto op = [&](int o, struct node *n) { return rb ? rb_op(o, n) : sp_op(o, n); }; size_t most = 0; Str trace; int dir = s.below(3), seq = 0;
  struct node *probe = node_new(0); int *pk = (int *)probe;
  auto name = [&](struct node *n) { return n ? std::to_string(node_key(n)) : Str("nothing"); };
  auto walk = [&]() { std::vector<int> w, k; for (auto &p : m) k.push_back(p.first); w.resize(k.size() + 2); for (int rev = 0; rev < (rb ? 2 : 1); rev++) { size_t n = rb ? rb_walk(rev, w.data(), w.size()) : sp_walk(w.data(), w.size()); if (rev) std::reverse(k.begin(), k.end()); CHECK(n == k.size() && std::equal(k.begin(), k.end(), w.begin()), "%s walk visits %zu elements, expected %zu, or in another order", rev ? "backward" : "forward", n, k.size()); } };
  size_t steps = 1 + s.below(s.chance(1, 3) ? 120 : 40);
  for (size_t k = 0; k < steps; k++) {
    int o = s.weighted({9, 5, 3, 3, 2, 2, 1, 1, 1}), key = dir == 0 ? (int)s.below(range) - range / 2 : dir == 1 ? seq++ : -seq++; if (o != 0 && !m.empty() && s.chance(2, 3)) { auto it = m.begin(); std::advance(it, s.below(m.size())); key = it->first; }
    *pk = key; pbt::note("step %zu op %d key %d size %zu", k, o, key, m.size()); trace += "IRFGnpmMw"[o];
    auto it = m.find(key); struct node *want = it == m.end() ? nullptr : it->second, *got;
    switch (o) {
    case 0: { struct node *n = node_new(key); got = op(0, n); CHECK(got == want, "insert of %d returns %s", key, name(got).c_str()); if (want) free(n); else m[key] = n; break; }
    case 1: if (want) { got = op(1, want); CHECK(got == want, "remove of %d returns %s", key, name(got).c_str()); m.erase(it); free(want); } else if (!rb) { got = op(1, probe); CHECK(!got, "remove of an absent key returns something"); } break;
    case 2: got = op(2, probe); CHECK(got == want, "find of %d gives %s", key, name(got).c_str()); break;
    case 3: if (rb) { auto lb = m.lower_bound(key); struct node *w = lb == m.end() ? nullptr : lb->second; got = op(3, probe); CHECK(got == w, "nearest-greater of %d gives %s, expected %s", key, name(got).c_str(), name(w).c_str()); } break;
    case 4: if (want) { auto nx = std::next(it); struct node *w = nx == m.end() ? nullptr : nx->second; got = op(4, want); CHECK(got == w, "next of %d gives %s, expected %s", key, name(got).c_str(), name(w).c_str()); } break;
    case 5: if (want && rb) { struct node *w = it == m.begin() ? nullptr : std::prev(it)->second; got = op(5, want); CHECK(got == w, "previous of %d gives %s, expected %s", key, name(got).c_str(), name(w).c_str()); } break;
    case 6: { struct node *w = m.empty() ? nullptr : m.begin()->second; got = op(6, nullptr); CHECK(got == w, "min is %s, expected %s", name(got).c_str(), name(w).c_str()); break; }
    case 7: { struct node *w = m.empty() ? nullptr : m.rbegin()->second; got = op(7, nullptr); CHECK(got == w, "max is %s, expected %s", name(got).c_str(), name(w).c_str()); break; }
    case 8: walk(); break;
    }
    if (rb) { const char *e = rb_check(); CHECK(!e, "red-black rule broken: %s", e); CHECK(rb_empty() == m.empty(), "empty is %d", rb_empty()); } else CHECK(sp_empty() == m.empty(), "empty is %d", sp_empty());
    most = std::max(most, m.size());
  }
  walk(); // take everything out again in random order
  if (s.flip()) while (!m.empty()) { auto it = m.begin(); std::advance(it, s.below(m.size())); struct node *n = it->second; CHECK(op(1, n) == n, "remove of %d fails", it->first); m.erase(it); free(n); if (rb) { const char *e = rb_check(); CHECK(!e, "red-black rule broken: %s", e); } } walk();
  for (auto &p : m) free(p.second); free(probe); if (most >= 5) pbt::nontrivial(); pbt::classify(rb ? "red_black_histories" : "splay_histories"); if (pbt::want_sample()) pbt::sample("%s: %s", rb ? "red-black" : "splay", trace.c_str());
}
uint64_t pbt_fixed_count(bool) { return 40320 * 2; }
void pbt_fixed(uint64_t i) { // every order of removal of 8 nodes
  bool rb = i % 2; i /= 2; tree_init(); std::vector<int> order = {0, 1, 2, 3, 4, 5, 6, 7}; uint64_t x = i; for (int k = 0; k < 8; k++) { int j = k + x % (8 - k); x /= 8 - k; std::swap(order[k], order[j]); }
  struct node *n[8]; for (int k = 0; k < 8; k++) { n[k] = node_new(k); if (rb) rb_op(0, n[k]); else sp_op(0, n[k]); if (rb) CHECK(!rb_check(), "red-black rule broken: %s", rb_check()); }
  std::vector<int> left = {0, 1, 2, 3, 4, 5, 6, 7}; for (int k : order) { CHECK((rb ? rb_op(1, n[k]) : sp_op(1, n[k])) == n[k], "remove"); left.erase(std::find(left.begin(), left.end(), k)); int w[10]; size_t c = rb ? rb_walk(0, w, 10) : sp_walk(w, 10); CHECK(c == left.size() && std::equal(left.begin(), left.end(), w), "walk after removal"); if (rb) CHECK(!rb_check(), "red-black rule broken: %s", rb_check()); free(n[k]); }
}
void pbt_case(Src &s) { switch (s.weighted({2, 3, 2})) { case 0: lists(s); break; case 1: trees(s, true); break; default: trees(s, false); } }
