// L09: the single-producer single-consumer queue.
#include "buf.h"
#include <deque>
#include <atomic>
#include <pthread.h>
#include <sched.h>
extern "C" {
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
void *pq_memcpy(void *, const void *, size_t); int pq_lock(pthread_mutex_t *); int pq_unlock(pthread_mutex_t *);
}
pbt::Config pbt::config = {"L09", "Both implementations and the selected one, capacities 2-256 (sometimes 4096), items of 1-200 octets: (a) random single-threaded histories against a bounded deque; (b) the same with the other side's operations run, by a hook, in the middle of an insert or remove, before and after the item is copied and around the lock, and at memory accesses (deterministic interleavings); (c) two real threads with random pauses, items carrying a sequence number and checksum. Non-trivial: the queue was full or an operation was interleaved.", 300000, 100, 240, true};
static void sel_ops();
static const my_queue_ops *O; static my_queue_ops SEL;
void pbt_init() { sel_ops(); }
static void sel_ops() { SEL.init = my_queue_init; SEL.destroy = my_queue_destroy; SEL.impl_type = my_queue_impl_type; SEL.insert = my_queue_insert; SEL.remove = my_queue_remove; }
// --- interleaving hooks
static thread_local int held; static thread_local bool inside; static std::function<void(int)> *hook; static thread_local bool hooked;
static void point(int where) { if (hooked && hook && !held && !inside) { inside = true; (*hook)(where); inside = false; } }
void *pq_memcpy(void *d, const void *s, size_t n) { if (!hooked) return memcpy(d, s, n); point(0); size_t h = n / 2; memcpy(d, s, h); point(1); memcpy((char *)d + h, (const char *)s + h, n - h); point(2); return d; }
int pq_lock(pthread_mutex_t *m) { point(3); int r = pthread_mutex_lock(m); held++; return r; }
int pq_unlock(pthread_mutex_t *m) { held--; int r = pthread_mutex_unlock(m); point(4); return r; }
// the implementations are compiled with a callback at every load and store: the other side also runs at some of those
static unsigned gap, wait_for; static Src *gsrc;
static void access() { if (!hooked || held || inside || !gap) return; if (wait_for) { wait_for--; return; } wait_for = gsrc->below(gap); point(5); }
extern "C" {
#define CB(n) void __sanitizer_cov_##n(void *) { access(); }
CB(load1) CB(load2) CB(load4) CB(load8) CB(load16) CB(store1) CB(store2) CB(store4) CB(store8) CB(store16)
void __sanitizer_cov_trace_pc(void) {}
}
static void fill(Str &b, uint64_t n) { for (size_t i = 0; i < b.size(); i++) b[i] = (char)(n >> (i % 4 * 8) ^ i / 4 * 37); }
uint64_t pbt_fixed_count(bool) { return 700; }
void pbt_fixed(uint64_t i) { // capacities that are no power of two are refused
  for (auto *o : {&my_queue_mb_ops, &my_queue_mutex_ops, (const my_queue_ops *)&SEL}) { struct my_queue *q = o->init(i, 4); bool ok = i >= 2 && !(i & (i - 1)); CHECK(!!q == ok, "queue of %d entries: %s", (int)i, q ? "made" : "refused"); if (q) { unsigned n = 0, sp = 0; uint32_t v = 7; while (o->insert(q, &v, &sp)) n++; CHECK(n >= i / 2 && n <= i, "queue of %d entries holds %u", (int)i, n); o->destroy(&q); CHECK(!q, "handle not cleared"); o->destroy(&q); } } pbt::nontrivial(); }
struct Sh { struct my_queue *q; uint64_t n; size_t es; uint64_t seed; Str err; unsigned cap; };
static uint64_t rnd(uint64_t &x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static void pause_(uint64_t &x, unsigned mode) { uint64_t r = rnd(x); if (mode == 0) return; if (r % 64 == 0) sched_yield(); else if (mode == 2) for (volatile unsigned k = 0; k < r % 200; k++) ; }
static void *producer(void *a) { Sh *h = (Sh *)a; uint64_t x = h->seed * 2 + 1; unsigned mode = h->seed % 3; Str b(h->es, 0); for (uint64_t i = 0; i < h->n; i++) { fill(b, i); unsigned sp = 0; while (!O->insert(h->q, &b[0], &sp)) { if (sp != 0) { h->err = "refused insert reports space"; return nullptr; } sched_yield(); } if (sp >= h->cap) { h->err = "reported space exceeds the capacity"; return nullptr; } Str z(h->es, (char)i); b.swap(z); pause_(x, mode); } return nullptr; }
void pbt_case(Src &s) {
  int impl = s.below(3); O = impl == 0 ? &my_queue_mb_ops : impl == 1 ? &my_queue_mutex_ops : &SEL; unsigned cap = 2u << s.weighted({4, 4, 3, 2, 1, 1, 1, 1}); bool huge = s.chance(1, 500); if (huge) cap = s.oneof<unsigned>({1024, 4096}); size_t es = huge || s.chance(1, 4) ? 1 + s.below(200) : s.oneof<size_t>({1, 2, 4, 8, 12}); pbt::classify(impl == 0 ? "memory_barrier" : impl == 1 ? "mutex" : "selected");
  struct my_queue *q = O->init(cap, es); CHECK(q, "no queue"); CHECK(Str(O->impl_type()).size() > 0, "no type"); uint64_t next = 0; std::deque<uint64_t> m; Str trace; hook = nullptr; hooked = false; unsigned maxn = 0; { // usable capacity: what a fresh queue takes
    Str b(es, 'x'); unsigned sp; while (O->insert(q, &b[0], &sp)) maxn++; CHECK(maxn == cap - 1, "a queue of %u entries takes %u items", cap, maxn); Exact o(es); unsigned c; for (unsigned i = 0; i < maxn; i++) { CHECK(O->remove(q, o.p, &c) && c == maxn - 1 - i, "emptying"); } }
  int kind = s.chance(1, 400) ? 2 : s.below(2);
  if (kind == 2) { // threads
    Sh h{q, 2000 + s.below(6000), es, s.below(0), "", cap}; pthread_t t; uint64_t x = s.below(0) | 1; unsigned mode = s.below(3); if (pthread_create(&t, nullptr, producer, &h)) return; Str want(h.es, 0); uint64_t i = 0; Exact o(es); Str err; time_t t0 = time(nullptr);
    while (i < h.n) { unsigned c = 0; if (!O->remove(q, o.p, &c)) { if (c) { err = "failed remove reports items"; break; } sched_yield(); if (!h.err.empty() || time(nullptr) - t0 > 60) break; continue; } fill(want, i); if (o.str(es) != want) { err = "item " + std::to_string(i) + " differs"; break; } if (c >= cap) { err = "reported count exceeds the capacity"; break; } i++; pause_(x, mode); }
    if (!err.empty()) CHECK(false, "%s (threads, %u entries of %zu octets)", err.c_str(), cap, es); pthread_join(t, nullptr); CHECK(h.err.empty(), "%s", h.err.c_str()); CHECK(i == h.n, "items lost"); unsigned c; CHECK(!O->remove(q, o.p, &c), "more items than were sent"); pbt::classify("threaded_runs"); pbt::nontrivial(); O->destroy(&q); return; }
  bool inter = kind == 1, full = false; unsigned depth = 0;
  // An operation in flight takes effect at some moment between its start and its end; what the other side may see follows from that.
  int flight = 0; bool taken = false; unsigned others = 0; // 1 an insert of item `next`, 2 a remove of m.front() is in the middle; taken: the item in flight was already received
  auto item = [&](uint64_t n) { Str w(es, 0); fill(w, n); return w; };
  auto nested = [&](int where) {
    unsigned k = s.below(4); if (k == 3) k = maxn + 2; if (k) { pbt::nontrivial(); pbt::classify("interleaved_operations"); }
    while (k--) if (flight == 1) { // the consumer runs while the producer is inserting
        Exact o(es); unsigned c = 99; bool r = O->remove(q, o.p, &c); trace += r ? 'r' : '-';
        if (m.empty()) { if (r) { CHECK(!taken, "an item was received twice"); CHECK(o.str(es) == item(next), "an item was received before it was completely sent: %s, expected %s", hex(o.str(es)).c_str(), hex(item(next)).c_str()); CHECK(where >= 2, "an item was received before it was sent"); taken = true; } }
        else { CHECK(r, "%zu items wait but none was received during an insert", m.size()); CHECK(o.str(es) == item(m.front()), "received %s, expected %s during an insert", hex(o.str(es)).c_str(), hex(item(m.front())).c_str()); m.pop_front(); others++; } }
      else { // the producer runs while the consumer is receiving
        Exact e(item(next)); unsigned sp = 99; bool r = O->insert(q, e.p, s.chance(1, 8) ? nullptr : &sp); trace += r ? 'i' : '+';
        if (r) { CHECK(m.size() <= maxn, "insert into a full queue while an item is being received"); m.push_back(next++); others++; } else { CHECK(m.size() >= maxn, "insert refused with %zu of %u items", m.size(), maxn); full = true; } } };
  std::function<void(int)> hf = [&](int w) { if (flight && depth++ < 40) nested(w); };
  size_t steps = 1 + s.below(s.chance(1, 4) ? 200 : 40);
  for (size_t k = 0; k < steps; k++) {
    bool bias = k / 16 % 2; bool doins = s.chance(bias ? 1 : 2, 3), hk = inter && s.flip(); hook = &hf; gsrc = &s; gap = hk ? s.oneof<unsigned>({0, 1, 5, 15, 40}) : 0; wait_for = gap ? s.below(gap) : 0; depth = 0; others = 0; taken = false; trace += doins ? 'I' : 'R'; pbt::note("step %zu %s, %zu waiting of %u", k, doins ? "insert" : "remove", m.size(), maxn);
    bool nul = s.chance(1, 8); size_t B = m.size(); unsigned x = 99; bool r;
    if (doins) {
      Exact e(item(next)); flight = 1; hooked = hk; r = O->insert(q, e.p, nul ? nullptr : &x); hooked = false; flight = 0;
      if (B < maxn) CHECK(r, "insert with %zu of %u items refused", B, maxn); else if (!others) CHECK(!r, "insert into a full queue accepted"); if (taken) CHECK(r, "an insert that was refused was received");
      if (!nul) { if (!others && !taken) CHECK(x == maxn - B - r, "reported space is %u, expected %zu", x, maxn - B - r); else CHECK(x + B + r >= maxn && x <= maxn, "reported space is %u with %zu of %u items", x, B, maxn); }
      if (r) { if (!taken) m.push_back(next); next++; } else full = true;
    } else {
      Exact o(es); flight = 2; hooked = hk; r = O->remove(q, o.p, nul ? nullptr : &x); hooked = false; flight = 0;
      if (B) CHECK(r, "remove with %zu items waiting yields none", B); else if (!others) CHECK(!r, "remove from an empty queue yields an item");
      if (r) { CHECK(o.str(es) == item(m.front()), "received %s, expected %s", hex(o.str(es)).c_str(), hex(item(m.front())).c_str()); m.pop_front(); }
      if (!nul) { if (!others) CHECK(x == m.size(), "reported count is %u, expected %zu", x, m.size()); else CHECK(x <= m.size() && x + 1 >= B, "reported count is %u, between %zu and %zu expected", x, B ? B - 1 : 0, m.size()); }
    }
  }
  while (!m.empty()) { Exact o(es); unsigned c; Str w(es, 0); fill(w, m.front()); CHECK(O->remove(q, o.p, &c) && o.str(es) == w && c == m.size() - 1, "draining: %zu items left", m.size()); m.pop_front(); }
  Exact o(es); unsigned c; CHECK(!O->remove(q, o.p, &c), "more items than were sent"); O->destroy(&q); CHECK(!q, "handle not cleared"); if (full) { pbt::nontrivial(); pbt::classify("queue_full"); } if (pbt::want_sample()) pbt::sample("impl=%d entries=%u size=%zu %s", impl, cap, es, trace.c_str());
}
