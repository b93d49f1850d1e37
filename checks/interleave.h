// A deterministic scheduler: real threads of which exactly one runs; at every interleaving point the generated choices
// decide who goes on.  Code under test compiled with -fsanitize-coverage=...,trace-loads,trace-stores has such a point
// at each memory access.
#pragma once
#include "pbt.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <functional>
#include <vector>
namespace sch {
struct T { pthread_t th; sem_t go; std::function<void()> body; bool done = false; };
static std::vector<T *> all; static pbt::Src *src; static bool on; static thread_local int me = -1; static uint64_t steps, maxsteps, switches; static unsigned spread; static uint64_t left; static sem_t finished;
static void hand(int n) { sem_post(&all[n]->go); }
static void wait_() { while (sem_wait(&all[me]->go) && errno == EINTR) {} }
static int choose() { std::vector<int> r; for (size_t i = 0; i < all.size(); i++) if (!all[i]->done) r.push_back(i); if (r.empty()) return -1; return r[src->below(r.size())]; }
static void point(bool must = false) {
  if (!on || me < 0) return; if (++steps > maxsteps) { fprintf(stderr, "PROPERTY FAILURE: no progress after %llu interleaving points\n", (unsigned long long)steps); abort(); }
  if (!must) { if (left) { left--; return; } left = src->below(spread); }
  int n = choose(); if (n < 0 || n == me) return; switches++; hand(n); wait_();
}
static void *run(void *a) { me = (int)(intptr_t)a; wait_(); all[me]->body(); all[me]->done = true; int n = choose(); if (n < 0) sem_post(&finished); else hand(n); return nullptr; }
// runs the bodies to the end under one generated schedule
inline void go(pbt::Src &s, const std::vector<std::function<void()>> &bodies, unsigned scale = 1, uint64_t most = 200000) {
  src = &s; spread = s.oneof<unsigned>({1, 2, 4, 12}) * scale; steps = switches = 0; left = 0; maxsteps = most; sem_init(&finished, 0, 0);
  for (auto &b : bodies) { T *t = new T; t->body = b; sem_init(&t->go, 0, 0); all.push_back(t); }
  for (size_t i = 0; i < all.size(); i++) if (pthread_create(&all[i]->th, nullptr, run, (void *)(intptr_t)i)) abort();
  on = true; int n = choose(); hand(n); while (sem_wait(&finished) && errno == EINTR) {} on = false;
  for (auto t : all) { pthread_join(t->th, nullptr); sem_destroy(&t->go); delete t; } all.clear(); sem_destroy(&finished);
}
}
extern "C" {
#define SCH_CB(n) void __sanitizer_cov_##n(void *) { sch::point(); }
SCH_CB(load1) SCH_CB(load2) SCH_CB(load4) SCH_CB(load8) SCH_CB(load16) SCH_CB(store1) SCH_CB(store2) SCH_CB(store4) SCH_CB(store8) SCH_CB(store16)
void __sanitizer_cov_trace_pc(void) { sch::point(); }
int sch_lock(pthread_mutex_t *m) { sch::point(); while (pthread_mutex_trylock(m)) { if (!sch::on || sch::me < 0) return pthread_mutex_lock(m); sch::point(true); } sch::point(); return 0; }
int sch_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); sch::point(); return r; }
}
