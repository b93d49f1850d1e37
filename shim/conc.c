/* thread numbers and atomics, compiled with a callback at every memory access and call (an interleaving point) */
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
int sch_lock(pthread_mutex_t *); int sch_unlock(pthread_mutex_t *);
#define pthread_mutex_lock sch_lock
#define pthread_mutex_unlock sch_unlock
#include "libmy/threadnum.c"
#include "libmy/atomic.h"
#include "libmy/atomic_64.h"
#include "libmy/atomic_ptr.h"
static atomic_t a32; static atomic64_t a64; static atomic_ptr_t ap;
void shim_reset(long long v, void *p) { atomic_t i = ATOMIC_INIT((int)v); a32 = i; atomic64_t l = ATOMIC64_INIT(v); a64 = l; ap.ptr = p; }
long long shim_value(int w) { return w == 0 ? (long long)atomic_read(&a32) : (long long)atomic64_read(&a64); }
void *shim_ptr(void) { return (void *)ap.ptr; }
long long shim_op(int w, int op, long long x) {
	if (w == 0) switch (op) {
	case 0: atomic_add((int)x, &a32); return 0;
	case 1: atomic_sub((int)x, &a32); return 0;
	case 2: return atomic_zero(&a32);
	case 3: return !!atomic_sub_and_test((int)x, &a32);
	case 4: atomic_inc(&a32); return 0;
	case 5: atomic_dec(&a32); return 0;
	case 6: return !!atomic_dec_and_test(&a32);
	case 7: return !!atomic_inc_and_test(&a32);
	case 8: return !!atomic_add_negative((int)x, &a32);
	case 9: return atomic_read(&a32);
	case 10: atomic_set(&a32, (int)x); return 0;
	}
	else switch (op) {
	case 0: atomic64_add((int)x, &a64); return 0;
	case 1: atomic64_sub((int)x, &a64); return 0;
	case 2: return atomic64_zero(&a64);
	case 3: return !!atomic64_sub_and_test((int)x, &a64);
	case 4: atomic64_inc(&a64); return 0;
	case 5: atomic64_dec(&a64); return 0;
	case 6: return !!atomic64_dec_and_test(&a64);
	case 7: return !!atomic64_inc_and_test(&a64);
	case 8: return !!atomic64_add_negative((int)x, &a64);
	case 9: return atomic64_read(&a64);
	case 10: atomic64_set(&a64, x); return 0;
	}
	return 0;
}
void *shim_pget(void) { return atomic_ptr_get(&ap); }
int shim_pset(void *p) { return atomic_ptr_set(&ap, p); }
void shim_register(void) { my_threadnum_register(); }
int shim_num(void) { return my_threadnum(); }
