#include <stddef.h>
#include "libmy/hex_decode.h"
#include "libmy/ip_arith.h"
#include "libmy/my_time.h"
int shim_hex(const char *s, unsigned char **out, size_t *n) { return hex_decode(s, out, n); }
int shim_hexdigit(char c, unsigned char *v) { return hex_to_int(c, v); }
void shim_ip(int op, void *a, unsigned plen, void *out) { switch (op) { case 0: ip4_lower(a, plen, out); break; case 1: ip4_upper(a, plen, out); break; case 2: ip4_incr(a); break; case 3: ip6_lower(a, plen, out); break; case 4: ip6_upper(a, plen, out); break; case 5: ip6_incr(a); break; } }
void shim_ts(int op, const struct timespec *a, struct timespec *b) { if (op == 0) my_timespec_add(a, b); else my_timespec_sub(a, b); }
int shim_ts_cmp(const struct timespec *a, const struct timespec *b) { return my_timespec_cmp(a, b); }
double shim_ts_to_double(const struct timespec *a) { return my_timespec_to_double(a); }
void shim_ts_from_double(double d, struct timespec *a) { my_timespec_from_double(d, a); }
void shim_gettime(int clk, struct timespec *a) { my_gettime(clk, a); }
void shim_nanosleep(const struct timespec *a) { my_nanosleep(a); }
