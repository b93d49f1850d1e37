#include <assert.h>
#include <stddef.h>
#include "libmy/string_replace.h"
#include "libmy/print_string.h"
#include "libmy/read_bytes.h"
#include "libmy/getenv_int.h"
#include "libmy/my_format.h"
char *shim_replace(const char *a, const char *b, const char *c) { return string_replace(a, b, c); }
void shim_print(const void *p, size_t n, FILE *f) { print_string(p, n, f); }
int shim_read(int fd, unsigned char *b, size_t n) { return read_bytes(fd, b, n); }
int shim_getenv(const char *n, unsigned long long *v) { uint64_t x = 0; int r = getenv_int(n, &x); *v = x; return r; }
size_t shim_hexstr(const unsigned char *s, size_t n, int up, char *d, size_t dn) { return my_bytes_to_hex_str(s, n, up, d, dn); }
size_t shim_hex16(unsigned v, int up, char *d, size_t dn) { return my_uint16_to_hex_str(v, up, d, dn); }
size_t shim_dec(unsigned long long v, char *d, size_t dn, const char **st) { return my_uint64_to_str(v, d, dn, st); }
