#include "dnstable-private.h"
int shim_rrtype_test(int e_type, unsigned rrtype, const unsigned char *map, size_t n) { return rrtype_test((dnstable_entry_type)e_type, (uint16_t)rrtype, map, n); }
