/* dnstable_lookup as a function; the program's own main is called in a child process. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
int lookup_main(int, char **);
#define main lookup_main
#include "src/dnstable_lookup.c"
