/* dnstable_dump as a function; the program's own main is called in a child process. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
int dump_main(int, char **);
#define main dump_main
#include "src/dnstable_dump.c"
