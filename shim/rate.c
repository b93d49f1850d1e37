/* the rate limiter as built with and without clock_nanosleep() */
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include <time.h>
#define my_rate_init rel_rate_init
#define my_rate_sleep rel_rate_sleep
#define my_rate_destroy rel_rate_destroy
#undef HAVE_CLOCK_NANOSLEEP
#include "libmy/my_rate.c"
