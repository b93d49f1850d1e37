/* what ./configure would have found on this system */
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#define HAVE_ENDIAN_H 1
#define HAVE_CLOCK_GETTIME 1
#define HAVE_CLOCK_NANOSLEEP 1
#define HAVE_VISIBILITY 1
#define PACKAGE_VERSION "0"
#define PACKAGE_STRING "dnstable 0"
#define VERSION "0"
#endif
