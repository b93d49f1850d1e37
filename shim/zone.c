/* zone files through libldns: records as wire format */
#include <string.h>
#include <strings.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
/* reading fails with EIO after zf_fail_at octets, if that is not negative */
long zf_fail_at = -1; int zf_hooked;
struct src { FILE *f; long left; };
static ssize_t src_read(void *c, char *b, size_t n) { struct src *s = c; if (s->left == 0) { errno = EIO; return -1; } if ((long)n > s->left) n = s->left; size_t k = fread(b, 1, n, s->f); s->left -= k; return k; }
static int src_close(void *c) { struct src *s = c; fclose(s->f); free(s); return 0; }
static FILE *zf_fopen(const char *p, const char *m) { FILE *f = fopen(p, m); if (!f || zf_fail_at < 0) return f; struct src *s = malloc(sizeof *s); s->f = f; s->left = zf_fail_at; zf_hooked = 1; cookie_io_functions_t io = {src_read, NULL, NULL, src_close}; return fopencookie(s, m, io); }
#define fopen zf_fopen
#include "libmy/zonefile.c"
void *zf_open(const char *f) { return zonefile_init_fname(f); }
void zf_close(void *z) { struct zonefile *p = z; zonefile_destroy(&p); if (p) abort(); }
size_t zf_count(void *z) { return zonefile_get_count(z); }
uint32_t zf_serial(void *z) { return zonefile_get_serial(z); }
size_t zf_domain(void *z, uint8_t *b, size_t n) { const ldns_rdf *d = zonefile_get_domain(z); size_t k = d ? ldns_rdf_size(d) : 0; if (k > n) abort(); if (d) memcpy(b, ldns_rdf_data(d), k); return k; }
/* -1: error; 0: no record; otherwise the length of the record */
long zf_read(void *z, uint8_t *b, size_t n) {
	ldns_rr *rr = (ldns_rr *)1; ldns_status st = zonefile_read(z, &rr);
	if (st != LDNS_STATUS_OK) return -1;
	if (!rr) return 0;
	uint8_t *w = NULL; size_t k = 0;
	if (ldns_rr2wire(&w, rr, LDNS_SECTION_ANSWER, &k) != LDNS_STATUS_OK) k = 0;
	ldns_rr_free(rr);
	if (!k || k > n) { free(w); return -2; }
	memcpy(b, w, k); free(w); return (long)k;
}
