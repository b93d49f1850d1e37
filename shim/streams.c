#include <setjmp.h>
#include "dnstable-private.h"
/* the private stream operators, and iterator operations under a setjmp for the time-limited one */
jmp_buf sh_env;
void *sh_ljoin(const struct mtbl_source *l, const struct mtbl_source *r, mtbl_merge_func f, void *c) { return ljoin_mtbl_init(l, r, f, c); }
void *sh_filter(const struct mtbl_source *u, int (*f)(void *, struct mtbl_iter *, const uint8_t *, size_t, const uint8_t *, size_t, bool *), void *c) { return filter_mtbl_init(u, (filter_mtbl_func)(void *)f, c); }
void *sh_timeout(const struct mtbl_source *u, const struct timespec *d) { return timeout_mtbl_init(u, d, &sh_env); }
void *sh_remove(const struct mtbl_source *u, const struct mtbl_source **r, size_t n) { struct remove_mtbl *m = remove_mtbl_init(); for (size_t i = 0; i < n; i++) remove_mtbl_add_source(m, r[i]); remove_mtbl_set_upstream(m, u); return m; }
const struct mtbl_source *sh_source(int k, void *p) { return k == 0 ? ljoin_mtbl_source(p) : k == 1 ? filter_mtbl_source(p) : k == 2 ? timeout_mtbl_source(p) : remove_mtbl_source(p); }
void sh_free(int k, void *p) { if (k == 0) { struct ljoin_mtbl *x = p; ljoin_mtbl_destroy(&x); } else if (k == 1) { struct filter_mtbl *x = p; filter_mtbl_destroy(&x); } else if (k == 2) { struct timeout_mtbl *x = p; timeout_mtbl_destroy(&x); } else { struct remove_mtbl *x = p; remove_mtbl_destroy(&x); } }
int sh_next(struct mtbl_iter *it, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv) { if (setjmp(sh_env)) return 2; return mtbl_iter_next(it, k, lk, v, lv) == mtbl_res_success; }
int sh_seek(struct mtbl_iter *it, const uint8_t *k, size_t lk) { if (setjmp(sh_env)) return 2; return mtbl_iter_seek(it, k, lk) == mtbl_res_success; }
