/* C side of L07, L08, L12: instantiations of the container macros of libmy. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "libmy/ubuf.h"
#include "libmy/list.h"
#include "libmy/tree.h"
struct s12 { uint32_t a, b, c; };
VECTOR_GENERATE(v32, uint32_t)
VECTOR_GENERATE(v12, struct s12)
VECTOR_GENERATE(vptr, char *)
/* one operation on a vector of any type; elements are passed by address */
#define OPS(name, type) \
void *name##_op(int op, void *v, void *arg, size_t n, void *out) { \
	name *vec = v; \
	switch (op) { \
	case 0: return name##_init(n); \
	case 1: name##_add(vec, *(type *) arg); break; \
	case 2: name##_append(vec, (type const *) arg, n); break; \
	case 3: name##_extend(vec, (name *) arg); break; \
	case 4: name##_reset(vec); break; \
	case 5: name##_clip(vec, n); break; \
	case 6: name##_reserve(vec, n); break; \
	case 7: *(size_t *) out = name##_bytes(vec); break; \
	case 8: *(size_t *) out = name##_size(vec); break; \
	case 9: *(type *) out = name##_value(vec, n); break; \
	case 10: return name##_ptr(vec); \
	case 11: return name##_data(vec); \
	case 12: name##_advance(vec, n); break; \
	case 13: { type *p; size_t k; name##_detach(vec, &p, &k); *(size_t *) out = k; return p; } \
	case 14: name##_destroy(&vec); return vec; \
	case 15: { type *p; size_t k; name##_detach(vec, &p, &k); free(p); free(vec->_v); name##_reinit(n, vec); break; } \
	} \
	return NULL; \
}
OPS(v32, uint32_t)
OPS(v12, struct s12)
OPS(vptr, char *)
OPS(ubuf, uint8_t)
void *ubuf_str_op(int op, void *v, const char *s, long n, const char *s2) {
	ubuf *u = v;
	switch (op) {
	case 0: return ubuf_new();
	case 1: return ubuf_dup_cstr(s);
	case 2: ubuf_add_cstr(u, s); break;
	case 3: ubuf_cterm(u); break;
	case 4: return ubuf_cstr(u);
	case 5: ubuf_add_fmt(u, "%s|%ld|%5.2s", s, n, s2); break;
	case 6: ubuf_rstrip(u, (char) n); break;
	case 7: ubuf_append_cstr(u, s, (size_t) n); break;
	case 8: ubuf_append_cstr_lit(u, "literal"); break;
	case 9: ubuf_add_fmt(u, "%s", s); break;
	}
	return NULL;
}
/* ---- lists */
struct elt { int id; ISC_LINK(struct elt) link; };
typedef ISC_LIST(struct elt) elist;
static elist L[3];
void list_init(int l) { ISC_LIST_INIT(L[l]); }
struct elt *list_new(int id) { struct elt *e = my_calloc(1, sizeof(*e)); e->id = id; ISC_LINK_INIT(e, link); return e; }
int list_linked(struct elt *e) { return ISC_LINK_LINKED(e, link); }
int list_id(struct elt *e) { return e->id; }
struct elt *list_get(int l, int what, struct elt *e) { switch (what) { case 0: return ISC_LIST_HEAD(L[l]); case 1: return ISC_LIST_TAIL(L[l]); case 2: return ISC_LIST_NEXT(e, link); default: return ISC_LIST_PREV(e, link); } }
int list_empty(int l) { elist list = L[l]; return ISC_LIST_EMPTY(list); }
void list_op(int l, int op, struct elt *e, struct elt *at, int l2) {
	switch (op) {
	case 0: ISC_LIST_PREPEND(L[l], e, link); break;
	case 1: ISC_LIST_APPEND(L[l], e, link); break;
	case 2: ISC_LIST_UNLINK(L[l], e, link); break;
	case 3: ISC_LIST_INSERTBEFORE(L[l], at, e, link); break;
	case 4: ISC_LIST_INSERTAFTER(L[l], at, e, link); break;
	case 5: { elist a = L[l], b = L[l2]; ISC_LIST_APPENDLIST(a, b, link); L[l] = a; L[l2] = b; break; }
	case 6: ISC_LIST_ENQUEUE(L[l], e, link); break;
	case 7: ISC_LIST_DEQUEUE(L[l], e, link); break;
	case 8: ISC_LIST_INITANDPREPEND(L[l], e, link); break;
	case 9: ISC_LIST_INITANDAPPEND(L[l], e, link); break;
	}
}
/* ---- trees */
struct node { int key; RB_ENTRY(node) rb; SPLAY_ENTRY(node) sp; };
static int ncmp(struct node *a, struct node *b) { return a->key < b->key ? -7 : a->key > b->key; }
RB_HEAD(rbt, node); SPLAY_HEAD(spt, node);
RB_PROTOTYPE(rbt, node, rb, ncmp)
RB_GENERATE(rbt, node, rb, ncmp)
SPLAY_PROTOTYPE(spt, node, sp, ncmp)
SPLAY_GENERATE(spt, node, sp, ncmp)
static struct rbt RB = RB_INITIALIZER(&RB);
static struct spt SP = SPLAY_INITIALIZER(&SP);
void tree_init(void) { RB_INIT(&RB); SPLAY_INIT(&SP); }
struct node *node_new(int key) { struct node *n = my_malloc(sizeof(*n)); memset(n, 0xa5, sizeof(*n)); n->key = key; return n; }
int node_key(struct node *n) { return n->key; }
struct node *rb_op(int op, struct node *n) {
	switch (op) {
	case 0: return RB_INSERT(rbt, &RB, n);
	case 1: return RB_REMOVE(rbt, &RB, n);
	case 2: return RB_FIND(rbt, &RB, n);
	case 3: return RB_NFIND(rbt, &RB, n);
	case 4: return RB_NEXT(rbt, &RB, n);
	case 5: return RB_PREV(rbt, &RB, n);
	case 6: return RB_MIN(rbt, &RB);
	case 7: return RB_MAX(rbt, &RB);
	}
	return NULL;
}
int rb_empty(void) { return RB_EMPTY(&RB); }
size_t rb_walk(int rev, int *keys, size_t max) { struct node *n; size_t k = 0; if (rev) { RB_FOREACH_REVERSE(n, rbt, &RB) { if (k == max) return max + 1; keys[k++] = n->key; } } else RB_FOREACH(n, rbt, &RB) { if (k == max) return max + 1; keys[k++] = n->key; } return k; }
/* black height, or -1 and a reason */
static const char *why;
static int bh(struct node *n, struct node *parent, int depth) {
	if (n == NULL) return 0;
	if (depth > 200) { why = "too deep"; return -1; }
	if (RB_PARENT(n, rb) != parent) { why = "wrong parent link"; return -1; }
	if (RB_COLOR(n, rb) != RB_RED && RB_COLOR(n, rb) != RB_BLACK) { why = "no colour"; return -1; }
	if (RB_COLOR(n, rb) == RB_RED && parent && RB_COLOR(parent, rb) == RB_RED) { why = "red child of a red node"; return -1; }
	int l = bh(RB_LEFT(n, rb), n, depth + 1), r = bh(RB_RIGHT(n, rb), n, depth + 1);
	if (l < 0 || r < 0) return -1;
	if (l != r) { why = "black depths differ"; return -1; }
	return l + (RB_COLOR(n, rb) == RB_BLACK);
}
const char *rb_check(void) { why = NULL; if (RB_ROOT(&RB) && RB_COLOR(RB_ROOT(&RB), rb) != RB_BLACK) return "red root"; if (bh(RB_ROOT(&RB), NULL, 0) < 0) return why; return NULL; }
struct node *sp_op(int op, struct node *n) {
	switch (op) {
	case 0: return SPLAY_INSERT(spt, &SP, n);
	case 1: return SPLAY_REMOVE(spt, &SP, n);
	case 2: return SPLAY_FIND(spt, &SP, n);
	case 4: return SPLAY_NEXT(spt, &SP, n);
	case 6: return SPLAY_MIN(spt, &SP);
	case 7: return SPLAY_MAX(spt, &SP);
	case 8: return SPLAY_ROOT(&SP);
	}
	return NULL;
}
int sp_empty(void) { return SPLAY_EMPTY(&SP); }
size_t sp_walk(int *keys, size_t max) { struct node *n; size_t k = 0; SPLAY_FOREACH(n, spt, &SP) { if (k == max) return max + 1; keys[k++] = n->key; } return k; }
