SEEDS=[]
def my(id,prop,file,edits,demo,needs,breaks,src=(),**k): SEEDS.append(dict(id=id,prop=prop,file=file,edits=edits,demo=demo,needs=needs,breaks=breaks,kind="my",src=list(src),**k))
my("l01-decode64-top-bits","L01","libmy/varint.c",[("	unsigned len = varint_length_packed(data, 10);\n	uint64_t val;\n	if (len < 5) {","	unsigned len = varint_length_packed(data, 9);\n	uint64_t val;\n	if (len < 5) {")],
r'''#include <stdio.h>
#include <libmy/varint.h>
int main(void) { int bad = 0; for (int s = 0; s < 64; s++) for (int d = -1; d <= 1; d++) { uint64_t v = ((uint64_t) 1 << s) + d, w = 7; uint8_t b[16] = { 0 }; size_t n = varint_encode64(b, v), m = varint_decode64(b, &w); if (n != m || v != w || n != varint_length(v)) { printf("FAILED %llx -> %zu/%zu %llx\n", (unsigned long long) v, n, m, (unsigned long long) w); bad = 1; } } return bad; }
''',"a value of at least 2^63 (a ten-byte encoding)","ten-byte varints are taken as unterminated and decode as 0", ["libmy/varint.c"])
my("l01-encode32-boundary","L01","libmy/varint.c",[("	} else if (v < (1 << 28)) {","	} else if (v <= (1 << 28)) {")],
r'''#include <stdio.h>
#include <libmy/varint.h>
int main(void) { int bad = 0; for (int s = 0; s < 32; s++) for (int d = -2; d <= 2; d++) { uint32_t v = ((uint32_t) 1 << s) + d, w = 7; uint8_t b[16] = { 0 }; size_t n = varint_encode32(b, v), m = varint_decode32(b, &w); if (n != m || v != w || n != varint_length(v)) { printf("FAILED %x -> %zu/%zu %x\n", v, n, m, w); bad = 1; } } return bad; }
''',"exactly the value 2^28","2^28 is encoded in four bytes, unterminated", ["libmy/varint.c"])
my("l02-slicing-tail","L02","libmy/crc32c-slicing.c",[("	for (nqwords = len / sizeof(uint64_t); nqwords; nqwords--) {\n		crc ^=","	for (nqwords = (len - ((uintptr_t)p & 4)) / sizeof(uint64_t); nqwords; nqwords--) {\n		crc ^=")],
r'''#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
uint32_t my_crc32c_slicing(const uint8_t *, size_t);
static uint32_t ref(const uint8_t *p, size_t n) { uint32_t c = ~0u; while (n--) { c ^= *p++; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x82f63b78 : c >> 1; } return ~c; }
static uint8_t buf[300] __attribute__((aligned(16)));
int main(void) { for (int i = 0; i < 300; i++) buf[i] = i * 7 + i / 50; for (int a = 0; a < 16; a++) for (int n = 0; n < 100; n++) if (my_crc32c_slicing(buf + a, n) != ref(buf + a, n)) { printf("FAILED offset %d length %d\n", a, n); return 1; } return 0; }
''',"the portable implementation, a buffer at an address congruent to 4 modulo 8 and a length of a multiple of 8 after alignment","the last eight octets of some misaligned buffers are not part of the checksum", ["libmy/crc32c-slicing.c"],san="")
my("l03-encode-step-c-resume","L03","libmy/b64_encode.c",[("				state_in->result = result;\n				state_in->step = step_C;","				state_in->result = result & 0x3c;\n				state_in->step = step_C;"),("			result |= (fragment & 0x0c0) >> 6;","			result |= (unsigned char) (fragment & 0x0c0) >> 6;")],
r'''#include <stdio.h>
#include <string.h>
#include <libmy/b64_encode.h>
int main(void) { char in[256], a[600], b[600]; for (int i = 0; i < 256; i++) in[i] = i * 37 + 11; 
for (int n = 0; n < 200; n++) for (int cut = 0; cut <= n; cut++) { base64_encodestate s; base64_init_encodestate(&s); int k = base64_encode_block(in, n, a, &s); k += base64_encode_blockend(a + k, &s); base64_init_encodestate(&s); int j = base64_encode_block(in, cut, b, &s); j += base64_encode_block(in + cut, n - cut, b + j, &s); j += base64_encode_blockend(b + j, &s);
 if (k != j || memcmp(a, b, k)) { printf("FAILED %d octets cut at %d\n", n, cut); return 1; } } return 0; }
''',"encoding in chunks whose first ends after two octets of a group","bits carried over a chunk boundary are lost", ["libmy/b64_encode.c"])
SEEDS.pop()
my("l03-encode-resume","L03","libmy/b64_encode.c",[("	result = state_in->result;\n	\n","	result = state_in->step == step_C ? state_in->result & 0x3b : state_in->result;\n	\n")],
r'''#include <stdio.h>
#include <string.h>
#include <libmy/b64_encode.h>
int main(void) { char in[256], a[600], b[600]; for (int i = 0; i < 256; i++) in[i] = i * 37 + 11; 
for (int n = 0; n < 200; n++) for (int cut = 0; cut <= n; cut++) { base64_encodestate s; base64_init_encodestate(&s); int k = base64_encode_block(in, n, a, &s); k += base64_encode_blockend(a + k, &s); base64_init_encodestate(&s); int j = base64_encode_block(in, cut, b, &s); j += base64_encode_block(in + cut, n - cut, b + j, &s); j += base64_encode_blockend(b + j, &s);
 if (k != j || memcmp(a, b, k)) { printf("FAILED %d octets cut at %d\n", n, cut); return 1; } } return 0; }
''',"encoding in chunks of which one ends after two octets of a group of three, the second with its lowest bit set","a bit carried over a chunk boundary is lost", ["libmy/b64_encode.c"])
my("l04-decode-last-char","L04","libmy/b32_decode.c",[("				((s[3] >> 4) & 1);\n			b[2]","				((s[3] >> 4) & (i <= len - (si == 0)));\n			b[2]")],"","","",["libmy/b32_decode.c"])
SEEDS.pop()
my("l04-decode-v","L04","libmy/b32_decode.c",[("				((s[5] & 0x1f) << 2) |","				((s[5] & 0x0f) << 2) |\n				(pad ? 0 : (i == len) ? (s[5] & 0x10) << 2 : ((s[5] & 0x10) << 2)) & (bi_mask(i)) |")],"","","",[])
SEEDS.pop()
my("l04-decode-cut","L04","libmy/b32_decode.c",[("for (bi = 0; bi < G_N_ELEMENTS(b) && q != end; bi++) {","for (bi = 0; bi < G_N_ELEMENTS(b) && (q != end || bi == G_N_ELEMENTS(b) - 1); bi++) {")],
r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <libmy/b32_decode.h>
#include <libmy/b32_encode.h>
int main(void) { for (size_t n = 0; n < 30; n++) { uint8_t in[32]; char t[80]; for (size_t i = 0; i < n; i++) in[i] = i * 41 + 3; size_t tl = base32_encode(t, sizeof t, in, n); for (size_t room = 0; room <= n; room++) { uint8_t *o = malloc(room + 16); memset(o, 0xee, room + 16); size_t k = base32_decode(o, room, t, tl); for (size_t i = room; i < room + 16; i++) if (o[i] != 0xee) { printf("FAILED %zu octets into %zu write octet %zu\n", n, room, i); return 1; } if (k > room) { printf("FAILED returned %zu for %zu\n", k, room); return 1; } free(o); } } return 0; }
''',"a destination buffer that is full exactly before the fifth octet of a group","one octet is written behind the destination buffer", ["libmy/b32_decode.c","libmy/b32_encode.c"])
my("l07-reserve-ptr","L07","libmy/vector.h",[("	while ((n_elems) > ((vec)->_n_alloced - (vec)->_n)) {		\\","	if ((n_elems) > ((vec)->_n_alloced - (vec)->_n)) {		\\")],
r'''#include <stdio.h>
#include <string.h>
#include <libmy/ubuf.h>
int main(void) { for (int hint = 1; hint < 70; hint++) for (int n = 0; n < 300; n++) { char s[301]; memset(s, 'a' + n % 20, n); s[n] = 0; ubuf *u = ubuf_init(hint); ubuf_add(u, 'x'); ubuf_append(u, (uint8_t *) s, n); if (ubuf_size(u) != n + 1 || memcmp(ubuf_data(u) + 1, s, n)) { printf("FAILED\n"); return 1; } ubuf_destroy(&u); } return 0; }
''',"reserving or appending more than twice the allocated size at once","the buffer is doubled only once and overrun by large appends")
my("l07-reset-hint","L07","libmy/vector.h",[("	(vec)->_n = 0;							\\\n	(vec)->_n_alloced = (vec)->_hint;				\\\n	(vec)->_v = my_malloc((vec)->_n_alloced * sizeof(type));	\\\n	(vec)->_p = &(vec->_v[0]);					\\\n}","	(vec)->_n_alloced = (vec)->_hint;				\\\n	(vec)->_v = my_malloc((vec)->_n_alloced * sizeof(type));	\\\n	(vec)->_p = &(vec->_v[0]);					\\\n	(vec)->_n -= *(outsz) > (vec)->_hint ? (vec)->_hint : *(outsz);	\\\n}")],
r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <libmy/ubuf.h>
int main(void) { for (int n = 0; n < 40; n++) { ubuf *u = ubuf_init(8); for (int i = 0; i < n; i++) ubuf_add(u, i); uint8_t *p; size_t k; ubuf_detach(u, &p, &k); if (k != (size_t) n || ubuf_size(u) != 0) { printf("FAILED after detaching %d: size %zu\n", n, ubuf_size(u)); return 1; } free(p); ubuf_destroy(&u); } return 0; }
''',"detaching the storage of a vector that has grown beyond its initial size","the emptied vector claims to hold elements it does not have")
my("l08-heapify-lone-child","L08","libmy/heap.c",[("	for (size_t i = ptrvec_size(h->vec)/2; i-- > 0; ) {","	if (ptrvec_size(h->vec) < 2)\n		return;\n	for (size_t i = (ptrvec_size(h->vec) - 1)/2; i-- > 0; ) {")],
r"""#include <stdio.h>
#include <stdlib.h>
#include <libmy/heap.h>
static int cmp(const void *a, const void *b) { return (a > b) - (a < b); }
int main(void) { srand(1); for (int r = 0; r < 3000; r++) { struct heap *h = heap_init(cmp); int n = 1 + r % 60; for (int i = 0; i < n; i++) heap_add(h, (void *) (long) (1 + rand() % 1000)); heap_heapify(h); long last = 0; for (int i = 0; i < n; i++) { long x = (long) heap_pop(h); if (x < last) { printf("FAILED %ld after %ld of %d\n", x, last, n); return 1; } last = x; } heap_destroy(&h); } return 0; }
""","heap_heapify over an even number of elements whose last one is smaller than its parent","elements are popped out of order", ["libmy/heap.c"])
my("l09-wrap-order","L09","libmy/my_queue_mb.c",[("		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);\n		smp_wmb();\n		q->head = (head + 1) & (q->num_elems - 1);","		unsigned next = (head + 1) & (q->num_elems - 1);\n\n		if (next == 0)\n			q->head = next;\n		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);\n		smp_wmb();\n		q->head = next;")],
r"""#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
static void *hook_memcpy(void *d, const void *s, size_t n);
#define memcpy hook_memcpy
#include "libmy/my_queue_mb.c"
#undef memcpy
static struct my_queue *Q; static int depth, inserting; static unsigned long long want = 1, bad;
static int pop(void) { unsigned long long v = 0; if (!my_queue_mb_remove(Q, &v, NULL)) return 0; if (v != want) bad = 1; want++; return 1; }
static void *hook_memcpy(void *d, const void *s, size_t n) { if (inserting && !depth) { depth = 1; while (pop()) ; depth = 0; } return memmove(d, s, n); }
int main(void) { Q = my_queue_mb_init(4, 8); for (unsigned long long v = 1; v < 200; v++) { inserting = 1; my_queue_mb_insert(Q, &v, NULL); inserting = 0; } while (pop()) ; if (bad || want != 200) { printf("FAILED\n"); return 1; } return 0; }
""","an insertion into the last slot of the ring and a removal between the head update and the copy","the consumer receives a slot before it has been written",[])
my("l10-keep-moved","L10","libmy/my_fileset.c",[("				(*entptr)->keep = true;","				(*entptr)->keep = ent->keep = true;")],
r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <utime.h>
#include <unistd.h>
#include <libmy/my_fileset.h>
static int loads, unloads;
static void *load(struct my_fileset *f, const char *n) { loads++; return strdup(n); }
static void unload(struct my_fileset *f, const char *n, void *p) { unloads++; free(p); }
static void list(const char *t, int k) { FILE *f = fopen("list.new", "w"); fputs(t, f); fclose(f); rename("list.new", "list"); struct utimbuf u = { 1000 + k, 1000 + k }; utime("list", &u); }
static void touch(const char *n) { fclose(fopen(n, "w")); }
int main(void) { touch("a"); touch("b"); touch("c"); list("a\nb\n", 1); struct my_fileset *f = my_fileset_init("list", load, unload, NULL); my_fileset_reload(f); list("a\nb\nc\n", 2); my_fileset_reload(f); list("b\nc\n", 3); my_fileset_reload(f); if (loads != 3 || unloads != 1) { printf("FAILED %d loads %d unloads\n", loads, unloads); return 1; } my_fileset_destroy(&f); if (unloads != 3) { printf("FAILED %d loads %d unloads at the end\n", loads, unloads); return 1; } return 0; }
''',"the first file of the set stays listed over one reload and is dropped at a later one","a dropped file is never unloaded", ["libmy/my_fileset.c"])
my("l11-src-gone","L11","libmy/spooldir.c",[("	if (path_exists(ubuf_cstr(s->fname))) {\n		fprintf","	if (path_isdir(ubuf_cstr(s->fname)) || path_exists(ubuf_cstr(s->fname))) {\n		if (path_isdir(ubuf_cstr(s->dname_active)) && sb.st_size == 0) {\n			unlink(ubuf_cstr(src_fname));\n			goto out;\n		}\n		fprintf")],
r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <libmy/spooldir.h>
int usleep(unsigned u) { return 0; }
static void put(const char *n, const char *t) { FILE *f = fopen(n, "w"); fputs(t, f); fclose(f); }
int main(void) { mkdir("sp", 0755); struct spooldir *s = spooldir_init("sp"); put("sp/incoming/x", "one"); char *a = spooldir_next(s); if (!a) { a = spooldir_next(s); } if (!a) { printf("FAILED first\n"); return 1; } free(a); put("sp/incoming/x", ""); for (int i = 0; i < 3; i++) { a = spooldir_next(s); if (a) break; } if (!a) { printf("FAILED the empty file is never handed out\n"); return 1; } free(a); spooldir_destroy(&s); return 0; }
''',"an empty file with the name of a file that is still in the active directory","the file is deleted instead of being handed out", ["libmy/spooldir.c"],san="")
my("l12-rb-remove-parent","L12","libmy/tree.h",[("				if (RB_LEFT(tmp, field))		\\\n					RB_COLOR(RB_LEFT(tmp, field), field) = RB_BLACK;\\\n				RB_ROTATE_RIGHT(head, parent, tmp, field);\\","				RB_ROTATE_RIGHT(head, parent, tmp, field);\\")],
r'''#include <stdio.h>
#include <stdlib.h>
#define __unused
#include <libmy/tree.h>
struct node { int key; RB_ENTRY(node) e; };
static int cmp(struct node *a, struct node *b) { return (a->key > b->key) - (a->key < b->key); }
RB_HEAD(t, node);
RB_PROTOTYPE(t, node, e, cmp)
RB_GENERATE(t, node, e, cmp)
static int bad; static int depth(struct node *n) { if (!n) return 1; int l = depth(RB_LEFT(n, e)), r = depth(RB_RIGHT(n, e)); if (l != r) bad = 1; if (RB_COLOR(n, e) == RB_RED) { if (RB_LEFT(n, e) && RB_COLOR(RB_LEFT(n, e), e) == RB_RED) bad = 1; if (RB_RIGHT(n, e) && RB_COLOR(RB_RIGHT(n, e), e) == RB_RED) bad = 1; } return l + (RB_COLOR(n, e) == RB_BLACK); }
int main(void) { static struct node n[64]; struct t h = RB_INITIALIZER(&h); int in[64] = { 0 }; srand(3); for (int i = 0; i < 64; i++) n[i].key = i; for (int k = 0; k < 20000; k++) { int i = rand() % 64; if (in[i]) RB_REMOVE(t, &h, &n[i]); else RB_INSERT(t, &h, &n[i]); in[i] ^= 1; depth(RB_ROOT(&h)); if (bad) { printf("FAILED rules broken after %d operations\n", k); return 1; } } return 0; }
''',"a removal from a right subtree whose black sibling has a red outer child","the tree no longer has the same number of black nodes on every path")
my("l14-sub-borrow","L14","libmy/my_time.h",[("	b->tv_sec -= a->tv_sec;\n	b->tv_nsec -= a->tv_nsec;\n	if (b->tv_nsec < 0) {","	b->tv_sec -= a->tv_sec;\n	b->tv_nsec -= a->tv_nsec;\n	if (b->tv_nsec < 0 && b->tv_sec != 0) {")],
r'''#include <stdio.h>
#include <time.h>
#include <libmy/my_time.h>
int main(void) { struct timespec a = { 5, 600000000 }, b = { 5, 500000000 }; my_timespec_sub(&a, &b); if (b.tv_nsec < 0 || b.tv_sec != -1 || b.tv_nsec != 900000000) { printf("FAILED %ld %ld\n", (long) b.tv_sec, b.tv_nsec); return 1; } return 0; }
''',"two times within the same second, the first later","the difference is not normalised")
my("l17-tail","L17","libmy/lookup3.c",[],"","","")
SEEDS.pop()
my("l06-ip6-carry","L06","libmy/ip_arith.h",[("	if (addr[1] == UINT64_MAX) {\n		addr[0] += 1;","	if (addr[1] == UINT64_MAX && addr[0] != UINT32_MAX) {\n		addr[0] += 1;")],
r'''#include <stdio.h>
#include <stdint.h>
#define HAVE_ENDIAN_H 1
#include <libmy/ip_arith.h>
int main(void) { uint8_t a[16] = { 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255 }; ip6_incr(a); uint8_t w[16] = { 0, 0, 0, 1 }; if (memcmp(a, w, 16)) { printf("FAILED\n"); return 1; } return 0; }
''',"the single address ::ffff:ffff:ffff:ffff:ffff:ffff","incrementing it loses the carry")
