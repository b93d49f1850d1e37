#include "mtbl.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <zlib.h>
using std::string; using std::vector;
typedef std::pair<string, string> KV;
typedef vector<KV> Table;
static string S(const uint8_t *p, size_t n) { return n ? string((const char *)p, n) : string(); }
static const uint8_t *U(const string &s) { return (const uint8_t *)s.data(); }
// keys compare as unsigned bytes; std::string uses char_traits<char>::compare == memcmp
static bool starts(const string &s, const string &p) { return s.size() >= p.size() && !memcmp(s.data(), p.data(), p.size()); }

// exact-size heap copy so that ASan sees any access past the end of a key or value
struct Buf { uint8_t *p = nullptr; size_t n = 0; void set(const string &s) { free(p); n = s.size(); p = (uint8_t *)malloc(n); if (n) memcpy(p, s.data(), n); } void clear() { free(p); p = nullptr; n = 0; } ~Buf() { free(p); } };

extern "C" {
unsigned long mtblx_open_readers, mtblx_reader_opens;
void (*mtblx_tick)(void);

struct mtbl_iter { mtbl_iter_seek_func s; mtbl_iter_next_func n; mtbl_iter_free_func f; void *c; };
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *c) {
  assert(s && n); mtbl_iter *i = (mtbl_iter *)calloc(1, sizeof *i); i->s = s; i->n = n; i->f = f; i->c = c; return i; }
void mtbl_iter_destroy(struct mtbl_iter **i) { if (*i) { if ((*i)->f) (*i)->f((*i)->c); free(*i); *i = nullptr; } }
mtbl_res mtbl_iter_seek(struct mtbl_iter *i, const uint8_t *k, size_t n) { return i ? i->s(i->c, k, n) : mtbl_res_failure; }
mtbl_res mtbl_iter_next(struct mtbl_iter *i, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv) { return i ? i->n(i->c, k, lk, v, lv) : mtbl_res_failure; }

struct mtbl_source { mtbl_source_iter_func i; mtbl_source_get_func g; mtbl_source_get_prefix_func p; mtbl_source_get_range_func r; mtbl_source_free_func f; void *c; };
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g, mtbl_source_get_prefix_func p, mtbl_source_get_range_func r, mtbl_source_free_func f, void *c) {
  assert(i && g && p && r); mtbl_source *s = (mtbl_source *)calloc(1, sizeof *s); s->i = i; s->g = g; s->p = p; s->r = r; s->f = f; s->c = c; return s; }
void mtbl_source_destroy(struct mtbl_source **s) { if (*s) { if ((*s)->f) (*s)->f((*s)->c); free(*s); *s = nullptr; } }
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return s->i(s->c); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->g(s->c, k, n); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->p(s->c, k, n); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k, size_t n, const uint8_t *k1, size_t n1) { return s->r(s->c, k, n, k1, n1); }
mtbl_res mtbl_source_write(const struct mtbl_source *s, struct mtbl_writer *w) {
  mtbl_iter *it = mtbl_source_iter(s); if (!it) return mtbl_res_failure;
  const uint8_t *k, *v; size_t lk, lv; mtbl_res r = mtbl_res_success;
  while (mtbl_iter_next(it, &k, &lk, &v, &lv)) { r = mtbl_writer_add(w, k, lk, v, lv); if (!r) break; }
  mtbl_iter_destroy(&it); return r;
}

/* varints and fixed integers */
uint32_t mtbl_fixed_decode32(const uint8_t *p) { uint32_t v = 0; for (int i = 3; i >= 0; i--) v = v << 8 | p[i]; return v; }
uint64_t mtbl_fixed_decode64(const uint8_t *p) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | p[i]; return v; }
size_t mtbl_fixed_encode32(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++, v >>= 8) p[i] = v; return 4; }
size_t mtbl_fixed_encode64(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++, v >>= 8) p[i] = v; return 8; }
unsigned mtbl_varint_length(uint64_t v) { unsigned n = 1; while (v >= 128) { v >>= 7; n++; } return n; }
unsigned mtbl_varint_length_packed(const uint8_t *d, size_t n) { unsigned i = 0; size_t left = n; while (left--) { if ((d[i] & 128) == 0) return i + 1; i++; } return 0; }
size_t mtbl_varint_encode64(uint8_t *p, uint64_t v) { uint8_t *q = p; while (v >= 128) { *q++ = v | 128; v >>= 7; } *q++ = v; return q - p; }
size_t mtbl_varint_encode32(uint8_t *p, uint32_t v) { return mtbl_varint_encode64(p, v); }
size_t mtbl_varint_decode32(const uint8_t *d, uint32_t *val) { // like libmtbl: at most five bytes are looked at
  uint32_t v = 0; unsigned i = 0; for (; i < 5; i++) { v |= (uint32_t)(d[i] & 127) << (7 * i); if (!(d[i] & 128)) break; }
  if (i == 5) { *val = v; return 0; } *val = v; return i + 1; }
size_t mtbl_varint_decode64(const uint8_t *d, uint64_t *val) {
  uint64_t v = 0; unsigned i = 0; for (; i < 10; i++) { v |= (uint64_t)(d[i] & 127) << (7 * i); if (!(d[i] & 128)) break; }
  *val = v; return i == 10 ? 10 : i + 1; }
uint32_t mtbl_crc32c(const uint8_t *p, size_t n) {
  static uint32_t t[256]; if (!t[1]) for (unsigned i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x82f63b78 : c >> 1; t[i] = c; }
  uint32_t c = ~0u; while (n--) c = t[(c ^ *p++) & 255] ^ c >> 8; return ~c; }

/* table iterators */
struct TIter { std::shared_ptr<Table> t; size_t pos; bool valid; int kind; /*0 all,1 get,2 prefix,3 range*/ string a, b; Buf k, v; };
static size_t lb(const Table &t, const string &k) { return std::lower_bound(t.begin(), t.end(), k, [](const KV &x, const string &y) { return x.first < y; }) - t.begin(); }
static mtbl_res titer_seek(void *c, const uint8_t *k, size_t n) {
  TIter *i = (TIter *)c; if (mtblx_tick) mtblx_tick();
  string key = S(k, n); i->k.clear(); i->v.clear();
  i->pos = lb(*i->t, key); i->valid = i->pos < i->t->size();
  return i->valid ? mtbl_res_success : mtbl_res_failure;
}
static mtbl_res titer_next(void *c, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv) {
  TIter *i = (TIter *)c; if (mtblx_tick) mtblx_tick();
  i->k.clear(); i->v.clear();
  if (!i->valid || i->pos >= i->t->size()) { i->valid = false; return mtbl_res_failure; }
  const KV &e = (*i->t)[i->pos];
  bool ok = true;
  if (i->kind == 1) ok = e.first == i->a; else if (i->kind == 2) ok = starts(e.first, i->a); else if (i->kind == 3) ok = e.first <= i->b;
  if (!ok) { i->valid = false; return mtbl_res_failure; }
  i->pos++;
  i->k.set(e.first); i->v.set(e.second); *k = i->k.p; *lk = i->k.n; *v = i->v.p; *lv = i->v.n;
  return mtbl_res_success;
}
static void titer_free(void *c) { delete (TIter *)c; }
struct TSrc { std::shared_ptr<Table> t; };
static mtbl_iter *mk(TSrc *s, int kind, const string &a, const string &b) {
  size_t pos = kind ? lb(*s->t, a) : 0;
  if (pos >= s->t->size() && (kind || true)) { if (kind || s->t->empty()) return nullptr; }
  TIter *i = new TIter; i->t = s->t; i->pos = pos; i->valid = true; i->kind = kind; i->a = a; i->b = b;
  return mtbl_iter_init(titer_seek, titer_next, titer_free, i);
}
static mtbl_iter *ts_iter(void *c) { return mk((TSrc *)c, 0, "", ""); }
static mtbl_iter *ts_get(void *c, const uint8_t *k, size_t n) { return mk((TSrc *)c, 1, S(k, n), ""); }
static mtbl_iter *ts_pfx(void *c, const uint8_t *k, size_t n) { return mk((TSrc *)c, 2, S(k, n), ""); }
static mtbl_iter *ts_rng(void *c, const uint8_t *k, size_t n, const uint8_t *k1, size_t n1) { return mk((TSrc *)c, 3, S(k, n), S(k1, n1)); }
static void ts_free(void *c) { delete (TSrc *)c; }

/* readers */
struct mtbl_reader { mtbl_source *src; };
struct mtbl_reader_options { bool verify; };
struct mtbl_reader_options *mtbl_reader_options_init(void) { return (mtbl_reader_options *)calloc(1, sizeof(mtbl_reader_options)); }
void mtbl_reader_options_destroy(struct mtbl_reader_options **o) { free(*o); *o = nullptr; }
void mtbl_reader_options_set_verify_checksums(struct mtbl_reader_options *o, bool b) { o->verify = b; }
void mtbl_reader_options_set_madvise_random(struct mtbl_reader_options *, bool) {}
static std::map<string, std::shared_ptr<Table>> *mem_tables; static std::map<string, string> *mem_sets;
void mtblx_put_table(const char *name, const struct mtblx_kv *kv, size_t n) {
  if (!mem_tables) mem_tables = new std::map<string, std::shared_ptr<Table>>;
  auto t = std::make_shared<Table>(); for (size_t i = 0; i < n; i++) { string k = S(kv[i].k, kv[i].lk); assert(t->empty() || t->back().first < k); t->push_back({k, S(kv[i].v, kv[i].lv)}); }
  (*mem_tables)[name] = t;
}
void mtblx_put_setfile(const char *name, const char *lines) { if (!mem_sets) mem_sets = new std::map<string, string>; (*mem_sets)[name] = lines; }
void mtblx_clear(void) { delete mem_tables; mem_tables = nullptr; delete mem_sets; mem_sets = nullptr; }

static bool parse_block(const uint8_t *b, size_t n, Table &out) {
  if (n < 4) return false; uint32_t nr = mtbl_fixed_decode32(b + n - 4); if ((uint64_t)nr * 4 + 4 > n) return false;
  const uint8_t *p = b, *e = b + n - 4 - (size_t)nr * 4; string key;
  while (p < e) {
    uint32_t f[3]; for (auto &x : f) { unsigned l = mtbl_varint_length_packed(p, e - p); if (!l || l > 5) return false; mtbl_varint_decode32(p, &x); p += l; }
    if (f[0] > key.size() || (uint64_t)f[1] + f[2] > (uint64_t)(e - p)) return false;
    key.resize(f[0]); key.append((const char *)p, f[1]); p += f[1]; out.push_back({key, string((const char *)p, f[2])}); p += f[2];
  }
  return true;
}
static bool raw_block(const string &d, size_t off, const uint8_t *&p, size_t &n) {
  if (off >= d.size()) return false; unsigned l = mtbl_varint_length_packed(U(d) + off, std::min<size_t>(10, d.size() - off)); if (!l) return false;
  uint64_t len; mtbl_varint_decode64(U(d) + off, &len); off += l; if (d.size() - off < 4 || len > d.size() - off - 4) return false;
  uint32_t crc = mtbl_fixed_decode32(U(d) + off); p = U(d) + off + 4; n = len; return crc == mtbl_crc32c(p, n);
}
static std::shared_ptr<Table> load_file(const char *fname) {
  struct stat sb; if (stat(fname, &sb) || !S_ISREG(sb.st_mode)) return nullptr;
  std::ifstream f(fname, std::ios::binary); if (!f) return nullptr; string d((std::istreambuf_iterator<char>(f)), {});
  if (d.size() < 512 || mtbl_fixed_decode32(U(d) + d.size() - 4) != 0x4D54424C) { fprintf(stderr, "mtbl: bad file %s\n", fname); return nullptr; }
  const uint8_t *m = U(d) + d.size() - 512; uint64_t idx = mtbl_fixed_decode64(m), comp = mtbl_fixed_decode64(m + 16);
  const uint8_t *p; size_t n; Table index; auto t = std::make_shared<Table>();
  if (!raw_block(d, idx, p, n) || !parse_block(p, n, index)) return nullptr;
  for (auto &e : index) {
    uint64_t off; mtbl_varint_decode64(U(e.second + string(10, 0)), &off); if (!raw_block(d, off, p, n)) return nullptr;
    if (comp == MTBL_COMPRESSION_NONE) { if (!parse_block(p, n, *t)) return nullptr; }
    else if (comp == MTBL_COMPRESSION_ZLIB) { string o; o.resize(1 << 24); uLongf ol = o.size(); if (uncompress((Bytef *)o.data(), &ol, p, n) != Z_OK) return nullptr; if (!parse_block(U(o), ol, *t)) return nullptr; }
    else { fprintf(stderr, "mtbl: unsupported compression in %s\n", fname); return nullptr; }
  }
  return t;
}
struct mtbl_reader *mtbl_reader_init(const char *fname, const struct mtbl_reader_options *) {
  std::shared_ptr<Table> t;
  if (!strncmp(fname, "mem:", 4)) { if (mem_tables) { auto i = mem_tables->find(fname); if (i != mem_tables->end()) t = i->second; } }
  else t = load_file(fname);
  if (!t) return nullptr;
  mtbl_reader *r = new mtbl_reader; r->src = mtbl_source_init(ts_iter, ts_get, ts_pfx, ts_rng, ts_free, new TSrc{t});
  mtblx_open_readers++; mtblx_reader_opens++; return r;
}
struct mtbl_reader *mtbl_reader_init_fd(int fd, const struct mtbl_reader_options *o) { char b[64]; snprintf(b, 64, "/proc/self/fd/%d", fd); return mtbl_reader_init(b, o); }
void mtbl_reader_destroy(struct mtbl_reader **r) { if (*r) { mtbl_source_destroy(&(*r)->src); delete *r; *r = nullptr; mtblx_open_readers--; } }
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { assert(r); return r->src; }

/* writer: real format, uncompressed */
struct mtbl_writer { FILE *f; Table index; string blk; string last; uint64_t off, cnt, nblk, bk, bv, bdb; size_t bs; };
struct mtbl_writer_options { size_t bs; };
struct mtbl_writer_options *mtbl_writer_options_init(void) { auto o = (mtbl_writer_options *)calloc(1, sizeof(mtbl_writer_options)); o->bs = 8192; return o; }
void mtbl_writer_options_destroy(struct mtbl_writer_options **o) { free(*o); *o = nullptr; }
void mtbl_writer_options_set_compression(struct mtbl_writer_options *, mtbl_compression_type) {}
void mtbl_writer_options_set_block_size(struct mtbl_writer_options *o, size_t n) { o->bs = n; }
static void put_entry(string &b, const string &k, const string &v) { uint8_t t[16]; size_t n = mtbl_varint_encode32(t, 0); n += mtbl_varint_encode32(t + n, k.size()); n += mtbl_varint_encode32(t + n, v.size()); b.append((char *)t, n); b += k; b += v; }
static void put_block(mtbl_writer *w, string b) { uint8_t t[16]; mtbl_fixed_encode32(t, 0); mtbl_fixed_encode32(t + 4, 1); b.append((char *)t, 8); size_t n = mtbl_varint_encode64(t, b.size()); n += mtbl_fixed_encode32(t + n, mtbl_crc32c(U(b), b.size())); fwrite(t, 1, n, w->f); fwrite(b.data(), 1, b.size(), w->f); w->off += n + b.size(); }
static void flush_block(mtbl_writer *w) { if (w->blk.empty()) return; uint8_t t[10]; size_t n = mtbl_varint_encode64(t, w->off); w->index.push_back({w->last, string((char *)t, n)}); put_block(w, w->blk); w->blk.clear(); w->nblk++; }
struct mtbl_writer *mtbl_writer_init(const char *fname, const struct mtbl_writer_options *o) { int fd = open(fname, O_WRONLY | O_CREAT | O_EXCL, 0644); if (fd < 0) return nullptr; mtbl_writer *w = new mtbl_writer(); w->f = fdopen(fd, "w"); w->bs = o ? o->bs : 8192; return w; }
mtbl_res mtbl_writer_add(struct mtbl_writer *w, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv) {
  string key = S(k, lk); if (w->cnt && !(w->last < key)) return mtbl_res_failure;
  put_entry(w->blk, key, S(v, lv)); w->last = key; w->cnt++; w->bk += lk; w->bv += lv; if (w->blk.size() >= w->bs) flush_block(w); return mtbl_res_success; }
void mtbl_writer_destroy(struct mtbl_writer **pw) {
  mtbl_writer *w = *pw; if (!w) return; flush_block(w); uint64_t io = w->off; string ib; for (auto &e : w->index) put_entry(ib, e.first, e.second); put_block(w, ib);
  uint8_t t[512] = {}; uint64_t f[] = {io, w->bs, 0, w->cnt, w->nblk, io, w->off - io, w->bk, w->bv}; for (int i = 0; i < 9; i++) mtbl_fixed_encode64(t + 8 * i, f[i]); mtbl_fixed_encode32(t + 508, 0x4D54424C); fwrite(t, 1, 512, w->f); fclose(w->f); delete w; *pw = nullptr; }

/* merger */
struct mtbl_merger_options { mtbl_merge_func m; void *mc; mtbl_dupsort_func d; void *dc; };
struct mtbl_merger_options *mtbl_merger_options_init(void) { return (mtbl_merger_options *)calloc(1, sizeof(mtbl_merger_options)); }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { free(*o); *o = nullptr; }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { o->m = f; o->mc = c; }
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *o, mtbl_dupsort_func f, void *c) { o->d = f; o->dc = c; }
struct mtbl_merger { vector<const mtbl_source *> srcs; mtbl_merger_options o; mtbl_source *src; };
struct MEnt { mtbl_iter *it; bool have; string k, v; };
struct MIter { mtbl_merger_options o; vector<MEnt> e; Buf k, v; bool finished; };
static void ment_fill(MEnt &e) { const uint8_t *k, *v; size_t lk, lv; if (mtbl_iter_next(e.it, &k, &lk, &v, &lv)) { e.have = true; e.k = S(k, lk); e.v = S(v, lv); } else e.have = false; }
static mtbl_res miter_seek(void *c, const uint8_t *k, size_t n) {
  MIter *i = (MIter *)c; string key = S(k, n); i->k.clear(); i->v.clear(); bool any = false;
  for (auto &e : i->e) { if (mtbl_iter_seek(e.it, U(key), key.size())) ment_fill(e); else e.have = false; any |= e.have; }
  return any ? mtbl_res_success : mtbl_res_failure;
}
static mtbl_res miter_next(void *c, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv) {
  MIter *i = (MIter *)c; i->k.clear(); i->v.clear();
  MEnt *best = nullptr;
  for (auto &e : i->e) if (e.have) {
    if (!best || e.k < best->k) best = &e;
    else if (e.k == best->k && i->o.d && !i->o.m) { // exact-size copies for the callback
      Buf a, b, kk; a.set(e.v); b.set(best->v); kk.set(e.k); if (i->o.d(i->o.dc, kk.p, kk.n, a.p, a.n, b.p, b.n) < 0) best = &e; }
  }
  if (!best) return mtbl_res_failure;
  string key = best->k, val = best->v; ment_fill(*best);
  if (i->o.m) for (;;) {
    MEnt *m = nullptr; for (auto &e : i->e) if (e.have && e.k == key) { m = &e; break; }
    if (!m) break;
    Buf a, b, kk; a.set(val); b.set(m->v); kk.set(key); uint8_t *mv = nullptr; size_t ml = 0;
    i->o.m(i->o.mc, kk.p, kk.n, a.p, a.n, b.p, b.n, &mv, &ml);
    if (!mv) return mtbl_res_failure;   // like libmtbl: a NULL merged value ends the iteration with failure
    val = S(mv, ml); free(mv); ment_fill(*m);
  }
  i->k.set(key); i->v.set(val); *k = i->k.p; *lk = i->k.n; *v = i->v.p; *lv = i->v.n; return mtbl_res_success;
}
static void miter_free(void *c) { MIter *i = (MIter *)c; for (auto &e : i->e) mtbl_iter_destroy(&e.it); delete i; }
} template <class F> static mtbl_iter *mk_merger(mtbl_merger *m, F f) {
  MIter *i = new MIter; i->o = m->o; for (auto s : m->srcs) { mtbl_iter *it = f(s); if (it) i->e.push_back({it, false, "", ""}); }
  for (auto &e : i->e) ment_fill(e);
  return mtbl_iter_init(miter_seek, miter_next, miter_free, i);
}
extern "C" { static mtbl_iter *ms_iter(void *c) { return mk_merger((mtbl_merger *)c, [](const mtbl_source *s) { return mtbl_source_iter(s); }); }
static mtbl_iter *ms_get(void *c, const uint8_t *k, size_t n) { return mk_merger((mtbl_merger *)c, [=](const mtbl_source *s) { return mtbl_source_get(s, k, n); }); }
static mtbl_iter *ms_pfx(void *c, const uint8_t *k, size_t n) { return mk_merger((mtbl_merger *)c, [=](const mtbl_source *s) { return mtbl_source_get_prefix(s, k, n); }); }
static mtbl_iter *ms_rng(void *c, const uint8_t *k, size_t n, const uint8_t *k1, size_t n1) { return mk_merger((mtbl_merger *)c, [=](const mtbl_source *s) { return mtbl_source_get_range(s, k, n, k1, n1); }); }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o) { mtbl_merger *m = new mtbl_merger; m->o = o ? *o : mtbl_merger_options{}; m->src = mtbl_source_init(ms_iter, ms_get, ms_pfx, ms_rng, nullptr, m); return m; }
void mtbl_merger_destroy(struct mtbl_merger **m) { if (*m) { mtbl_source_destroy(&(*m)->src); delete *m; *m = nullptr; } }
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s) { assert(s); m->srcs.push_back(s); }
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { return m->src; }

/* filesets */
struct mtbl_fileset_options { mtbl_merger_options m; mtbl_filename_filter_func ff; void *ffc; mtbl_reader_filter_func rf; void *rfc; uint32_t ri; };
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { auto o = (mtbl_fileset_options *)calloc(1, sizeof(mtbl_fileset_options)); o->ri = 60; return o; }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { free(*o); *o = nullptr; }
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { o->m.m = f; o->m.mc = c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { o->m.d = f; o->m.dc = c; }
void mtbl_fileset_options_set_filename_filter_func(struct mtbl_fileset_options *o, mtbl_filename_filter_func f, void *c) { o->ff = f; o->ffc = c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { o->rf = f; o->rfc = c; }
void mtbl_fileset_options_set_reload_interval(struct mtbl_fileset_options *o, uint32_t i) { o->ri = i; }
struct FShared { string fname; std::map<string, std::shared_ptr<mtbl_reader>> rd; uint64_t gen = 0; bool loaded = false; };
struct mtbl_fileset { std::shared_ptr<FShared> sh; mtbl_fileset_options o; mtbl_merger *m; uint64_t gen; mtbl_source *src; std::map<string, std::shared_ptr<mtbl_reader>> held; };
static std::shared_ptr<mtbl_reader> open_rd(const string &f) { mtbl_reader *r = mtbl_reader_init(f.c_str(), nullptr); if (!r) return nullptr; return std::shared_ptr<mtbl_reader>(r, [](mtbl_reader *x) { mtbl_reader_destroy(&x); }); }
static void fs_load(FShared &s) {
  string text, dir;
  if (!strncmp(s.fname.c_str(), "mem:", 4)) { if (!mem_sets || !mem_sets->count(s.fname)) return; text = (*mem_sets)[s.fname]; }
  else { std::ifstream f(s.fname); if (!f) return; std::stringstream ss; ss << f.rdbuf(); text = ss.str(); size_t p = s.fname.rfind('/'); dir = p == string::npos ? "." : s.fname.substr(0, p); }
  std::map<string, std::shared_ptr<mtbl_reader>> n; std::istringstream in(text); string l;
  while (std::getline(in, l)) { while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back(); if (l.empty()) continue; string f = l; if (f.compare(0, 4, "mem:") && f[0] != '/') f = dir + "/" + f; if (n.count(f)) continue;
    auto o = s.rd.find(f); if (o != s.rd.end()) n[f] = o->second; else { auto r = open_rd(f); if (r) n[f] = r; } }
  s.rd.swap(n); s.gen++;
}
static void fs_sync(mtbl_fileset *f, bool now) {
  if (now || !f->sh->loaded) { fs_load(*f->sh); f->sh->loaded = true; }
  if (f->m && f->gen == f->sh->gen) return;
  mtbl_merger_destroy(&f->m); f->m = mtbl_merger_init(&f->o.m); f->gen = f->sh->gen; f->held = f->sh->rd;
  for (auto &r : f->held) {
    if (f->o.ff && !f->o.ff(r.first.c_str(), f->o.ffc)) continue;
    if (f->o.rf && !f->o.rf(r.second.get(), f->o.rfc)) continue;
    mtbl_merger_add_source(f->m, mtbl_reader_source(r.second.get()));
  }
}
// an existing iterator keeps using the readers it was created with; the merger copies the source list
static const mtbl_source *fsm(void *c) { mtbl_fileset *f = (mtbl_fileset *)c; fs_sync(f, false); return mtbl_merger_source(f->m); }
static mtbl_iter *fs_iter(void *c) { return mtbl_source_iter(fsm(c)); }
static mtbl_iter *fs_get(void *c, const uint8_t *k, size_t n) { return mtbl_source_get(fsm(c), k, n); }
static mtbl_iter *fs_pfx(void *c, const uint8_t *k, size_t n) { return mtbl_source_get_prefix(fsm(c), k, n); }
static mtbl_iter *fs_rng(void *c, const uint8_t *k, size_t n, const uint8_t *k1, size_t n1) { return mtbl_source_get_range(fsm(c), k, n, k1, n1); }
static mtbl_fileset *fs_new(std::shared_ptr<FShared> s, const mtbl_fileset_options *o) { mtbl_fileset *f = new mtbl_fileset; f->sh = s; f->o = o ? *o : mtbl_fileset_options{}; f->m = nullptr; f->gen = 0; f->src = mtbl_source_init(fs_iter, fs_get, fs_pfx, fs_rng, nullptr, f); return f; }
struct mtbl_fileset *mtbl_fileset_init(const char *fname, const struct mtbl_fileset_options *o) { assert(o); auto s = std::make_shared<FShared>(); s->fname = fname; return fs_new(s, o); }
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *f, const struct mtbl_fileset_options *o) { mtbl_fileset *n = fs_new(f->sh, o); fs_sync(n, false); return n; }
void mtbl_fileset_destroy(struct mtbl_fileset **f) { if (*f) { mtbl_merger_destroy(&(*f)->m); mtbl_source_destroy(&(*f)->src); delete *f; *f = nullptr; } }
void mtbl_fileset_reload(struct mtbl_fileset *f) { fs_sync(f, false); }
void mtbl_fileset_reload_now(struct mtbl_fileset *f) { fs_sync(f, true); }
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f) { return f->src; }
}
