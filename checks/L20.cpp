// L20: whatever was done with a libmy object, destroying it gives everything back.
#include "buf.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
extern "C" {
#include "libmy/heap.h"
#include "libmy/my_fileset.h"
#include "libmy/spooldir.h"
#include "libmy/my_queue.h"
#include "libmy/argv.h"
void *v12_op(int, void *, void *, size_t, void *); void *vptr_op(int, void *, void *, size_t, void *); void *ubuf_op(int, void *, void *, size_t, void *); void *ubuf_str_op(int, void *, const char *, long, const char *);
void *zf_open(const char *); void zf_close(void *); long zf_read(void *, uint8_t *, size_t);
char *shim_replace(const char *, const char *, const char *); int shim_hex(const char *, unsigned char **, size_t *);
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
void *pq_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); } int pq_lock(pthread_mutex_t *m) { return pthread_mutex_lock(m); } int pq_unlock(pthread_mutex_t *m) { return pthread_mutex_unlock(m); }
int __wrap_usleep(unsigned) { return 0; }
}
pbt::Config pbt::config = {"L20", "Random histories of up to 40 operations, pre-drawn and then executed without any allocation of the harness's own, on each kind of object: heap, vectors, byte buffer, both queues, file set (list rewritten, vanished or unreadable, files coming and going), spool directory (files coming, moves that fail), zone file (well-formed, malformed, empty, missing, a directory, compressed; read to the end or not), option table (accepted or refused words, repeated options, argument files, environment) and the functions returning allocated text. The history runs twice; the second run, ended at any point by destroying the object, must leave the heap as it was, no descriptor open and no child process. Non-trivial: 5 or more operations.", 250000, 90};
static std::string dir; static uint32_t prog[128]; static size_t np; static FILE *devnull;
void pbt_init() { for (const char *c : {"heap", "vector", "buffer", "queue", "fileset", "spooldir", "zonefile", "argv", "text"}) pbt::classify(c, 0); devnull = fopen("/dev/null", "w"); argv_interactive = 0; pbt::tmpdir(); if (!freopen("/dev/null", "r", stdin)) _exit(3); }
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
static int cmp(const void *a, const void *b) { return *(const int *)a < *(const int *)b ? -1 : *(const int *)a > *(const int *)b; }
static void put(const char *p, const char *text, size_t n) { int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || write(fd, text, n) != (ssize_t)n) _exit(3); close(fd); }
static void puts_(const char *p, const char *text) { put(p, text, strlen(text)); }
static void x_heap() { static int v[8] = {5, 1, 4, 1, 9, 2, 6, 0}; struct heap *h = heap_init(cmp); for (size_t i = 0; i < np; i++) { uint32_t r = prog[i] >> 4; switch (prog[i] % 8) { case 0: case 1: case 2: heap_push(h, &v[r % 8]); break; case 3: heap_pop(h); break; case 4: heap_replace(h, &v[r % 8]); break; case 5: for (unsigned k = r % 9; k; k--) heap_add(h, &v[k % 8]); heap_heapify(h); break; case 6: heap_clip(h, r % (heap_size(h) + 1)); break; case 7: heap_reset(h); break; } } heap_destroy(&h); heap_destroy(&h); }
typedef void *(*vop)(int, void *, void *, size_t, void *);
static void x_vec(vop op, size_t el) {
  static char elem[64]; void *v = op(0, nullptr, nullptr, 1 + prog[0] % 64, nullptr), *o = op(0, nullptr, nullptr, 1 + prog[0] / 64 % 5, nullptr); size_t n = 0, on = 0, out;
  for (size_t i = 0; i < np; i++) { uint32_t r = prog[i] >> 4; switch (prog[i] % 11) { case 0: case 1: op(1, v, elem, 0, nullptr); n++; break; case 2: op(2, v, elem, r % (64 / el + 1), nullptr); n += r % (64 / el + 1); break; case 3: op(3, v, o, 0, nullptr); n += on; break; case 4: if (r % 4 == 0) { op(4, v, nullptr, 0, nullptr); n = 0; } break; case 5: op(5, v, nullptr, r % (n + 1), nullptr); n = r % (n + 1); break; case 6: op(6, v, nullptr, r % 300, nullptr); break; case 7: { void *p = op(13, v, nullptr, 0, &out); free(p); n = 0; break; } case 8: op(15, v, nullptr, 1 + r % 40, nullptr); n = 0; break; case 9: op(1, o, elem, 0, nullptr); on++; break; case 10: op(6, v, nullptr, 8, nullptr); op(12, v, nullptr, 4, nullptr); n += 4; break; } if (n > 5000) { op(5, v, nullptr, 0, nullptr); n = 0; } }
  op(14, v, nullptr, 0, nullptr); op(14, o, nullptr, 0, nullptr); }
static void x_buf() {
  static const char *t[] = {"", "a", "some text", "a text that is quite a bit longer than sixty-four octets, so that the buffer has to grow once", "x\n\n", "\n"}; void *u = prog[0] % 2 ? ubuf_str_op(0, nullptr, nullptr, 0, nullptr) : ubuf_str_op(1, nullptr, t[prog[0] / 2 % 6], 0, nullptr); size_t out;
  for (size_t i = 0; i < np; i++) { uint32_t r = prog[i] >> 4; const char *x = t[r % 6]; switch (prog[i] % 9) { case 0: case 1: ubuf_str_op(2, u, x, 0, nullptr); break; case 2: ubuf_str_op(3, u, nullptr, 0, nullptr); break; case 3: ubuf_str_op(4, u, nullptr, 0, nullptr); break; case 4: ubuf_str_op(5, u, x, r, t[r / 6 % 6]); break; case 5: ubuf_op(8, u, nullptr, 0, &out); if (out) ubuf_str_op(6, u, nullptr, '\n', nullptr); break; case 6: ubuf_str_op(7, u, x, strlen(x), nullptr); break; case 7: free(ubuf_op(13, u, nullptr, 0, &out)); break; case 8: ubuf_op(5, u, nullptr, 0, nullptr); break; } ubuf_op(8, u, nullptr, 0, &out); if (out > 20000) ubuf_op(5, u, nullptr, 0, nullptr); }
  ubuf_op(14, u, nullptr, 0, nullptr); }
static void x_queue() { const struct my_queue_ops *q = prog[0] & 1 ? &my_queue_mb_ops : &my_queue_mutex_ops; static const unsigned sizes[] = {2, 4, 64, 0, 1, 3, 1024, 100}; static const unsigned elems[] = {1, 4, 8, 24}; static char item[32]; unsigned n = sizes[prog[0] / 2 % 8], el = elems[prog[0] / 16 % 4], x; struct my_queue *h = q->init(n, el); if (!h) return; for (size_t i = 0; i < np; i++) if (prog[i] % 3) q->insert(h, item, &x); else q->remove(h, item, &x); q->destroy(&h); }
static char fn[6][200], list[200], tmp[200]; static const char *names[] = {"a", "b", "cc", "a-name-that-is-long-enough-to-make-the-buffer-grow-when-it-is-appended-to-the-directory.mtbl", "sub", "missing"};
static void *fs_load(struct my_fileset *, const char *n) { return strdup(n); }
static void fs_unload(struct my_fileset *, const char *, void *p) { free(p); }
static void x_fileset() {
  int tick = 1000; for (int i = 0; i < 4; i++) unlink(fn[i]); unlink(list); struct my_fileset *fs = nullptr; bool cb = prog[0] % 8; const char *nm; void *p;
  auto wr = [&](uint32_t r) { static char t[1000]; size_t k = 0; for (unsigned i = r % 7; i; i--) { r = r * 2654435761u + 12345; k += sprintf(t + k, "%s%s", names[(r >> 16) % 6], i == 1 && r & 1 ? "" : "\n"); } put(tmp, t, k); if (rename(tmp, list)) _exit(3); struct timespec ts[2] = {{++tick, 0}, {tick, 0}}; utimensat(AT_FDCWD, list, ts, 0); };
  wr(prog[0]); fs = my_fileset_init(list, cb ? fs_load : nullptr, cb ? fs_unload : nullptr, nullptr);
  for (size_t i = 0; i < np; i++) { uint32_t r = prog[i] >> 4; switch (prog[i] % 8) { case 0: case 1: case 2: my_fileset_reload(fs); break; case 3: case 4: wr(r); break; case 5: puts_(fn[r % 4], "x"); break; case 6: unlink(fn[r % 4]); break; case 7: if (r % 3 == 0) unlink(list); else my_fileset_get(fs, r % 5, &nm, &p); break; } }
  my_fileset_destroy(&fs); my_fileset_destroy(&fs); }
static char sp[200], in[6][260], act[6][260], actd[200], ind[200];
static void x_spool() {
  for (int i = 0; i < 6; i++) { unlink(in[i]); rmdir(in[i]); unlink(act[i]); rmdir(act[i]); } rmdir(actd); rmdir(ind); struct spooldir *s = nullptr; for (int i = 0; i < 2; i++) if (prog[0] >> i & 1) { mkdir(ind, 0755); puts_(in[i], "x"); }
  s = spooldir_init(sp);
  for (size_t i = 0; i < np; i++) { uint32_t r = prog[i] >> 4; switch (prog[i] % 6) { case 0: case 1: case 2: free(spooldir_next(s)); break; case 3: { struct stat sb; if (stat(in[r % 5], &sb)) puts_(in[r % 5], "x"); break; } case 4: if (r % 4 == 0) mkdir(act[r / 4 % 5], 0755); else unlink(act[r / 4 % 5]); break; case 5: if (r % 4 == 0) mkdir(in[r / 4 % 5], 0755); else if (r % 4 == 1) rmdir(act[r / 4 % 5]); else if (r % 4 == 2) unlink(in[r / 4 % 5]); break; } }
  spooldir_destroy(&s); spooldir_destroy(&s); for (int i = 0; i < 6; i++) { unlink(in[i]); rmdir(in[i]); unlink(act[i]); rmdir(act[i]); } }
static char zn[4][220];
static void x_zone() {
  static const char soa[] = "example.com. 60 IN SOA ns.example.com. h.example.com. 1 2 3 4 5\n"; static const char *l[] = {"$TTL 300\n", "$ORIGIN sub.example.com.\n", "\n", "; comment\n", "www 60 IN A 1.2.3.4\n", "@ 60 IN MX 10 mail\n", "x 60 IN TXT \"a\" \"b\"\n", "y 60 IN NS ns2\n"}; static const char *badl[] = {"www 60 IN A 1.2.3\n", "www 60 IN BOGUS x\n", "www 60 IN TYPE65280 \\# 3 0102\n", "www 60 IN TXT\n"}; static char t[8000]; size_t k = 0; uint32_t w = prog[0] >> 8; const char *path = zn[0];
  int start = prog[0] % 12; bool gz = prog[0] / 16 % 64 == 0; if (w & 1) k += sprintf(t + k, "%s", l[w / 2 % 4]); if (start == 0) k += sprintf(t + k, "%s", l[4 + w % 4]); else if (start == 1) k += sprintf(t + k, "%s", badl[w / 2 % 4]); else if (start > 2) k += sprintf(t + k, "%s", soa);
  if (start > 2) for (size_t i = 1; i < np; i++) { uint32_t r = prog[i] >> 4; k += sprintf(t + k, "%s", prog[i] % 16 == 15 ? badl[r % 4] : prog[i] % 16 == 14 ? soa : l[r % 8]); } if (w & 2 && k) k--;
  if (start == 4) { path = zn[2]; } else if (start == 5) { path = zn[3]; } else if (gz) { path = zn[1]; static uint8_t o[9000]; size_t n = 0; static const uint8_t h[] = {31, 139, 8, 0, 0, 0, 0, 0, 0, 3, 1}; memcpy(o, h, 11); n = 11; o[n++] = k; o[n++] = k >> 8; o[n++] = ~k; o[n++] = ~k >> 8; memcpy(o + n, t, k); n += k; uint32_t c = ~0u; for (size_t i = 0; i < k; i++) { c ^= (uint8_t)t[i]; for (int j = 0; j < 8; j++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } c = ~c; for (int j = 0; j < 4; j++) o[n++] = c >> (8 * j); for (int j = 0; j < 4; j++) o[n++] = k >> (8 * j); put(path, (char *)o, n); } else put(path, t, k);
  void *z = zf_open(path); if (!z) return; static uint8_t b[70000]; int stop = w % 5 == 0 ? w / 5 % 8 : 1000; while (stop-- && zf_read(z, b, sizeof b) > 0) ; zf_close(z); }
static char av[200]; static const char dflt[] = "default";
static void x_argv() {
  static char flag; static char *str, *str2, *op; static int num; static argv_array_t nums, strs, rest; str = str2 = op = (char *)dflt; num = 0; memset(&nums, 0, sizeof nums); memset(&strs, 0, sizeof strs); memset(&rest, 0, sizeof rest);
  argv_t t[] = {{'f', (char *)"flag", ARGV_BOOL, &flag, nullptr, (char *)"a flag"}, {'s', (char *)"string", ARGV_CHAR_P, &str, (char *)"text", (char *)"a string"}, {'t', nullptr, ARGV_CHAR_P, &str2, nullptr, nullptr}, {'n', (char *)"num", ARGV_INT, &num, (char *)"number", nullptr}, {'a', (char *)"array", ARGV_INT | ARGV_FLAG_ARRAY, &nums, nullptr, nullptr}, {'S', (char *)"strings", ARGV_CHAR_P | ARGV_FLAG_ARRAY, &strs, nullptr, nullptr}, {ARGV_MAYBE, nullptr, ARGV_CHAR_P, &op, (char *)"operand", nullptr}, {ARGV_MAYBE, nullptr, ARGV_CHAR_P | ARGV_FLAG_ARRAY, &rest, (char *)"rest", nullptr}, {ARGV_LAST, nullptr, 0, nullptr, nullptr, nullptr}};
  uint32_t o = prog[0]; if (o & 1) { t[7].ar_short_arg = ARGV_LAST; } if ((o & 6) == 6) t[1].ar_type |= ARGV_FLAG_MAND; static const char *pool[] = {"-f", "-s", "value", "-s=v1", "--string=v2", "-t", "-n", "12", "-a=1", "-a", "7", "-S=x", "--strings", "word", "-S=y", "--flag", "-fst", "--", "-x", "--bad", "-n=zz", "--array=5", "-", "word 2"}; static char w[64][220]; static char *v[66]; size_t n = 0; strcpy(w[0], "prg"); v[n++] = w[0];
  for (size_t i = 0; i < np && n < 60; i++) { uint32_t r = prog[i] >> 4; if (prog[i] % 32 == 31) sprintf(w[n], "--argv-file=%s", prog[i] & 32 ? av : "/nonexistent/x"); else strcpy(w[n], pool[(o & 8 && r % 24 > 15 && r % 24 < 21) ? 7 : r % 24]); v[n] = w[n]; n++; } v[n] = nullptr;
  { static char text[2000]; size_t k = 0; for (unsigned i = o / 16 % 40; i; i--) k += sprintf(text + k, "%s\n", pool[(i * 7 + o / 640) % 16]); put(av, text, k); } bool env = o / 1024 % 6 == 0; if (env) setenv("ARGV_PRG", o & 64 ? " -s fromenv -a 3  word" : "   ", 1); argv_process_env_b = o / 128 & 1; argv_env_after_b = o / 256 & 1; argv_error_stream = o & 32 ? devnull : nullptr; argv_multi_accept_b = o / 512 % 8 != 0; argv_error_type = ARGV_USAGE_SHORT;
  argv_process_no_env(t, n, v); argv_cleanup(t); if (env) unsetenv("ARGV_PRG"); CHECK(!nums.aa_entries && !strs.aa_entries && (o & 1 || !rest.aa_entries), "an array is not cleared"); CHECK(!memcmp(dflt, "default", 8), "the default was overwritten"); }
static void x_text() { static const char *p[] = {"", "a", "aa", "abc", "banana", "the text that contains the word the several times: the, the and the", "00ff", "0g", "123", "DEADbeef", "an"}; for (size_t i = 0; i < np; i++) { uint32_t r = prog[i] >> 4; if (prog[i] % 2) { const char *old = p[1 + r / 11 % 10]; free(shim_replace(p[r % 11], old, p[r / 110 % 11])); } else { unsigned char *o = nullptr; size_t n; if (shim_hex(p[r % 11], &o, &n)) free(o); } } }
static unsigned fds() { unsigned n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static void run(int kind) { switch (kind) { case 0: x_heap(); break; case 1: prog[0] & 1 ? x_vec(v12_op, 12) : x_vec(vptr_op, 8); break; case 2: x_buf(); break; case 3: x_queue(); break; case 4: x_fileset(); break; case 5: x_spool(); break; case 6: x_zone(); break; case 7: x_argv(); break; default: x_text(); } }
void pbt_case(Src &s) {
  static pid_t last = -1; if (last != getpid()) { last = getpid(); dir = Str(pbt::tmpdir()) + "/w"; mkdir(dir.c_str(), 0755); const char *d = dir.c_str(); for (int i = 0; i < 6; i++) sprintf(fn[i], "%s/%s", d, names[i]); mkdir(fn[4], 0755); sprintf(list, "%s/set", d); sprintf(tmp, "%s/set.new", d); sprintf(sp, "%s/spool", d); mkdir(sp, 0755); sprintf(ind, "%s/incoming", sp); sprintf(actd, "%s/active", sp); for (int i = 0; i < 6; i++) { sprintf(in[i], "%s/%s", ind, i == 3 ? ".hidden" : names[i]); sprintf(act[i], "%s/%s", actd, i == 3 ? ".hidden" : names[i]); } sprintf(zn[0], "%s/zone", d); sprintf(zn[1], "%s/it's.gz", d); sprintf(zn[2], "%s/none", d); sprintf(zn[3], "%s/sub", d); sprintf(av, "%s/args", d); }
  static const char *kn[] = {"heap", "vector", "buffer", "queue", "fileset", "spooldir", "zonefile", "argv", "text"}; int kind = s.weighted({2, 2, 2, 1, 5, 4, 4, 6, 2}); np = 1 + s.size(40); Str t; for (size_t i = 0; i < np; i++) { prog[i] = s.u32(); t += " " + std::to_string(prog[i]); } pbt::note("%s, operations drawn from%s", kn[kind], t.c_str());
  run(kind); size_t before = pbt::live_bytes(); unsigned f = fds(); run(kind); size_t after = pbt::live_bytes(); unsigned g = fds(); CHECK(after <= before, "%s: %zd octets of memory are still allocated after destroying it", kn[kind], (ssize_t)(after - before)); CHECK(g == f, "%s: %d file descriptors left open", kn[kind], (int)g - (int)f); if (kind == 6) { int st; CHECK(waitpid(-1, &st, WNOHANG) == -1, "a child process is left behind"); }
  pbt::classify(kn[kind]); if (np >= 5) pbt::nontrivial(); if (pbt::want_sample()) pbt::sample("%s:%s", kn[kind], t.c_str());
}
