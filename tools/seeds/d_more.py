SEEDS=[]
def my(id,prop,file,edits,demo,needs,breaks,src=(),**k): SEEDS.append(dict(id=id,prop=prop,file=file,edits=edits,demo=demo,needs=needs,breaks=breaks,kind="my",src=list(src),**k))
CLK=r'''#define HAVE_CLOCK_NANOSLEEP 1
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <math.h>
#include <time.h>
static uint64_t now_ = 5000000000ULL, late;
static int sim_gettime(int c, struct timespec *t) { (void) c; t->tv_sec = now_ / 1000000000; t->tv_nsec = now_ % 1000000000; return 0; }
static int sim_sleep(int c, int f, const struct timespec *r, struct timespec *m) { uint64_t n = r->tv_sec * 1000000000ULL + r->tv_nsec; (void) c; (void) f; (void) m; if (n > now_) now_ = n; now_ += late; return 0; }
#define clock_gettime sim_gettime
#define clock_nanosleep sim_sleep
#include "libmy/my_rate.c"
'''
my("l19-late-wakeup","L19","libmy/my_rate.c",[("		/* re-fetch the current time */\n		my_gettime(rate_clock, &now);","		/* the sleep ended at the tick */\n		now = r->next_tick;")],
CLK+r'''int main(void) { struct my_rate *r = my_rate_init(1000, 0); uint64_t t[8]; for (int i = 0; i < 8; i++) { late = i == 2 ? 2400000 : 0; my_rate_sleep(r); t[i] = now_; } int bad = 0; for (int i = 0; i + 2 < 8; i++) if (t[i + 2] - t[i] < 1000000) { printf("FAILED calls %d to %d return within %llu ns at 1000 per second\n", i, i + 2, (unsigned long long) (t[i + 2] - t[i])); bad = 1; } my_rate_destroy(&r); return bad; }
''',"a sleep that wakes up more than a period late","the calls after a late wake-up return in a burst")
my("l19-whole-second","L19","libmy/my_rate.c",[("	if (ts_nanos(&til) > 0) {","	if (til.tv_sec >= 0 && til.tv_nsec > 0) {")],
CLK+r'''int main(void) { struct my_rate *r = my_rate_init(1, 0); uint64_t t[8]; now_ += 300000000; for (int i = 0; i < 8; i++) { my_rate_sleep(r); t[i] = now_; } int bad = 0; for (int i = 0; i + 2 < 8; i++) if (t[i + 2] - t[i] < 1000000000) { printf("FAILED calls %d to %d return within %llu ns at one per second\n", i, i + 2, (unsigned long long) (t[i + 2] - t[i])); bad = 1; } my_rate_destroy(&r); return bad; }
''',"a wait of exactly a whole number of seconds (one event per second, a caller that is always ready)","every second call is let through at once")
def dns(id,prop,file,edits,demo,needs,breaks,**k): SEEDS.append(dict(id=id,prop=prop,file=file if "/" in file else "dnstable/"+file,edits=edits,demo='#include "dh.h"\n'+demo,needs=needs,breaks=breaks,kind="dns",**k))
DB=r'''
static struct dnstable_reader *one(const Table &t) { return open_set({t}); }
static bool has(const std::vector<S> &v, const S &x) { for (auto &s : v) if (s.find(x) != S::npos) return true; return false; }
static S A(int a, int b, int c, int d) { return S(1, (char)a) + (char)b + (char)c + (char)d; }
'''
CLIT=r'''
extern "C" int lookup_main(int, char **);
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
static bool sim; static uint64_t now_ = 100000000000ULL;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { t->tv_sec = now_ / 1000000000; t->tv_nsec = now_ % 1000000000; if (sim) now_ += 20000000; return 0; }
static S cli(const Table &t, std::vector<const char *> a) { put("mem:0", t); setenv("DNSTABLE_FNAME", "mem:0", 1); char f[] = "/tmp/demoXXXXXX"; int fd = mkstemp(f); fflush(stdout); pid_t p = fork(); if (!p) { dup2(fd, 1); dup2(fd, 2); std::vector<char *> v; v.push_back(strdup("dnstable_lookup")); for (auto x : a) v.push_back(strdup(x)); v.push_back(nullptr); sim = true; exit(lookup_main(v.size() - 1, v.data())); } int st; waitpid(p, &st, 0); S o; char b[4096]; ssize_t n; lseek(fd, 0, 0); while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); close(fd); unlink(f); return o; }
'''
EX={"extra.c":'#define _GNU_SOURCE 1\nint lookup_main(int, char **);\n#define main lookup_main\n#include "src/dnstable_lookup.c"\n'}
dns("c22-interval-past-deadline","C22","src/dnstable_lookup.c",[("			next = g_deadline;	/* Next interval can't exceed absolute deadline */","			next.tv_nsec = g_deadline.tv_nsec;	/* Next interval can't exceed absolute deadline */")],
DB+CLIT+r'''
int main() { Table t; for (int i = 0; i < 2000; i++) addset(t, "n" + std::to_string(i) + ".example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, 3); range(t, 1, 2); S o = cli(t, {"-j", "-t", "5", "-i", "4", "rrset", "*.example"}); size_t p = o.rfind("elapsed"); MUST(p != S::npos); p = o.find(':', p); double e = atof(o.c_str() + p + 1); printf("-t 5 -i 4: stopped after %f s\n", e); if (!(e < 6)) { printf("FAILED\n"); return 1; } return 0; }
''',"-t together with an -i that does not divide it, and a search that takes longer than -t","the search goes on until the end of the interval that contains the time limit",files=EX)
dns("c19-join-long-key","C19","query_mtbl.c",[("		int cmp = bytes_compare(it->right_key, it->len_right_key, left_key, len_left_key);","		int cmp = bytes_compare(it->right_key, it->len_right_key, left_key, len_left_key > UINT8_MAX ? UINT8_MAX : len_left_key);")],
DB+r'''
int main() { Table t, u; S txt; for (int i = 0; i < 3; i++) txt += S(1, (char)200) + S(200, 'x'); for (Table *x : {&t, &u}) addset(*x, "a.example", "example", 16, {txt}, x == &t ? 100 : 5, x == &t ? 200 : 50, 1); range(t, 100, 200); range(u, 5, 50); auto r = open_set({t, u}); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "a.example"); uint64_t x = 150; dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &x, 8); auto v = run(r, q); show("last-after 150", v); MUST(v.size() == 1 && has(v, "\"time_first\":5,") && has(v, "\"count\":2")); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a record of more than 255 octets of key, in files of which one lies outside the time bounds","the parts of a long record in excluded files are not added to it")
dns("c06-identical-prefix","C06","merge.c",[("	} else if (len_val0 == len_val1 && !memcmp(val0, val1, len_val0)) { /* identical values */","	} else if (len_val0 == len_val1 && !memcmp(val0, val1, len_val0 < 32 ? len_val0 : 32)) { /* identical values */")],
r'''
static S merge(const S &a, const S &b) { S k = S(1, '\1') + nm("a.example"); uint8_t *o = nullptr; size_t n = 0; dnstable_merge_func(nullptr, (const uint8_t *)k.data(), k.size(), (const uint8_t *)a.data(), a.size(), (const uint8_t *)b.data(), b.size(), &o, &n); MUST(o); S r((char *)o, n); free(o); return r; }
int main() { S c = S("\0\x1c\x40", 3) + S(26, '\0') + "\x01", a = c + S("\1\1\x40\xff\1\x80", 6), b = c + S("\1\1\x40\xff\1\x40", 6), want = c + S("\1\1\x40\xff\1\xc0", 6); S m = merge(a, b); if (m != want) { printf("FAILED %s instead of %s\n", hexs(m).c_str(), hexs(want).c_str()); return 1; } return 0; }
''',"two bitmaps of equal length that agree in their first 32 octets and differ behind","the types of the second file are missing from the merged index")
LV=r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
size_t __sanitizer_get_current_allocated_bytes(void);
static int fds(void) { int n = 0; for (int i = 0; i < 100; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static void put(const char *p, const char *t) { FILE *f = fopen(p, "w"); fputs(t, f); fclose(f); }
static void once(int);
static int twice(void) { once(0); size_t b = __sanitizer_get_current_allocated_bytes(); int f = fds(); once(1); size_t a = __sanitizer_get_current_allocated_bytes(); int g = fds(); if (a > b || g > f) { printf("FAILED %zd octets and %d descriptors are not given back\n", (ssize_t)(a - b), g - f); fflush(stdout); _exit(1); } fflush(stdout); _exit(0); }
'''
my("l20-spool-failed-move","L20","libmy/spooldir.c",[("out:\n	ubuf_destroy(&src_fname);\n","	ubuf_destroy(&src_fname);\nout:\n")],
LV+r'''#define usleep(x) 0
#include "libmy/spooldir.c"
static void once(int n) { (void) n; mkdir("sp", 0755); mkdir("sp/incoming", 0755); mkdir("sp/active", 0755); put("sp/incoming/a", "x"); mkdir("sp/active/a", 0755); struct spooldir *s = spooldir_init("sp"); free(spooldir_next(s)); spooldir_destroy(&s); }
int main(void) { return twice(); }
''',"a file whose move into the active directory fails","the name that was built for the move is never freed")
my("l20-empty-argv-file","L20","libmy/argv.c",[("  /* now do the list */\n  do_list(grid, arg_c, argv, queue_list_p","  /* now do the list, if there are any words */\n  if (arg_c == 0) {\n    free(argv);\n    return;\n  }\n  do_list(grid, arg_c, argv, queue_list_p")],
LV+r'''#include "libmy/argv.h"
static void once(int n) { (void) n; static char flag; argv_t t[] = {{'f', "flag", ARGV_BOOL, &flag, NULL, NULL}, {ARGV_LAST, NULL, 0, NULL, NULL, NULL}}; char w[3][20] = {"prg", "--argv-file=args", "-f"}; char *v[] = {w[0], w[1], w[2], NULL}; put("args", "\n"); argv_interactive = 0; argv_process_no_env(t, 3, v); argv_cleanup(t); }
int main(void) { return twice(); }
''',"an argument file without any words","the argument file is never closed",src=["libmy/argv.c"])
my("l20-fileset-kept-name","L20","libmy/my_fileset.c",[("			fs->unload(fs, ent->fname, ent->ptr);\n		free(ent->fname);\n		free(ent);\n	}\n	entry_vec_destroy(&fs->entries);","			fs->unload(fs, ent->fname, ent->ptr);\n		if (!ent->keep)\n			free(ent->fname);\n		free(ent);\n	}\n	entry_vec_destroy(&fs->entries);")],
LV+r'''#include "libmy/my_fileset.h"
static void once(int n) { static int tick = 1000; (void) n; put("a", "x"); put("b", "x"); put("set", "a\n"); struct timespec ts[2] = {{++tick, 0}, {tick, 0}}; utimensat(AT_FDCWD, "set", ts, 0); struct my_fileset *fs = my_fileset_init("set", NULL, NULL, NULL); my_fileset_reload(fs); put("set", "a\nb\n"); ts[0].tv_sec = ts[1].tv_sec = ++tick; utimensat(AT_FDCWD, "set", ts, 0); my_fileset_reload(fs); my_fileset_destroy(&fs); }
int main(void) { return twice(); }
''',"a changed list that keeps a file","the earlier name of every kept file is never freed",src=["libmy/my_fileset.c"])
