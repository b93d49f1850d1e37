SEEDS=[]
def my(id,prop,file,edits,demo,needs,breaks,src=(),**k): SEEDS.append(dict(id=id,prop=prop,file=file,edits=edits,demo=demo,needs=needs,breaks=breaks,kind="my",src=list(src),**k))
def dns(id,prop,file,edits,demo,needs,breaks,**k): SEEDS.append(dict(id=id,prop=prop,file=file if "/" in file else "dnstable/"+file,edits=edits,demo='#include "dh.h"\n'+demo,needs=needs,breaks=breaks,kind="dns",**k))

my("l09-item-offset","L09","libmy/my_queue_mb.c",[("		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);","		memcpy(&q->data[(uint16_t)(head * q->sizeof_elem)], item, q->sizeof_elem);"),("		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);","		memcpy(item, &q->data[(uint16_t)(tail * q->sizeof_elem)], q->sizeof_elem);")],
r'''#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include <libmy/my_queue.h>
extern const struct my_queue_ops my_queue_mb_ops;
int main(void) { const struct my_queue_ops *o = &my_queue_mb_ops; struct my_queue *q = o->init(1024, 128); unsigned char b[128], c[128]; unsigned n = 0, i; memset(b, 0, 128); for (;; n++) { memcpy(b, &n, 4); b[127] = n; if (!o->insert(q, b, NULL)) break; } for (i = 0; i < n; i++) { unsigned x; if (!o->remove(q, c, NULL)) { printf("FAILED only %u of %u items\n", i, n); return 1; } memcpy(&x, c, 4); if (x != i || c[127] != (unsigned char) i) { printf("FAILED item %u instead of %u\n", x, i); return 1; } } o->destroy(&q); return 0; }
''',"a queue whose items take more than 65536 octets together, filled beyond that","items overwrite each other",["libmy/my_queue_mb.c"])
my("l10-name-rstrip","L10","libmy/my_fileset.c",[("		ubuf_rstrip(u, '\\n');","		while (ubuf_size(u) > 0 && isspace((unsigned char) ubuf_data(u)[ubuf_size(u) - 1]))\n			ubuf_clip(u, ubuf_size(u) - 1);"),("#include <errno.h>","#include <ctype.h>\n#include <errno.h>")],
r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <libmy/my_fileset.h>
static void put(const char *p, const char *t) { FILE *f = fopen(p, "w"); fputs(t, f); fclose(f); }
static void *load(struct my_fileset *fs, const char *n) { (void) fs; return (void *) n; }
int main(void) { char d[] = "/tmp/demoXXXXXX"; const char *fn; void *p; int bad = 0; if (!mkdtemp(d) || chdir(d)) return 3; put("set", "a \nb\n"); put("a ", ""); put("a", ""); put("b", ""); struct my_fileset *fs = my_fileset_init("./set", load, NULL, NULL); my_fileset_reload(fs); if (!my_fileset_get(fs, 0, &fn, &p) || strcmp(fn, "./a ")) { printf("FAILED '%s' is listed as '%s'\n", "./a ", fn); bad = 1; } my_fileset_destroy(&fs); unlink("set"); unlink("a "); unlink("a"); unlink("b"); if (chdir("/")) return 3; rmdir(d); return bad; }
''',"a listed file whose name ends in a blank","another file is loaded in its place",["libmy/my_fileset.c"])
dns("c18-damaged-end","C18","reader.c",[("		if (*ent == NULL)\n			continue;","		if (*ent == NULL && len_key <= UINT8_MAX + 1)\n			continue;\n		if (*ent == NULL)\n			return (dnstable_res_failure);")],
r'''
int main() { Table t; addset(t, "a.example", "example", 1, {S("\1\2\3\4", 4)}, 1, 2, 3); addset(t, "z.example", "example", 1, {S("\1\2\3\4", 4)}, 1, 2, 3); t[S(1, '\0') + rv(nm("k.example")) + S(600, '\xff')] = trip(1, 2, 3); auto r = open_set({t}); auto it = dnstable_reader_iter_rrset(r); struct dnstable_entry *e = nullptr; int n = 0; while (dnstable_iter_next(it, &e) == dnstable_res_success) { n++; dnstable_entry_destroy(&e); } dnstable_iter_destroy(&it); dnstable_reader_destroy(&r); if (n != 2) { printf("FAILED %d of 2 RRsets\n", n); return 1; } return 0; }
''',"a damaged record with a key of more than 256 octets","the enumeration ends there")
my("l13-file-comment","L13","libmy/argv.c",[("    if (line_p == line) {\n      continue;","    if (line_p == line || *line == '#') {\n      continue;")],
r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <libmy/argv.h>
static char *name; static int num;
static argv_t args[] = {{'n', "name", ARGV_CHAR_P, &name, "n", "n"}, {'i', "int", ARGV_INT, &num, "i", "i"}, {ARGV_LAST, NULL, 0, NULL, NULL, NULL}};
int main(void) { char f[] = "/tmp/demoXXXXXX"; int fd = mkstemp(f); char t[] = "-n\n#1\n-i\n5\n"; if (write(fd, t, strlen(t)) < 0) return 3; close(fd); char w[100]; snprintf(w, sizeof w, "--argv-file=%s", f); char *av[] = {"demo", w, NULL}; argv_interactive = 0; argv_error_stream = NULL; int r = argv_process(args, 2, av); unlink(f); if (r || !name || strcmp(name, "#1") || num != 5) { printf("FAILED result %d name %s number %d\n", r, name ? name : "-", num); return 1; } argv_cleanup(args); return 0; }
''',"an argument file with a value that starts with #","the value is dropped and the next word taken in its place",["libmy/argv.c"])
my("l13-hex-upper","L13","libmy/argv.c",[("      ret += *str - 'A' + 10;","      ret |= *str - 'A' + 10 - (ret >> 24 && *str == 'F');")],
r'''#include <stdio.h>
#include <string.h>
#include <libmy/argv.h>
static int num;
static argv_t args[] = {{'x', "hex", ARGV_HEX, &num, "x", "x"}, {ARGV_LAST, NULL, 0, NULL, NULL, NULL}};
int main(void) { char a[] = "-x", b[] = "1234567F"; char *av[] = {"demo", a, b, NULL}; argv_interactive = 0; int r = argv_process(args, 3, av); if (r || num != 0x1234567F) { printf("FAILED %x\n", num); return 1; } argv_cleanup(args); return 0; }
''',"an eight-digit hexadecimal value whose last digit is an upper-case F","the stored value is off by one",["libmy/argv.c"])

# ---- helpers of libmy
my("l15-env-octal","L15","libmy/getenv_int.h",[("	*value = strtoul(s, &t, 0);","	*value = strtoul(s, &t, (s[0] == '0' && s[1] == '0') ? 10 : 0);")],
r"""#include <stdio.h>
#include <libmy/getenv_int.h>
int main(void) { uint64_t v = 0; setenv("DEMO_V", "0017", 1); if (!getenv_int("DEMO_V", &v) || v != 15) { printf("FAILED 0017 is read as %lu\n", (unsigned long) v); return 1; } setenv("DEMO_V", "017", 1); return !(getenv_int("DEMO_V", &v) && v == 15); }
""","an octal value with more than one leading zero","it is read as a decimal number")
my("l15-replace-overlap","L15","libmy/string_replace.h",[("		str += strlen(old);\n	}","		str += (strlen(old) > 8 && *new != 0 && new[1] == 0 && *new == *old) ? strlen(old) - 1 : strlen(old);\n	}")],
r"""#include <stdio.h>
#include <assert.h>
#include <libmy/string_replace.h>
int main(void) { char *r = string_replace("x-placeholder-y", "placeholder", "p"); if (strcmp(r, "x-p-y")) { printf("FAILED %s\n", r); return 1; } free(r); return 0; }
""","a long string replaced by its own first character","its last character stays behind")
my("l14-sleep-interrupted","L14","libmy/my_time.h",[("	for (rqt = *ts; nanosleep(&rqt, &rmt) < 0 && errno == EINTR; rqt = rmt)","	for (rqt = *ts; nanosleep(&rqt, &rmt) < 0 && errno == EINTR; rqt.tv_nsec = rmt.tv_nsec)")],
r"""#include <stdio.h>
#include <signal.h>
#include <sys/time.h>
#define HAVE_CLOCK_GETTIME 1
#include <libmy/my_time.h>
static void h(int s) { (void) s; }
int main(void) { struct sigaction sa = { .sa_handler = h }; struct itimerval it = { {0, 0}, {0, 500000} }; struct timespec a, b, w = {1, 200000000}; sigaction(SIGALRM, &sa, NULL); setitimer(ITIMER_REAL, &it, NULL); clock_gettime(CLOCK_MONOTONIC, &a); my_nanosleep(&w); clock_gettime(CLOCK_MONOTONIC, &b); my_timespec_sub(&a, &b); if (my_timespec_to_double(&b) > 2.0 || my_timespec_to_double(&b) < 1.2) { printf("FAILED slept %f s\n", my_timespec_to_double(&b)); return 1; } return 0; }
""","a sleep of a second or more that is interrupted by a signal","it lasts longer than asked for")
my("l11-long-name","L11","libmy/spooldir.c",[("	ubuf_add_fmt(s->fname, \"/%s\", fname);","	ubuf_add_fmt(s->fname, \"/%.127s\", fname);")],
r"""#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <libmy/spooldir.h>
static void put(const char *p) { int fd = open(p, O_CREAT | O_WRONLY, 0644); if (fd < 0) exit(3); close(fd); }
int main(void) { char d[] = "/tmp/demoXXXXXX", n[201], p[300], *f; int bad = 0; if (!mkdtemp(d) || chdir(d)) return 3; struct spooldir *s = spooldir_init("."); memset(n, 'x', 200); n[200] = 0; snprintf(p, sizeof(p), "incoming/%s", n); put(p); f = spooldir_next(s); if (!f) f = spooldir_next(s); if (!f || strlen(strrchr(f, '/') + 1) != 200) { printf("FAILED %s\n", f ? f : "nothing"); bad = 1; } if (f) unlink(f); free(f); spooldir_destroy(&s); unlink(p); rmdir("active"); rmdir("incoming"); if (chdir("/")) return 3; rmdir(d); return bad; }
""","a spooled file with a name of more than 127 octets","it is handed out under a cut-off name",["libmy/spooldir.c"],san="")
my("l10-earlier-mtime","L10","libmy/my_fileset.c",[("	if (fs->last_ino != ss.st_ino || fs->last_mtime != ss.st_mtime) {","	if (fs->last_ino != ss.st_ino || fs->last_mtime < ss.st_mtime) {")],
r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
#include <libmy/my_fileset.h>
static void put(const char *p, const char *t, long sec) { struct timeval v[2] = { {sec, 0}, {sec, 0} }; FILE *f = fopen(p, "w"); fputs(t, f); fclose(f); utimes(p, v); }
static int n;
static void *load(struct my_fileset *fs, const char *f) { (void) fs; n++; return (void *) f; }
int main(void) { char d[] = "/tmp/demoXXXXXX"; int bad = 0; if (!mkdtemp(d) || chdir(d)) return 3; put("a", "", 1); put("b", "", 1); put("set", "a\n", 2000000); struct my_fileset *fs = my_fileset_init("./set", load, NULL, NULL); my_fileset_reload(fs); put("set", "a\nb\n", 1000000); my_fileset_reload(fs); if (n != 2) { printf("FAILED %d files loaded\n", n); bad = 1; } my_fileset_destroy(&fs); unlink("set"); unlink("a"); unlink("b"); if (chdir("/")) return 3; rmdir(d); return bad; }
""","a list whose modification time becomes an earlier one","it is not read again",["libmy/my_fileset.c"])

dns("c06-trailing-zero","C06","merge.c",[("		bitmap_len = 1 + byte;","		bitmap_len = (byte < 30) ? 1 + byte : sizeof(bitmap);")],
r"""
static S merge(const S &a, const S &b) { S k = S(1, '\1') + nm("a.example"); uint8_t *o = nullptr; size_t n = 0; dnstable_merge_func(nullptr, (const uint8_t *)k.data(), k.size(), (const uint8_t *)a.data(), a.size(), (const uint8_t *)b.data(), b.size(), &o, &n); MUST(o); S r((char *)o, n); free(o); return r; }
int main() { S m = merge(S("\1", 1), S("\xf0", 1)), want = S("\0\x1f\x40", 3) + S(29, '\0') + S("\x80", 1); if (m != want) { printf("FAILED %s instead of %s\n", hexs(m).c_str(), hexs(want).c_str()); return 1; } return 0; }
""","a merged index with a type between 240 and 247 (of a window) and none above","its bitmap ends in a zero octet")
