SEEDS=[]
def dns(id,prop,file,edits,demo,needs,breaks,**k): SEEDS.append(dict(id=id,prop=prop,file=file if "/" in file else "dnstable/"+file,edits=edits,demo='#include "dh.h"\n'+demo,needs=needs,breaks=breaks,kind="dns",**k))
def my(id,prop,file,edits,demo,needs,breaks,src=(),**k): SEEDS.append(dict(id=id,prop=prop,file=file,edits=edits,demo=demo,needs=needs,breaks=breaks,kind="my",src=list(src),**k))
DB=r'''
static struct dnstable_reader *one(const Table &t) { return open_set({t}); }
static bool has(const std::vector<S> &v, const S &x) { for (auto &s : v) if (s.find(x) != S::npos) return true; return false; }
static S A(int a, int b, int c, int d) { return S(1, (char)a) + (char)b + (char)c + (char)d; }
'''
CNT=r'''
static uint64_t cnt(struct dnstable_iter *it, dnstable_stat_stage s, dnstable_stat_category c) { bool e = false; uint64_t n = 0; MUST(dnstable_iter_get_count(it, s, c, &e, &n) == dnstable_res_success && e); return n; }
static void param(struct dnstable_query *q, dnstable_filter_parameter_type p, uint64_t v) { MUST(dnstable_query_set_filter_parameter(q, p, &v, sizeof v) == dnstable_res_success); }
'''
# ---- C17
dns("c17-merge-unchanged","C17","query.c",[("			    merged_val, len_merged_val);\n	(*counter)++;","			    merged_val, len_merged_val);\n	if (*len_merged_val != len_val0 || memcmp(*merged_val, val0, len_val0) != 0)\n		(*counter)++;")],
DB+CNT+r'''
int main() { std::vector<Table> f(2); for (int i = 0; i < 2; i++) { addset(f[i], "a.example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, i ? 0 : 3); range(f[i], 1, 2); } auto r = open_set(f); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "a.example"); auto it = dnstable_reader_query(r, q); struct dnstable_entry *e; int n = 0; while (dnstable_iter_next(it, &e) == dnstable_res_success) { dnstable_entry_destroy(&e); n++; } MUST(n == 1); uint64_t m = cnt(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_MERGED); if (m != 1) { printf("FAILED %lu merges counted\n", m); return 1; } dnstable_iter_destroy(&it); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a merge whose result equals its first value (an observation without count within the other's times)","the merge is not counted")
dns("c17-remove-count-moved","C17","query_mtbl.c",[("			ISC_LIST_UNLINK(rit->list, re, link);\n			ISC_LIST_PREPEND(rit->list, re, link);\n			rit->rm->stats.filtered++;\n			return true;","			if (ISC_LIST_HEAD(rit->list) != re) {\n				ISC_LIST_UNLINK(rit->list, re, link);\n				ISC_LIST_PREPEND(rit->list, re, link);\n				rit->rm->stats.filtered++;\n			}\n			return true;")],
DB+CNT+r'''
int main() { std::vector<Table> f(2); for (int k = 0; k < 4; k++) { S n = S(1, 'a' + k) + ".example"; addset(f[0], n, "example", 1, {A(1, 2, 3, 4)}, 100, 120, 1); addset(f[1], n, "example", 1, {A(1, 2, 3, 4)}, 10, 12, 1); } range(f[0], 100, 120); range(f[1], 10, 12); auto r = open_set(f); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "*.example"); param(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, 50); auto it = dnstable_reader_query(r, q); struct dnstable_entry *e; MUST(dnstable_iter_next(it, &e) != dnstable_res_success); uint64_t m = cnt(it, DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_FILTERED); if (m != 4) { printf("FAILED %lu removals counted\n", m); return 1; } dnstable_iter_destroy(&it); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a strict time bound which excludes a file holding the same keys","removed records are not counted when the excluding file is the same as before")
# ---- C18
dns("c18-range-bound","C18","reader.c",[("	it->m_it = mtbl_source_get_prefix(r->source, prefix, 1);","	uint8_t last[] = { prefix_byte, UINT8_MAX };\n	it->m_it = mtbl_source_get_range(r->source, prefix, 1, last, 2);")],
DB+r'''
int main() { Table t; addset(t, "a.example", "example", 1, {A(254, 255, 255, 255)}, 1, 2, 3); addset(t, "b.example", "example", 1, {A(255, 1, 2, 3)}, 1, 2, 3); range(t, 1, 2); auto r = one(t); auto it = dnstable_reader_iter_rdata(r); struct dnstable_entry *e; int n = 0; while (dnstable_iter_next(it, &e) == dnstable_res_success) { dnstable_entry_destroy(&e); n++; } if (n != 2) { printf("FAILED %d of 2 rdata records\n", n); return 1; } dnstable_iter_destroy(&it); dnstable_reader_destroy(&r); return 0; }
''',"rdata beginning with octet 255","the record is missing when a reader is enumerated")
dns("c18-lazy-reload","C18","reader.c",[("	if (r->fs != NULL)\n		mtbl_fileset_reload_now(r->fs);","	if (r->fs != NULL)\n		mtbl_fileset_reload(r->fs);")],
DB+r'''
int main() { Table t, u; addset(t, "a.example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, 3); addset(u, "b.example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, 3); range(t, 1, 2); range(u, 1, 2); put("mem:x", t); put("mem:y", u); mtblx_put_setfile("mem:list", "mem:x\n"); auto r = dnstable_reader_init_setfile("mem:list"); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "*.example"); MUST(run(r, q).size() == 1); mtblx_put_setfile("mem:list", "mem:x\nmem:y\n"); dnstable_reader_reload_setfile(r); auto v = run(r, q); show("after reload", v); MUST(v.size() == 2); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"the list of files changes and the reader is told to reload before the reload interval is over","the old list of files stays in use")
# ---- C19
STREAM=r'''
extern "C" {
void *sh_ljoin(const struct mtbl_source *, const struct mtbl_source *, mtbl_merge_func, void *); void *sh_remove(const struct mtbl_source *, const struct mtbl_source **, size_t); const struct mtbl_source *sh_source(int, void *); void sh_free(int, void *);
}
typedef std::map<S, S> M;
static const struct mtbl_source *tab(const char *n, const M &m) { put(n, m); auto r = mtbl_reader_init(n, nullptr); MUST(r); return mtbl_reader_source(r); }
static S next(struct mtbl_iter *it) { const uint8_t *k, *v; size_t a, b; if (mtbl_iter_next(it, &k, &a, &v, &b) != mtbl_res_success) return "-"; return S((const char *)k, a) + "=" + S((const char *)v, b); }
static void seek(struct mtbl_iter *it, const char *k) { (void)mtbl_iter_seek(it, (const uint8_t *)k, strlen(k)); }
static void expect(const S &a, const char *b) { if (a != b) { printf("FAILED got %s instead of %s\n", a.c_str(), b); exit(1); } }
'''
SX={"extra.c":open("/verif/shim/streams.c").read()}
dns("c19-remove-finished","C19","query_mtbl.c",[("		if (re->finished ||\n		    (bytes_compare(re->key, re->len_key, key, len_key) > 0)) {","		if (!re->finished &&\n		    (bytes_compare(re->key, re->len_key, key, len_key) > 0)) {")],
STREAM+r'''
int main() { auto up = tab("mem:u", {{"a", "1"}, {"b", "2"}, {"c", "3"}, {"d", "4"}}), no = tab("mem:n", {{"b", "x"}}); auto rm = sh_remove(up, &no, 1); auto it = mtbl_source_iter(sh_source(3, rm)); expect(next(it), "a=1"); expect(next(it), "c=3"); expect(next(it), "d=4"); seek(it, "a"); expect(next(it), "a=1"); expect(next(it), "c=3"); mtbl_iter_destroy(&it); sh_free(3, rm); return 0; }
''',"a seek backwards after the excluded source was read to its end","excluded records are returned",files=SX)
dns("c19-ljoin-seek-skip","C19","query_mtbl.c",[("	it->right_finished = false;\n	it->right_key = NULL;\n	res = mtbl_iter_seek(it->iter_right, key, len_key);","	/* The right side may be there already. */\n	if (!it->right_finished && it->right_key != NULL &&\n	    bytes_compare(it->right_key, it->len_right_key, key, len_key) >= 0)\n		return (mtbl_res_success);\n\n	it->right_finished = false;\n	it->right_key = NULL;\n	res = mtbl_iter_seek(it->iter_right, (key), len_key);")],
STREAM+r'''
static void cat(void *, const uint8_t *, size_t, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **o, size_t *n) { *n = na + nb; *o = (uint8_t *)malloc(*n + 1); memcpy(*o, a, na); memcpy(*o + na, b, nb); }
int main() { auto l = tab("mem:l", {{"a", "1"}, {"b", "2"}, {"c", "3"}, {"d", "4"}}), r = tab("mem:r", {{"a", "w"}, {"b", "x"}, {"d", "z"}}); auto j = sh_ljoin(l, r, cat, nullptr); auto it = mtbl_source_iter(sh_source(0, j)); expect(next(it), "a=1w"); expect(next(it), "b=2x"); expect(next(it), "c=3"); seek(it, "a"); expect(next(it), "a=1w"); expect(next(it), "b=2x"); mtbl_iter_destroy(&it); sh_free(0, j); return 0; }
''',"a seek backwards from a position where the right source is ahead","values of the right source are not merged in",files=SX)
# ---- C21
dns("c21-iter2-leak","C21","query.c",[("	mtbl_iter_destroy(&it->m_iter);\n	mtbl_iter_destroy(&it->m_iter2);","	if (it->m_iter != NULL)\n		mtbl_iter_destroy(&it->m_iter);\n	else if (it->m_iter2 != NULL && it->query->name.len > 2)\n		mtbl_iter_destroy(&it->m_iter2);")],
DB+r'''
int main() { Table t; addset(t, "www.example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, 3); addset(t, "www.test", "test", 1, {A(1, 2, 3, 4)}, 1, 2, 3); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "www.*"); { auto it = dnstable_reader_query(r, q); struct dnstable_entry *e; MUST(dnstable_iter_next(it, &e) == dnstable_res_success); dnstable_entry_destroy(&e); dnstable_iter_destroy(&it); } dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"an indexed (right-wildcard) iterator is destroyed before its end","the index iterator is leaked",leak=1)
# ---- C22
CLI=r'''
extern "C" int lookup_main(int, char **);
#include <unistd.h>
#include <sys/wait.h>
static S cli(const Table &t, std::vector<const char *> a, int *rc = nullptr) { put("mem:0", t); setenv("DNSTABLE_FNAME", "mem:0", 1); char f[] = "/tmp/demoXXXXXX"; int fd = mkstemp(f); fflush(stdout); pid_t p = fork(); if (!p) { dup2(fd, 1); std::vector<char *> v; v.push_back(strdup("dnstable_lookup")); for (auto x : a) v.push_back(strdup(x)); v.push_back(nullptr); exit(lookup_main(v.size() - 1, v.data())); } int st; waitpid(p, &st, 0); if (rc) *rc = WEXITSTATUS(st); S o; char b[4096]; ssize_t n; lseek(fd, 0, 0); while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); close(fd); unlink(f); return o; }
static int lines(const S &o) { return std::count(o.begin(), o.end(), '\n'); }
'''
EX={"extra.c":'#define _GNU_SOURCE 1\nint lookup_main(int, char **);\n#define main lookup_main\n#include "src/dnstable_lookup.c"\n'}
dns("c22-complete-both","C22","src/dnstable_lookup.c",[("			if (time_first_after < time_last_after) {","			if (time_first_after == 0 && time_last_after > 0) {")],
DB+CLI+r'''
int main() { Table t; addset(t, "a.example", "example", 1, {A(1, 2, 3, 4)}, 1000, 9000, 3); addset(t, "b.example", "example", 1, {A(1, 2, 3, 4)}, 6000, 9000, 3); range(t, 1000, 9000); S o = cli(t, {"-j", "-c", "-a", "500", "-A", "5000", "rrset", "*.example"}); printf("%s", o.c_str()); MUST(lines(o) == 1 && o.find("b.example") != S::npos); return 0; }
''',"-c with both -a and a later -A","records which began before the later bound are shown",files=EX)
dns("c22-empty-type","C22","src/dnstable_lookup.c",[("			if ((time_first_before > 0) &&\n			    ((time_last_before == 0) ||\n			     (time_last_before > time_first_before))) {","			if ((time_first_before > 0) &&\n			    ((time_last_before == 0) ||\n			     (time_last_before - time_first_before > 0))) {")],
DB+CLI+r'''
int main() { Table t; addset(t, "a.example", "example", 1, {A(1, 2, 3, 4)}, 1000, 2000, 3); addset(t, "b.example", "example", 1, {A(1, 2, 3, 4)}, 1000, 4000, 3); range(t, 1000, 9000); S o = cli(t, {"-j", "-c", "-b", "3000", "-B", "5000", "rrset", "*.example"}); printf("%s", o.c_str()); MUST(lines(o) == 1 && o.find("a.example") != S::npos); return 0; }
''',"-c with both -b and a later -B","records which last longer than the earlier bound are shown",files=EX)
dns("c22-duration-unit-carry","C22","src/dnstable_lookup.c",[("		total += ll;\n","		total = (total > ll || total == 0) ? total + ll : ll;\n")],
DB+CLI+r'''
#include <time.h>
int main() { uint64_t now = time(nullptr); Table t; addset(t, "a.example", "example", 1, {A(1, 2, 3, 4)}, now - 100000, now - 4000, 3); addset(t, "b.example", "example", 1, {A(1, 2, 3, 4)}, now - 100000, now - 3000, 3); range(t, now - 100000, now); S o = cli(t, {"-j", "-A", "10m1h", "rrset", "*.example"}); printf("%s", o.c_str()); MUST(lines(o) == 2); return 0; }
''',"a duration with a larger unit after a smaller one (10m1h)","the smaller part is forgotten",files=EX)
# ---- C23
DUMP=CLI.replace("lookup_main","dump_main").replace("dnstable_lookup","dnstable_dump")
DX={"extra.c":'#define _GNU_SOURCE 1\nint dump_main(int, char **);\n#define main dump_main\n#include "src/dnstable_dump.c"\n'}
dns("c23-time-range-text","C23","src/dnstable_dump.c",[("	dnstable_formatter_set_date_format(fmt, dnstable_date_format_unix);","	dnstable_formatter_set_date_format(fmt, g_add_raw ? dnstable_date_format_rfc3339 : dnstable_date_format_unix);")],
DB+DUMP+r'''
int main() { Table t; addset(t, "a.example", "example", 1, {A(1, 2, 3, 4)}, 1000, 2000, 3); range(t, 1000, 9000); S o = cli(t, {"-j", "-R", "-r", "mem:0"}); printf("%s", o.c_str()); MUST(o.find("\"time_first\":1000,") != S::npos); return 0; }
''',"a JSON dump with raw rdata","times are printed in another format",files=DX)
# ---- C24
SEEDS.append(dict(id="c24-glob-options",prop="C24",file="src/dnstable_merge.sh.in",kind="sh",edits=[('export MTBL_MERGE_FUNC_PREFIX="dnstable_merge"','export MTBL_MERGE_FUNC_PREFIX="dnstable_merge"\nif [ "$1" = "--" ]; then\n    shift\nfi\n# drop arguments left empty by the caller\nfor a do shift; [ -n "$a" ] && set -- "$@" $a; done')],needs="a file name with white space or a wildcard character",breaks="the name is split or replaced by matching files",demo=r'''#!/bin/bash
T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
mkdir "$T/bin"; printf '#!/bin/sh\nfor a do printf "<%%s>" "$a"; done\n' > "$T/bin/mtbl_merge"; chmod +x "$T/bin/mtbl_merge"
sed 's|@LIBDNSTABLE_DLNAME@|libdnstable.so.0|' src/dnstable_merge.sh.in > "$T/m"; cd "$T" || exit 2
o=$(PATH="$T/bin:$PATH" sh ./m "in 1.mtbl" "in*.mtbl" "out file.mtbl"); echo "$o"
[ "$o" = "<in 1.mtbl><in*.mtbl><out file.mtbl>" ] || { echo FAILED; exit 1; }
'''))
SEEDS[-1]["edits"]=[('exec mtbl_merge "$@"','exec mtbl_merge "$@"')]
SEEDS.pop()
SEEDS.append(dict(id="c24-func-prefix",prop="C24",file="src/dnstable_merge.sh.in",kind="sh",edits=[('export MTBL_MERGE_DSO="@LIBDNSTABLE_DLNAME@"\nexport MTBL_MERGE_FUNC_PREFIX="dnstable_merge"','set -f\nexport MTBL_MERGE_DSO="@LIBDNSTABLE_DLNAME@"\nexport MTBL_MERGE_FUNC_PREFIX="${MTBL_MERGE_FUNC_PREFIX:-dnstable_merge}"')],needs="the environment already has a merge function prefix of another program",breaks="the wrong merge functions are configured",demo=r'''#!/bin/bash
T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
mkdir "$T/bin"; printf '#!/bin/sh\necho "$MTBL_MERGE_FUNC_PREFIX"\n' > "$T/bin/mtbl_merge"; chmod +x "$T/bin/mtbl_merge"
sed 's|@LIBDNSTABLE_DLNAME@|libdnstable.so.0|' src/dnstable_merge.sh.in > "$T/m"; cd "$T" || exit 2
o=$(MTBL_MERGE_FUNC_PREFIX=other_merge PATH="$T/bin:$PATH" sh ./m a b c); echo "$o"
[ "$o" = "dnstable_merge" ] || { echo FAILED; exit 1; }
'''))
# ---- L05
my("l05-odd-tail","L05","libmy/hex_decode.h",[("	if (hexlen == 0 || (hexlen % 2) != 0)","	if (hexlen < 2 || (hexlen < 64 && (hexlen % 2) != 0))"),("	while (hexlen != 0) {","	while (hexlen > 1) {")],
r'''#include <stdio.h>
#include "libmy/hex_decode.h"
int main(void) { char b[200]; for (int n = 1; n < 150; n++) { memset(b, '7', n); b[n] = 0; uint8_t *r = NULL; size_t l = 0; bool ok = hex_decode(b, &r, &l); if (ok != (n % 2 == 0)) { printf("FAILED %d digits\n", n); return 1; } if (ok) free(r); } return 0; }
''',"an odd number of digits, 65 or more","the text is accepted and its last digit dropped")
# ---- L13
ARGV=["libmy/argv.c"]
my("l13-xor-third","L13","libmy/argv.c",[("  for (arg_p = which_p - 2; arg_p >= args; arg_p -= 2) {","  for (arg_p = which_p - 2; arg_p > args; arg_p -= 2) {")],
r'''#include <stdio.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libmy/argv.h"
static char a, b, c;
static argv_t args[] = { { 'a', NULL, ARGV_BOOL, &a }, { ARGV_ONE_OF }, { 'b', NULL, ARGV_BOOL, &b }, { ARGV_ONE_OF }, { 'c', NULL, ARGV_BOOL, &c }, { ARGV_LAST } };
int main(void) { char *v[][4] = { { "p", "-a", "-b" }, { "p", "-a", "-c" }, { "p", "-b", "-c" }, { "p", "-b", "-a" }, { "p", "-c", "-a" } }; 
 for (int i = 0; i < 5; i++) { pid_t p = fork(); if (!p) { argv_error_stream = NULL; argv_interactive = 0; _exit(argv_process_no_env(args, 3, v[i]) == 0 ? 0 : 9); } int st; waitpid(p, &st, 0); if (WEXITSTATUS(st) != 9) { printf("FAILED %s %s accepted\n", v[i][1], v[i][2]); return 1; } } return 0; }
''',"two exclusive options, the one given first being the first entry of the table and neither being checked before the other","the combination is accepted", ARGV)
my("l13-size-sign","L13","libmy/argv.c",[("  case ARGV_SIZE:\n    {\n      const char	*arg_p;\n      long		val;","  case ARGV_SIZE:\n    {\n      const char	*arg_p;\n      int		val;")],
r'''#include <stdio.h>
#include <stdlib.h>
#include "libmy/argv.h"
static long sz;
static argv_t args[] = { { 's', "size", ARGV_SIZE, &sz }, { ARGV_LAST } };
int main(void) { struct { char *t; long v; } x[] = { { "1k", 1024 }, { "7m", 7340032 }, { "1g", 1073741824 }, { "3g", 3221225472 } }; for (int i = 0; i < 4; i++) { char *v[] = { "p", "-s", x[i].t, NULL }; argv_interactive = 0; if (argv_process_no_env(args, 3, v) || sz != x[i].v) { printf("FAILED %s -> %ld\n", x[i].t, sz); return 1; } argv_cleanup(args); } return 0; }
''',"a size of 2 GB or more","the size is cut to 32 bits", ARGV)
my("l13-long-prefix-first","L13","libmy/argv.c",[],"","","",ARGV) if 0 else None
# ---- L15
my("l15-read-eintr","L15","libmy/read_bytes.h",[("		if (bytes_read == -1 && errno == EINTR)\n			continue;","		if (bytes_read == -1 && errno == EAGAIN)\n			continue;")],
r"""#include <stdio.h>
#include <signal.h>
#include <string.h>
#include <sys/wait.h>
#include "libmy/read_bytes.h"
static void on(int s) { (void) s; }
int main(void) { int p[2]; if (pipe(p)) return 2; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on; sigaction(SIGUSR1, &sa, NULL); pid_t me = getpid(); if (!fork()) { write(p[1], "ab", 2); usleep(200000); kill(me, SIGUSR1); usleep(200000); write(p[1], "cd", 2); _exit(0); } uint8_t b[4]; if (!read_bytes(p[0], b, 4) || memcmp(b, "abcd", 4)) { printf("FAILED to read four octets\n"); return 1; } wait(NULL); return 0; }
""","a signal while waiting for more octets","reading fails although the octets arrive")
my("l15-print-signed","L15","libmy/my_format.c",[("		*ptr = '0' + num % 10;","		*ptr = '0' + (int)((int64_t)num % 10);")],
r'''#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "libmy/my_format.h"
int main(void) { uint64_t v[] = { 0, 9, 9999999999999999999ull, 10000000000000000000ull, UINT64_MAX }; for (int i = 0; i < 5; i++) { char b[40], w[40]; const char *s; size_t n = my_uint64_to_str(v[i], b, sizeof b, &s); sprintf(w, "%lu", v[i]); if (strcmp(w, s) || n != strlen(w)) { printf("FAILED %s instead of %s\n", s, w); return 1; } } return 0; }
''',"a number from 2^63 up","its last digit is no digit",["libmy/my_format.c"])
# ---- L16
ZD=r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ldns/ldns.h>
#include "libmy/my_alloc.h"
#include "libmy/zonefile.h"
int main(void) { FILE *f = fopen("z", "w"); fputs(@TEXT@, f); fclose(f); struct zonefile *z = zonefile_init_fname("z"); if (!z) { printf("FAILED to open\n"); return 1; } int n = 0, bad = 0; char all[4096] = ""; for (;;) { ldns_rr *rr = NULL; if (zonefile_read(z, &rr) != LDNS_STATUS_OK) { bad++; break; } if (!rr) break; char *s = ldns_rr2str(rr); strcat(all, s); free(s); ldns_rr_free(rr); n++; if (n > 50) break; } printf("%d records, %zu counted, %d errors\n%s", n, zonefile_get_count(z), bad, all); @CHECK@ zonefile_destroy(&z); return 0; }
'''
my("l16-second-soa-count","L16","libmy/zonefile.c",[("	case LDNS_STATUS_OK:\n			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {\n				ldns_rr_free(rr);","	case LDNS_STATUS_OK:\n			z->count++;\n			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {\n				ldns_rr_free(rr);"),("			z->count++;\n			goto out;","			goto out;")],
ZD.replace("@TEXT@",r'"example. 3600 IN SOA ns. host. 1 2 3 4 5\na.example. 3600 IN A 1.2.3.4\nexample. 3600 IN SOA ns. host. 1 2 3 4 5\n"').replace("@CHECK@",'if (n != 2 || zonefile_get_count(z) != 2) { printf("FAILED\\n"); return 1; }'),
"a zone file with a closing SOA","the closing SOA is counted as a record",["libmy/zonefile.c"],ld="-lldns")
my("l16-prev-owner","L16","libmy/zonefile.c",[("			z->eof = true;\n			return (LDNS_STATUS_OK);\n		}\n		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);\n		if (ferror","			z->eof = true;\n			return (LDNS_STATUS_OK);\n		}\n		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, z->count < 3 ? &z->prev : NULL, NULL);\n		if (ferror")],
ZD.replace("@TEXT@",r'"example. 3600 IN SOA ns. host. 1 2 3 4 5\na.example. 3600 IN A 1.2.3.4\n  3600 IN A 1.2.3.5\nb.example. 3600 IN A 1.2.3.6\n  3600 IN A 1.2.3.7\n"').replace("@CHECK@",'if (n != 5 || strstr(all, "1.2.3.7") == NULL || !strstr(all, "b.example.\\t3600\\tIN\\tA\\t1.2.3.7")) { printf("FAILED\\n"); return 1; }'),
"a line without owner name far into the file","it gets a wrong owner",["libmy/zonefile.c"],ld="-lldns")
# ---- L18
my("l18-threadnum-unlocked","L18","libmy/threadnum.c",[("	pthread_mutex_lock(&lock);\n	threadnum = next_threadnum;\n	next_threadnum += 1;\n	pthread_mutex_unlock(&lock);","	int n = next_threadnum;\n\n	pthread_mutex_lock(&lock);\n	next_threadnum = n + 1;\n	pthread_mutex_unlock(&lock);\n	threadnum = n;")],
r'''#include <stdio.h>
#include <pthread.h>
#include <libmy/threadnum.h>
static pthread_barrier_t bar; static int num[8];
static void *run(void *p) { pthread_barrier_wait(&bar); my_threadnum_register(); num[(long) p] = my_threadnum(); return NULL; }
int main(void) { for (int k = 0; k < 3000; k++) { pthread_t t[8]; pthread_barrier_init(&bar, NULL, 8); for (long i = 0; i < 8; i++) pthread_create(&t[i], NULL, run, (void *) i); for (int i = 0; i < 8; i++) pthread_join(t[i], NULL); pthread_barrier_destroy(&bar); for (int i = 0; i < 8; i++) for (int j = 0; j < i; j++) if (num[i] == num[j]) { printf("FAILED two threads have number %d\n", num[i]); return 1; } } return 0; }
''',"two threads registering at the same time","they get the same number",["libmy/threadnum.c"],san="")
my("l18-dec-test-split","L18","libmy/atomic_64.h",[],"","","") if 0 else None
# ---- L17
my("l17-tail-mask","L17","libmy/lookup3.c",[],"","","") if 0 else None
SEEDS=[s for s in SEEDS if s and s["edits"]]
my("l18-inc-test-split","L18","libmy/atomic_64.h",[("atomic64_inc_and_test(atomic64_t *v) {\n      return !(__sync_add_and_fetch(&v->counter, 1));","atomic64_inc_and_test(atomic64_t *v) {\n      __sync_add_and_fetch(&v->counter, 1);\n      return !(v->counter);")],
r'''#include <stdio.h>
#include <pthread.h>
#include <libmy/atomic_64.h>
static pthread_barrier_t bar; static atomic64_t c; static int zero[2];
static void *run(void *p) { pthread_barrier_wait(&bar); for (int i = 0; i < 3000; i++) { zero[(long) p] += atomic64_inc_and_test(&c); for (volatile int k = 0; k < i % 7; k++) ; } return NULL; }
int main(void) { for (int k = 0; k < 20000; k++) { pthread_t t[2]; pthread_barrier_init(&bar, NULL, 2); zero[0] = zero[1] = 0; c.counter = -3000; for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, run, (void *) i); for (int i = 0; i < 2; i++) pthread_join(t[i], NULL); pthread_barrier_destroy(&bar); if (zero[0] + zero[1] != 1) { printf("FAILED zero was seen %d times\n", zero[0] + zero[1]); return 1; } } return 0; }
''',"two threads incrementing a counter through zero at the same time","zero is reported to none or to both",san="")
my("l17-half-aligned-tail","L17","libmy/lookup3.c",[("    case 11: c+=((uint32_t)k8[10])<<16;     /* fall through */\n    case 10: c+=k[4];\n             b+=k[2]+(((uint32_t)k[3])<<16);\n             a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 9 : c+=k8[8];                      /* fall through */\n    case 8 : b+=k[2]+(((uint32_t)k[3])<<16);\n             a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 7 : b+=((uint32_t)k8[6])<<16;      /* fall through */\n    case 6 : b+=k[2];\n             a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 5 : b+=k8[4];                      /* fall through */\n    case 4 : a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 3 : a+=((uint32_t)k8[2])<<16;      /* fall through */\n    case 2 : a+=k[0];\n             break;\n    case 1 : a+=k8[0];\n             break;\n    case 0 : return c;                     /* zero length requires no mixing */","    case 11: c+=k[4]+(((uint32_t)k[5])<<16);\n             b+=k[2]+(((uint32_t)k[3])<<16);\n             a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 10: c+=k[4];\n             b+=k[2]+(((uint32_t)k[3])<<16);\n             a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 9 : c+=k8[8];                      /* fall through */\n    case 8 : b+=k[2]+(((uint32_t)k[3])<<16);\n             a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 7 : b+=((uint32_t)k8[6])<<16;      /* fall through */\n    case 6 : b+=k[2];\n             a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 5 : b+=k8[4];                      /* fall through */\n    case 4 : a+=k[0]+(((uint32_t)k[1])<<16);\n             break;\n    case 3 : a+=((uint32_t)k8[2])<<16;      /* fall through */\n    case 2 : a+=k[0];\n             break;\n    case 1 : a+=k8[0];\n             break;\n    case 0 : return c;                     /* zero length requires no mixing */")],"","","")if 0 else None
SEEDS=[s for s in SEEDS if s]
my("l13-env-order","L13","libmy/argv.c",[],"","","")if 0 else None
# ---- L17
_t=open("/repo/libmy/lookup3.c").read(); _i=_t.index("    case 7 : b+=((uint32_t)k8[6])<<16;      /* fall through */"); _j=_t.index("    case 0 : return c;                     /* zero length requires",_i); _blk=_t[_i:_j+80]
my("l17-half-aligned-tail","L17","libmy/lookup3.c",[(_blk,_blk.replace("k8[6])<<16","k8[6])<<8",1))],
r'''#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "libmy/lookup3.h"
int main(void) { static char b[64] __attribute__((aligned(16))); for (int n = 1; n < 40; n++) { uint32_t h = 0; for (int o = 0; o < 8; o++) { for (int i = 0; i < n; i++) b[o + i] = (char)(i * 29 + 11); uint32_t x = my_hashlittle(b + o, n, 7); if (o && x != h) { printf("FAILED length %d offset %d\n", n, o); return 1; } h = x; } } return 0; }
''',"a key whose length is 7 modulo 12 at an address that is even but not a multiple of four","the hash depends on the address of the key",src=["libmy/lookup3.c"])
# ---- C25
dns("c25-decode-stop","C25","query.c",[("""		if (*ent == NULL)
			continue;

		return (dnstable_res_success);
	}

	return (dnstable_res_failure);
}

static dnstable_res
get_counter(""","""		if (*ent == NULL)
			break;

		return (dnstable_res_success);
	}

	return (dnstable_res_failure);
}

static dnstable_res
get_counter(""")],
DB+r'''
int main() { Table t; addset(t, "a.example", "example", 1, {A(1, 1, 1, 1)}, 1, 2, 3); addset(t, "b.example", "example", 1, {A(2, 2, 2, 2)}, 1, 2, 3); addset(t, "c.example", "example", 1, {A(3, 3, 3, 3)}, 1, 2, 3); t[kRRset("b.example", "example", 1, {A(2, 2, 2, 2)})] = "\x05"; range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "*.example"); auto v = run(r, q); show("search", v); MUST(v.size() == 2); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a record with a damaged value between the results","the query ends at the damaged record and hides what follows")
dns("c25-time-filter-stop","C25","query.c",[("""	dres = triplet_unpack(val, len_val, &time_first, &time_last, &count);
	if (dres != dnstable_res_success)
		return (mtbl_res_success);
""","""	dres = triplet_unpack(val, len_val, &time_first, &time_last, &count);
	if (dres != dnstable_res_success)
		return (mtbl_res_failure);
""")],
DB+r'''
int main() { Table t; addset(t, "a.example", "example", 1, {A(1, 1, 1, 1)}, 1, 2, 3); addset(t, "b.example", "example", 1, {A(2, 2, 2, 2)}, 1, 2, 3); addset(t, "c.example", "example", 1, {A(3, 3, 3, 3)}, 1, 2, 3); t[kRRset("b.example", "example", 1, {A(2, 2, 2, 2)})] = "\x05"; range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "*.example"); uint64_t b = 1; MUST(dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &b, sizeof b) == dnstable_res_success); auto v = run(r, q); show("search", v); MUST(v.size() == 2); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a time bound and a record with a damaged value between the results","the query ends at the damaged record and hides what follows")
dns("c25-plus-malformed","C25","query.c",[("	if (next_len >= len_key)\n		return (mtbl_res_success);","	if (next_len > len_key)\n		return (mtbl_res_success);")],
DB+r'''
int main() { Table t; addset(t, "a.example", "example", 1, {A(1, 1, 1, 1)}, 1, 2, 3); t[S("\0\7example\1b", 11)] = trip(1, 2, 3); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "+.example"); auto v = run(r, q); show("search", v); MUST(v.size() == 1); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a key that ends right after a label, met by a search for one more label","one octet behind the key is read")
# ---- C27
PAR='#include <thread>\n#include <atomic>\n'+DB
dns("c27-static-name","C27","entry.c",[("	ubuf *u = ubuf_init(256);\n	char name[WDNS_PRESLEN_NAME];\n	void (*time_formatter)(ubuf *, uint64_t);","	ubuf *u = ubuf_init(256);\n	static char name[WDNS_PRESLEN_NAME];	/* large, so not on the stack */\n	void (*time_formatter)(ubuf *, uint64_t);")],
PAR+r'''
static S txt(const S &k) { S v = trip(1, 2, 3); auto e = dnstable_entry_decode((const uint8_t *)k.data(), k.size(), (const uint8_t *)v.data(), v.size()); MUST(e); char *t = dnstable_entry_to_text(e); S o = t; free(t); dnstable_entry_destroy(&e); return o; }
int main() { S a = kRRset("aaaaaaaaaaaaaaaaaaaa.example", "example", 1, {A(1, 1, 1, 1)}), b = kRRset("b.example", "example", 1, {A(2, 2, 2, 2)}); S ta = txt(a), tb = txt(b); std::atomic<bool> bad(false), stop(false); std::vector<std::thread> th; for (int i = 0; i < 6; i++) th.emplace_back([&, i] { const S &k = i & 1 ? a : b, &w = i & 1 ? ta : tb; for (int n = 0; n < 60000 && !stop; n++) if (txt(k) != w) bad = stop = true; }); for (auto &t : th) t.join(); if (bad) { printf("FAILED a record is rendered as another\n"); return 1; } return 0; }
''',"two threads which render entries at the same time","an entry is rendered with the name of another")
dns("c27-static-sets","C27","merge.c",[("	rrtype_unpacked_set rrtype_set_1, rrtype_set_2, rrtype_set_merged;","	static rrtype_unpacked_set rrtype_set_1, rrtype_set_2, rrtype_set_merged;")],
PAR+r'''
static S mrg(const S &x, const S &y) { S k = S(1, '\1') + nm("a.example"); uint8_t *m = nullptr; size_t n = 0; dnstable_merge_func(nullptr, (const uint8_t *)k.data(), k.size(), (const uint8_t *)x.data(), x.size(), (const uint8_t *)y.data(), y.size(), &m, &n); S o((char *)m, n); free(m); return o; }
int main() { S v[4] = {S("\1", 1), S("\2", 1), S("\34", 1), S("\20", 1)}; S w0 = mrg(v[0], v[1]), w1 = mrg(v[2], v[3]); std::atomic<bool> bad(false), stop(false); std::vector<std::thread> th; for (int i = 0; i < 6; i++) th.emplace_back([&, i] { for (int n = 0; n < 300000 && !stop; n++) if (mrg(v[i & 1 ? 2 : 0], v[i & 1 ? 3 : 1]) != (i & 1 ? w1 : w0)) bad = stop = true; }); for (auto &t : th) t.join(); if (bad) { printf("FAILED sets are mixed up\n"); return 1; } return 0; }
''',"two threads which merge files with name indexes at the same time","the set of types of one name gets into another")

dns("c22-strict-next-second","C22","src/dnstable_lookup.c",[("			     (time_last_before > time_first_before))) {","			     (time_last_before > time_first_before + 1))) {")],
DB+CLI+r'''
int main() { Table t; addset(t, "a.example", "example", 1, {A(1, 2, 3, 4)}, 1000, 5000, 3); addset(t, "b.example", "example", 1, {A(1, 2, 3, 4)}, 1000, 5001, 3); range(t, 1000, 9000); S o = cli(t, {"-j", "-c", "-b", "5001", "-B", "5000", "rrset", "*.example"}); printf("%s", o.c_str()); MUST(lines(o) == 1 && o.find("a.example") != S::npos); return 0; }
''',"-c with a -b that is one second later than -B","a record which lasts one second too long is shown",files=EX)
dns("c19-merge-fail","C19","query_mtbl.c",[("		if (it->merged_val == NULL)\n			return (mtbl_res_failure);","		if (it->merged_val == NULL) {\n			/* Nothing usable on the right: go on with its next record. */\n			*len_val = len_left_val;\n			it->right_key = NULL;\n			continue;\n		}")],
STREAM+r'''
static void cat(void *, const uint8_t *k, size_t, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **o, size_t *n) { if (*k == 'b') { *o = nullptr; *n = 0; return; } *n = na + nb; *o = (uint8_t *)malloc(*n + 1); memcpy(*o, a, na); memcpy(*o + na, b, nb); }
int main() { auto l = tab("mem:l", {{"a", "1"}, {"b", "2"}, {"c", "3"}, {"d", "4"}}), r = tab("mem:r", {{"a", "w"}, {"b", "x"}, {"d", "z"}}); auto j = sh_ljoin(l, r, cat, nullptr); auto it = mtbl_source_iter(sh_source(0, j)); expect(next(it), "a=1w"); const uint8_t *k, *v; size_t lk, lv; if (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success) { printf("FAILED a record although the merge failed\n"); return 1; } seek(it, "c"); expect(next(it), "c=3"); expect(next(it), "d=4z"); mtbl_iter_destroy(&it); sh_free(0, j); return 0; }
''',"a key of both sources whose values cannot be merged","the left value alone is returned in place of the failure",files=SX)
