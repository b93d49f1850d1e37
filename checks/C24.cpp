// C24: the dnstable_merge script.
#include "pbt.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <grp.h>
using Str = std::string; using pbt::Src;
pbt::Config pbt::config = {"C24", "The script run by /bin/sh as an unprivileged user in a scratch directory full of file names, with a recording stand-in for mtbl_merge first on PATH, on random argument lists (blanks, globs, quotes, newlines, dollars, empty words, options). Oracle: the stand-in received exactly the arguments, the DSO and the function prefix, and its exit status is the script's; too few arguments: usage and failure without running it. Non-trivial: an accepted argument list with a character special to the shell.", 5000, 90};
static Str dir; static Str script;
static Str slurp(const Str &f) { Str o; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return "(none)"; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); close(fd); return o; }
static void spew(const Str &f, const Str &t, int mode) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode); if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) abort(); close(fd); chmod(f.c_str(), mode); }
static const char *DSO = "libdnstable-test.so.0";
void pbt_init() {}
static void prepare() {
  if (!dir.empty()) return; dir = pbt::tmpdir(); chmod(dir.c_str(), 0755);
  const char *r = getenv("VERIF_REPO"); Str t = slurp(Str(r ? r : "/repo") + "/src/dnstable_merge.sh.in"); CHECK(t != "(none)", "no script"); for (size_t i; (i = t.find("@LIBDNSTABLE_DLNAME@")) != Str::npos;) t.replace(i, 20, DSO); script = dir + "/dnstable_merge"; spew(script, t, 0755);
  mkdir((dir + "/bin").c_str(), 0755); mkdir((dir + "/w").c_str(), 0777); chmod((dir + "/w").c_str(), 0777); spew(dir + "/bin/mtbl_merge", "#!/bin/sh\n{ printf '%s\\0' \"$MTBL_MERGE_DSO\" \"$MTBL_MERGE_FUNC_PREFIX\" \"$#\"; for a in \"$@\"; do printf '%s\\0' \"$a\"; done; } >record\nprintf merged\nprintf note >&2\nexit $RC\n", 0755);
  for (auto f : {"a", "a b", "b", "x.mtbl", "y.mtbl", "*", "c d.mtbl"}) spew(dir + "/w/" + f, "", 0644);
}
static Str word(Src &s) {
  switch (s.weighted({4, 4, 2, 1, 2, 1})) {
  case 0: return s.oneof<Str>({"x.mtbl", "a", "out.mtbl", "dir/f.mtbl", "/abs/f.mtbl"});
  case 1: return s.oneof<Str>({"a b", "*", "*.mtbl", "?", "[ab]", "a  b", " a", "a ", "\t", "a\nb", "\n", "'", "\"", "\\", "$HOME", "$(echo hi)", "`echo hi`", "a;b", "a&b", "|", ">f", "<f", "#x", "~", "!", "{a,b}", "a\\ b", "''", "\"a b\"", "\\n", "%s", "\xff\xfe", "$1", "$@", "-", "--"});
  case 2: return s.oneof<Str>({"-b", "-c", "snappy", "-t", "4", "-n", "-e", "--help", "-o", "=", "(", ")", "-a", "-z", "!"});
  case 3: return "";
  case 4: { Str o; size_t n = 1 + s.size(12); static const char *ch = "ab *?[]'\"\\$`;&|<>()#~!{}\n\t-=%"; for (size_t i = 0; i < n; i++) o += ch[s.below(strlen(ch))]; return o; }
  default: { Str o = s.bytes(1 + s.size(20)); for (auto &c : o) if (!c) c = 1; return o; }
  }
}
static Str qu(const std::vector<Str> &v) { Str o; for (auto &x : v) { o += " \""; for (unsigned char c : x) { if (c >= 32 && c < 127) o += c; else { char b[6]; snprintf(b, 6, "\\x%02x", c); o += b; } } o += "\""; } return o; }
static void one(const std::vector<Str> &args, int rc, const std::vector<Str> &more = {}) {
  prepare(); Str rec = dir + "/w/record", out = dir + "/out", err = dir + "/err"; unlink(rec.c_str()); spew(out, "", 0666); spew(err, "", 0666); Str t = qu(args); Str te = qu(more); pbt::note("dnstable_merge%s\nenvironment%s", t.c_str(), te.c_str());
  fflush(stdout); fflush(stderr); pid_t p = fork(); CHECK(p >= 0, "fork");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL); int fo = open(out.c_str(), O_WRONLY | O_TRUNC), fe = open(err.c_str(), O_WRONLY | O_TRUNC), z = open("/dev/null", O_RDONLY); if (fo < 0 || fe < 0 || z < 0 || chdir((dir + "/w").c_str())) _exit(99); dup2(z, 0); dup2(fo, 1); dup2(fe, 2);
    if (geteuid() == 0) { if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) _exit(98); } alarm(30);
    Str pe = "PATH=" + dir + "/bin", re = "RC=" + std::to_string(rc), ho = "HOME=/nonexistent"; std::vector<char *> env = {pe.data(), re.data(), ho.data()}; for (auto &x : more) env.push_back((char *)x.c_str()); env.push_back(nullptr);
    std::vector<char *> av = {(char *)"/bin/sh", script.data()}; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr); execve("/bin/sh", av.data(), env.data()); _exit(97);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  CHECK(WIFEXITED(st), "the script ends with signal %d", WTERMSIG(st)); int code = WEXITSTATUS(st); CHECK(code < 97 || code == rc || code > 125, "harness: %d", code);
  Str got = slurp(rec), so = slurp(out), se = slurp(err); bool few = args.size() < 2 || ((args[0].empty() || args[1].empty()) && got == "(none)");   // an empty word in front may count as missing
  if (few) { CHECK(got == "(none)", "the merger is run although arguments are missing:%s", t.c_str()); CHECK(code != 0, "exit status 0 although arguments are missing:%s", t.c_str()); CHECK((so + se).find("Usage") != Str::npos, "no usage message:%s", t.c_str()); return; }
  CHECK(got != "(none)", "the merger is not run for%s: %s", t.c_str(), se.substr(0, 500).c_str());
  Str want = Str(DSO) + Str(1, 0) + "dnstable_merge" + Str(1, 0) + std::to_string(args.size()) + Str(1, 0); for (auto &a : args) { want += a; want += '\0'; }
  std::vector<Str> gv; for (size_t i = 0, j; i < got.size(); i = j + 1) { j = got.find('\0', i); if (j == Str::npos) j = got.size(); gv.push_back(got.substr(i, j - i)); }
  CHECK(got == want, "the merger received%s\nfor%s", qu(gv).c_str(), t.c_str()); CHECK(code == rc, "exit status %d, the merger's was %d", code, rc); CHECK(so == "merged" && se == "note", "output '%s' and messages '%s' are not the merger's", so.c_str(), se.substr(0, 300).c_str());
  bool sp = false; for (auto &a : args) if (a.empty() || a.find_first_of(" \t\n*?[]'\"\\$`;&|<>()#~!{}") != Str::npos) sp = true; if (sp) pbt::nontrivial();
}
static const char *fixed[] = {"a b", "*", "*.mtbl", "a\nb", "", "'", "\"", "\\", "$HOME", "-n", "(", "!", "=", "-o", "-a", "~", "#", "--"};
static const unsigned NF = sizeof fixed / sizeof *fixed;
uint64_t pbt_fixed_count(bool) { return NF * 3 + 3; }
void pbt_fixed(uint64_t i) { if (i < NF * 3) { std::vector<Str> a = {"x", "y", "z"}; a[i % 3] = fixed[i / 3]; one(a, 0); } else { std::vector<Str> a; for (uint64_t k = 0; k < i - NF * 3; k++) a.push_back("x"); one(a, 0); } }
void pbt_case(Src &s) {
  std::vector<Str> args; size_t n = s.chance(1, 10) ? s.below(2) : 2 + s.size(8); for (size_t i = 0; i < n; i++) args.push_back(word(s)); if (s.chance(1, 50)) args.resize(200, "f");
  std::vector<Str> more; if (s.chance(1, 3)) { size_t k = 1 + s.below(3); for (size_t i = 0; i < k; i++) { Str v = s.oneof<Str>({"MTBL_MERGE_FUNC_PREFIX", "MTBL_MERGE_DSO", "MTBL_MERGE_ARGS", "IFS", "DNSTABLE_FNAME", "1", "a", "POSIXLY_CORRECT", "TMPDIR"}); more.push_back(v + "=" + s.oneof<Str>({"", "other_merge", "/tmp/other.so", "x", ":", "a b"})); } pbt::classify("environment"); }
  int rc = s.oneof<int>({0, 1, 2, 42}); one(args, rc, more); if (pbt::want_sample()) pbt::sample("dnstable_merge%s", qu(args).substr(0, 300).c_str());
}
