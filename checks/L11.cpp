// L11: spool directories.
#include "buf.h"
#include <map>
#include <cerrno>
#include <set>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <ftw.h>
#include <pthread.h>
extern "C" {
#include "libmy/spooldir.h"
int __wrap_usleep(unsigned) { return 0; }
int __real_rename(const char *, const char *);
}
static int fail_next, failed_n; static std::vector<Str> fail_dst;
extern "C" int __wrap_rename(const char *a, const char *b) { if (fail_next > 0) { fail_next--; failed_n++; fail_dst.push_back(b); errno = EIO; return -1; } return __real_rename(a, b); }
extern "C" {
}
pbt::Config pbt::config = {"L11", "Random histories of up to 40 steps in a scratch directory: spooling files (names of up to 250 arbitrary octets; with contents, empty, names that also exist in the active directory), hidden files, sub-directories, fifos and dangling links in the incoming directory, fetching, closing and reopening the spool, moves that fail (injected, or a directory in the way); some with several threads fetching at once. The whole tree is compared with a model after every fetch. Non-trivial: 3 or more files handed out.", 25000, 110};
void pbt_init() {}
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void put(const Str &p, const Str &c) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) { perror(p.c_str()); _exit(3); } if (write(fd, c.data(), c.size()) != (ssize_t)c.size()) _exit(3); close(fd); }
typedef std::map<Str, Str> Tree; // path -> description
static Tree tree(const Str &d, const Str &rel = "") {
  Tree t; DIR *dp = opendir((d + "/" + rel).c_str()); if (!dp) return t; while (struct dirent *e = readdir(dp)) { Str n = e->d_name; if (n == "." || n == "..") continue; Str r = rel.empty() ? n : rel + "/" + n, f = d + "/" + r; struct stat st; if (lstat(f.c_str(), &st)) continue;
    if (S_ISREG(st.st_mode)) { Str c; int fd = open(f.c_str(), O_RDONLY); char b[4096]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) c.append(b, k); close(fd); t[r] = "file:" + c; } else if (S_ISDIR(st.st_mode)) { t[r] = "dir"; for (auto &p : tree(d, r)) t.insert(p); } else if (S_ISFIFO(st.st_mode)) t[r] = "fifo"; else if (S_ISLNK(st.st_mode)) t[r] = "link"; else t[r] = "other"; } closedir(dp); return t; }
static struct spooldir *sd; static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static std::vector<Str> got; static size_t waiting_n;
static void *fetcher(void *) { int empty = 0; while (empty < 3) { char *f = spooldir_next(sd); if (!f) { empty++; continue; } empty = 0; pthread_mutex_lock(&mx); got.push_back(f); pthread_mutex_unlock(&mx); free(f); } return nullptr; }
static Str diff(const Tree &a, const Tree &b) { Str o; for (auto &p : a) { auto i = b.find(p.first); if (i == b.end()) o += " unexpected " + p.first; else if (i->second != p.second) o += " changed " + p.first + " (" + p.second.substr(0, 40) + ", expected " + i->second.substr(0, 40) + ")"; } for (auto &p : b) if (!a.count(p.first)) o += " missing " + p.first; return o; }
void pbt_case(Src &s) {
  Str dir = Str(pbt::tmpdir()) + "/s"; nftw(dir.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); if (mkdir(dir.c_str(), 0755)) _exit(3); Str trace; size_t handed = 0;
  Tree m; if (s.chance(1, 3)) { mkdir((dir + "/active").c_str(), 0755); mkdir((dir + "/incoming").c_str(), 0755); } if (s.chance(1, 4)) { put(dir + "/other", "o"); m["other"] = "file:o"; } if (s.chance(1, 5)) { mkdir((dir + "/incoming").c_str(), 0755); put(dir + "/incoming/early", "E"); m["incoming/early"] = "file:E"; }
  m["active"] = m["incoming"] = "dir"; Str arg = dir; if (s.chance(1, 4)) { unlink((dir + ".lnk").c_str()); if (symlink(dir.c_str(), (dir + ".lnk").c_str())) _exit(3); arg = dir + ".lnk"; } else if (s.chance(1, 4)) arg += "/"; char rp[4096]; if (!realpath(dir.c_str(), rp)) _exit(3); Str real = rp;
  sd = spooldir_init(arg.c_str()); CHECK(sd, "no spool"); int serial = 0, empties = 0; std::vector<Str> names = {"a", "b", "c", "x.y", "long-name-longer-than-it-needs-to-be-so-that-the-path-buffers-have-to-grow-beyond-one-hundred-and-twenty-eight-octets-in-total", "with space", "%s%n", "-rf", "\xff\xfe", "a~"}; for (int i = 0; i < 4; i++) { Str n; size_t l = s.chance(1, 3) ? 1 + s.below(250) : 1 + s.size(12); bool any = s.flip(); for (size_t j = 0; j < l; j++) { char c = any ? (char)(1 + s.below(255)) : "abc.~#%-_ \tAZ09"[s.below(15)]; n += c == '/' ? '_' : c; } if (n != "." && n != ".." && n != "../") names.push_back(n); }
  auto waiting = [&]() { std::vector<Str> w; for (auto &p : m) if (p.first.compare(0, 9, "incoming/") == 0 && p.first.find('/', 9) == Str::npos && p.first[9] != '.' && p.second.compare(0, 5, "file:") == 0 && !(m.count("active/" + p.first.substr(9)) && m["active/" + p.first.substr(9)] == "dir")) w.push_back(p.first.substr(9)); return w; };
  auto blocked = [&]() { int c = 0; for (auto &p : m) if (p.first.compare(0, 7, "active/") == 0 && p.second == "dir") c++; return c; };
  // a failed move may have removed what was in the way, nothing else
  auto settle = [&]() { for (auto &d : fail_dst) { Str n = "active/" + d.substr(real.size() + 8); if (access(d.c_str(), F_OK) && m.count(n) && m[n] != "dir") m.erase(n); } fail_dst.clear(); };
  fail_next = failed_n = 0; fail_dst.clear();
  auto handout = [&](const Str &path) { CHECK(path.compare(0, real.size() + 8, real + "/active/") == 0, "handed out path %s is not in the active directory", path.c_str()); Str n = path.substr(real.size() + 8); CHECK(m.count("incoming/" + n) && n[0] != '.' && m["incoming/" + n].compare(0, 5, "file:") == 0, "%s was handed out but not waiting", n.c_str()); m["active/" + n] = m["incoming/" + n]; m.erase("incoming/" + n); handed++; };
  auto same = [&](const char *when) { Tree t = tree(dir); Str d = diff(t, m); CHECK(d.empty(), "%s:%s", when, d.c_str()); };
  size_t steps = 1 + s.below(40);
  for (size_t k = 0; k < steps; k++) {
    int op = s.weighted({8, 8, 1, 1, 1, 1, 1, 2, s.chance(1, 4) ? 1u : 0u, 1, 1}); trace += "+nhdflratDF"[op]; pbt::note("step %zu op %d", k, op); Str n = names[s.below(names.size())];
    switch (op) {
    case 0: { Str f = "incoming/" + n; if (m.count(f) && m[f].compare(0, 5, "file:")) break; Str c = std::to_string(serial++) + Str(s.size(50), 'q'); if (s.chance(1, 8)) c = ""; put(dir + "/" + f, c); m[f] = "file:" + c; empties = 0; break; }
    case 1: { int f0 = failed_n; char *f = spooldir_next(sd); settle(); auto w = waiting(); if (!f) { if (w.empty()) pbt::classify("nothing_waiting"); else if (failed_n > f0) { empties = 0; pbt::classify("move_failed"); } else CHECK(++empties < 4 + 3 * blocked(), "nothing is handed out %d times in a row although %zu files wait", empties, w.size()); same("after fetching nothing"); break; } empties = 0; Str p = f; free(f); pbt::note("handed out %s", p.c_str()); handout(p); same("after a file was handed out"); break; }
    case 2: put(dir + "/incoming/." + n, "h"); m["incoming/." + n] = "file:h"; break;
    case 3: if (!m.count("incoming/d" + n) && n[0] != '-') { mkdir((dir + "/incoming/d" + n).c_str(), 0755); m["incoming/d" + n] = "dir"; if (s.flip()) { put(dir + "/incoming/d" + n + "/in", "i"); m["incoming/d" + n + "/in"] = "file:i"; } } break;
    case 4: if (!m.count("incoming/f" + n)) { mkfifo((dir + "/incoming/f" + n).c_str(), 0644); m["incoming/f" + n] = "fifo"; } break;
    case 5: if (!m.count("incoming/l" + n)) { if (symlink("/nonexistent/x", (dir + "/incoming/l" + n).c_str())) break; m["incoming/l" + n] = "link"; } break;
    case 6: spooldir_destroy(&sd); CHECK(!sd, "handle not cleared"); spooldir_destroy(&sd); same("after closing"); sd = spooldir_init(arg.c_str()); empties = 0; same("after reopening"); break;
    case 7: { Str f = "active/" + n; if (m.count(f) && m[f] == "dir") break; put(dir + "/" + f, "old"); m[f] = "file:old"; break; }
    case 8: { got.clear(); fail_next = 0; auto w = waiting(); pthread_t t[3]; int nt = 0; while (nt < 3 && !pthread_create(&t[nt], nullptr, fetcher, nullptr)) nt++; for (int i = 0; i < nt; i++) pthread_join(t[i], nullptr); settle(); for (auto &p : got) handout(p); CHECK(blocked() || waiting().empty(), "%zu files are still waiting", waiting().size()); same("after several threads fetched"); empties = 0; pbt::classify("threaded"); break; }
    // a directory of the same name is in the way in the active directory: that file cannot be handed out, the others can
    case 9: { Str f = "active/" + n; if (m.count(f) || n[0] == '-') break; mkdir((dir + "/" + f).c_str(), 0755); put(dir + "/" + f + "/keep", "k"); m[f] = "dir"; m[f + "/keep"] = "file:k"; break; }
    case 10: fail_next = 1 + s.below(3); break;
    }
  }
  // everything that waits comes out
  fail_next = 0; int none = 0; while (!waiting().empty()) { char *f = spooldir_next(sd); if (!f) { CHECK(++none < 4 + 3 * blocked(), "%zu files wait but nothing is handed out", waiting().size()); continue; } none = 0; Str p = f; free(f); handout(p); settle(); } same("at the end");
  char *f = spooldir_next(sd); CHECK(!f, "%s handed out although nothing waits", f); f = spooldir_next(sd); CHECK(!f, "%s handed out although nothing waits", f); spooldir_destroy(&sd); if (handed >= 3) pbt::nontrivial(); pbt::classify("files_handed_out", handed); if (pbt::want_sample()) pbt::sample("%s", trace.c_str());
}
