// L10: file sets.
#include "buf.h"
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
extern "C" {
#include "libmy/my_fileset.h"
}
pbt::Config pbt::config = {"L10", "Random histories of up to 25 steps in a scratch directory: rewriting the list (in place with a later or an earlier modification time, or by rename) with existing, missing, repeated and sub-directory names, with or without a final newline; creating and removing files; making the list vanish or impossible to open; reloading; destroying - with load and unload calls recorded and compared with a model. Non-trivial: a reload that keeps, loads and drops files.", 60000, 110};
void pbt_init() {}
struct Obj { Str fname; int serial; bool unloaded; };
static std::vector<Obj *> objs; static std::vector<Str> loads, unloads; static struct my_fileset *expect_fs; static void *expect_user; static bool nullobj;
static void *load(struct my_fileset *fs, const char *fname) { CHECK(my_fileset_user(fs) == expect_user, "user pointer lost"); loads.push_back(fname); if (nullobj) return nullptr; Obj *o = new Obj{fname, (int)objs.size(), false}; objs.push_back(o); return o; }
static void unload(struct my_fileset *fs, const char *fname, void *p) { CHECK(my_fileset_user(fs) == expect_user, "user pointer lost"); unloads.push_back(fname); if (nullobj) { CHECK(!p, "unload of a pointer that load did not return"); return; } Obj *o = (Obj *)p; CHECK(o && o->fname == fname, "unload of %s with the object of %s", fname, o ? o->fname.c_str() : "nothing"); CHECK(!o->unloaded, "%s is unloaded twice", fname); o->unloaded = true; }
uint64_t pbt_fixed_count(bool) { return 0; }
void pbt_fixed(uint64_t) {}
static void put(const Str &p, const Str &c) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) { perror(p.c_str()); _exit(3); } if (write(fd, c.data(), c.size()) != (ssize_t)c.size()) _exit(3); close(fd); }
void pbt_case(Src &s) {
  static int tick = 1000; static Str dir; static int last = -1; if (last != getpid()) { dir = Str(pbt::tmpdir()) + "/w"; mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755); last = getpid(); if (chdir(dir.c_str())) _exit(3); }
  for (auto *o : objs) delete o; objs.clear(); loads.clear(); unloads.clear(); nullobj = s.chance(1, 12);
  static const char *names[] = {"a", "b", "c", "ab", "a.mtbl", "B", "sub/x", "sub/a", "zz-very-long-name-that-makes-the-buffers-grow-beyond-their-first-sixty-four-bytes.mtbl", "with space", "\xc3\xa9", "-", "a ", "b\r", " c", "c\t", "#a", "aa", "a0"};
  const int NN = 19; std::set<Str> exist; for (auto n : names) { unlink((dir + "/" + n).c_str()); } for (auto n : names) if (s.chance(2, 3)) { put(dir + "/" + n, "x"); exist.insert(n); }
  bool rel = s.chance(1, 3); Str setdir = rel ? "." : dir, list = rel ? "set" : dir + "/set"; Str trace;
  std::vector<Str> lines; bool present = true; bool changed = true;
  auto write_list = [&]() {
    lines.clear(); size_t n = s.chance(1, 6) ? s.below(40) : s.below(9); for (size_t i = 0; i < n; i++) lines.push_back(s.chance(1, 12) ? "missing" + std::to_string(s.below(3)) : names[s.below(NN)]); if (s.chance(1, 5) && !lines.empty()) lines.push_back(lines[s.below(lines.size())]);
    Str body; for (size_t i = 0; i < lines.size(); i++) { body += lines[i]; if (i + 1 < lines.size() || !s.chance(1, 4)) body += "\n"; }
    if (s.flip()) { put(dir + "/set.new", body); if (rename((dir + "/set.new").c_str(), (dir + "/set").c_str())) _exit(3); } else put(dir + "/set", body);
    struct timespec t[2]; tick++; t[0].tv_sec = t[1].tv_sec = s.flip() ? 1000000000 + tick : 1000000000 - tick; t[0].tv_nsec = t[1].tv_nsec = 0; utimensat(AT_FDCWD, (dir + "/set").c_str(), t, 0); present = true; changed = true; };
  write_list(); int user; expect_user = &user; bool cb = !s.chance(1, 20); struct my_fileset *fs = my_fileset_init(list.c_str(), cb ? load : nullptr, cb ? unload : nullptr, &user); expect_fs = fs;
  std::map<Str, Obj *> model; // full name -> object
  auto check = [&](const char *when) {
    size_t i = 0; Str prev; for (auto &p : model) { const char *fn = nullptr; void *ptr = (void *)1; CHECK(my_fileset_get(fs, i, &fn, &ptr), "%s: only %zu of %zu files", when, i, model.size()); CHECK(p.first == fn, "%s: file %zu is %s, expected %s", when, i, fn, p.first.c_str()); CHECK(ptr == (void *)p.second, "%s: %s has another object", when, fn); if (p.second) CHECK(!p.second->unloaded, "%s: %s was unloaded", when, fn); i++; }
    const char *fn; void *ptr; CHECK(!my_fileset_get(fs, i, &fn, &ptr) && !my_fileset_get(fs, i + 3, &fn, &ptr), "%s: more than %zu files", when, i); };
  check("before the first load");
  size_t steps = 1 + s.below(25);
  for (size_t k = 0; k < steps; k++) {
    int op = s.weighted({8, 5, 2, 2, 1, 1, 1}); trace += "RWcdvet"[op]; pbt::note("step %zu op %d", k, op);
    switch (op) {
    case 1: write_list(); break;
    case 2: { Str n = names[s.below(NN)]; put(dir + "/" + n, "y"); exist.insert(n); break; }
    case 3: { Str n = names[s.below(NN)]; unlink((dir + "/" + n).c_str()); exist.erase(n); break; }
    case 4: if (present) { unlink((dir + "/set").c_str()); present = false; pbt::classify("list_vanished"); } break;
    case 5: { // the list cannot be opened for lack of descriptors
      loads.clear(); unloads.clear(); struct rlimit rl, z; getrlimit(RLIMIT_NOFILE, &rl); z = rl; z.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &z); my_fileset_reload(fs); setrlimit(RLIMIT_NOFILE, &rl); CHECK(loads.empty() && unloads.empty(), "reload without being able to read the list loads or unloads"); check("after a reload that could not read the list"); pbt::classify("list_not_readable"); break; }
    case 6: if (present) { struct timespec t[2]; tick++; t[0].tv_sec = t[1].tv_sec = s.flip() ? 1000000000 + tick : 1000000000 - tick; t[0].tv_nsec = t[1].tv_nsec = 0; utimensat(AT_FDCWD, (dir + "/set").c_str(), t, 0); changed = true; } break;
    default: {
      loads.clear(); unloads.clear(); my_fileset_reload(fs); std::vector<Str> wl, wu;
      if (present && changed) {
        std::map<Str, Obj *> nm; std::set<Str> want; for (auto &l : lines) if (exist.count(l)) want.insert(setdir + "/" + l); size_t kept = 0; for (auto &p : model) if (want.count(p.first)) { nm[p.first] = p.second; kept++; } else wu.push_back(p.first);
        for (auto &w : want) if (!nm.count(w)) { wl.push_back(w); nm[w] = nullptr; if (cb && !nullobj) for (auto *o : objs) if (o->fname == w && !o->unloaded) { bool used = false; for (auto &p : model) used |= p.second == o; if (!used) nm[w] = o; } }
        if (kept && wl.size() && wu.size()) { pbt::nontrivial(); } model = nm; changed = false; pbt::classify("reloads_of_a_changed_list");
      } else pbt::classify("reloads_without_change");
      std::sort(loads.begin(), loads.end()); std::sort(unloads.begin(), unloads.end()); if (!cb) { wl.clear(); wu.clear(); }
      auto join = [](const std::vector<Str> &v) { Str o; for (auto &x : v) o += x + " "; return o; };
      CHECK(loads == wl, "loaded: %s, expected: %s", join(loads).c_str(), join(wl).c_str()); CHECK(unloads == wu, "unloaded: %s, expected: %s", join(unloads).c_str(), join(wu).c_str()); check("after reload"); } }
  }
  loads.clear(); unloads.clear(); my_fileset_destroy(&fs); CHECK(!fs, "handle not cleared"); my_fileset_destroy(&fs); std::vector<Str> wu; if (cb) for (auto &p : model) wu.push_back(p.first); std::sort(unloads.begin(), unloads.end()); CHECK(unloads == wu && loads.empty(), "destroying unloads %zu files, expected %zu", unloads.size(), wu.size());
  for (auto *o : objs) CHECK(o->unloaded, "%s is never unloaded", o->fname.c_str()); if (pbt::want_sample()) pbt::sample("%s", trace.c_str());
}
