// Runs a program's main in a forked child with stdout and stderr in memory files.
#pragma once
#include "query.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
struct Ran { int code = -1; Str out, err; };
inline Str fd_text(int fd) { Str o; off_t n = lseek(fd, 0, SEEK_END); lseek(fd, 0, SEEK_SET); o.resize(n); size_t at = 0; while (at < o.size()) { ssize_t r = read(fd, &o[at], o.size() - at); if (r <= 0) break; at += r; } o.resize(at); return o; }
inline Str shown(const std::vector<Str> &args) { Str o; for (auto &a : args) { o += " "; o += quote(a); } return o; }
inline Ran run_cli(int (*mainf)(int, char **), const char *name, const std::vector<Str> &args, const std::vector<std::pair<Str, Str>> &env) {
  static int fo = memfd_create("out", 0), fe = memfd_create("err", 0); if (ftruncate(fo, 0) || ftruncate(fe, 0)) abort(); lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
  fflush(stdout); fflush(stderr); pid_t p = fork(); CHECK(p >= 0, "fork");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL); alarm(60);
    dup2(fo, 1); dup2(fe, 2); int z = open("/dev/null", O_RDONLY); if (z >= 0) dup2(z, 0);
    clearenv(); setenv("LC_ALL", "C", 1); for (auto &e : env) setenv(e.first.c_str(), e.second.c_str(), 1);
    std::vector<Str> keep; keep.push_back(name); for (auto &a : args) keep.push_back(a); std::vector<char *> av; for (auto &a : keep) av.push_back(strdup(a.c_str())); int n = av.size(); av.push_back(nullptr);
    exit(mainf(n, av.data()));
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Ran r; r.out = fd_text(fo); r.err = fd_text(fe);
  CHECK(WIFEXITED(st), "%s%s ends with signal %d: %s", name, shown(args).c_str(), WTERMSIG(st), r.err.substr(0, 2000).c_str());
  CHECK(r.err.find("Sanitizer") == Str::npos && r.err.find("runtime error") == Str::npos, "%s%s: %s", name, shown(args).c_str(), r.err.substr(0, 3000).c_str());
  r.code = WEXITSTATUS(st); return r;
}

// The same with a fault on standard output: where it goes, and how many octets it takes.
enum { OUT_FILE, OUT_FULL_DEVICE, OUT_CLOSED };
inline Ran run_cli_faulty(int (*mainf)(int, char **), const char *name, const std::vector<Str> &args, const std::vector<std::pair<Str, Str>> &env, int how, size_t limit) {
  static int fo = memfd_create("out", 0); if (ftruncate(fo, 0)) abort(); lseek(fo, 0, SEEK_SET); int pe[2]; if (pipe(pe)) abort(); fcntl(pe[1], F_SETPIPE_SZ, 1 << 20);
  fflush(stdout); fflush(stderr); pid_t p = fork(); CHECK(p >= 0, "fork");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL); alarm(60); signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
    dup2(pe[1], 2); int z = open("/dev/null", O_RDONLY); if (z >= 0) dup2(z, 0);
    if (how == OUT_FILE) { dup2(fo, 1); struct rlimit l = {limit, limit}; setrlimit(RLIMIT_FSIZE, &l); } else if (how == OUT_FULL_DEVICE) { int f = open("/dev/full", O_WRONLY); dup2(f, 1); } else close(1);
    clearenv(); setenv("LC_ALL", "C", 1); for (auto &e : env) setenv(e.first.c_str(), e.second.c_str(), 1);
    std::vector<Str> keep; keep.push_back(name); for (auto &a : args) keep.push_back(a); std::vector<char *> av; for (auto &a : keep) av.push_back(strdup(a.c_str())); int n = av.size(); av.push_back(nullptr);
    exit(mainf(n, av.data()));
  }
  close(pe[1]); Ran r; char b[4096]; ssize_t k; while ((k = read(pe[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) r.err.append(b, k); close(pe[0]);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.out = fd_text(fo);
  CHECK(WIFEXITED(st), "%s%s ends with signal %d: %s", name, shown(args).c_str(), WTERMSIG(st), r.err.substr(0, 2000).c_str());
  CHECK(r.err.find("Sanitizer") == Str::npos && r.err.find("runtime error") == Str::npos, "%s%s: %s", name, shown(args).c_str(), r.err.substr(0, 3000).c_str());
  r.code = WEXITSTATUS(st); return r;
}
