#include "pbt.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <map>
#include <set>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define PBT_ASAN 1
# endif
#endif
#ifdef __SANITIZE_ADDRESS__
# define PBT_ASAN 1
#endif
#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=78:abort_on_error=0:quarantine_size_mb=8:allocator_may_return_null=1:"
         "max_allocation_size_mb=2000:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=0:print_summary=1:allow_user_segv_handler=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
#else
# include <malloc.h>
#endif

namespace pbt {

static uint64_t *rec_shared; static const uint64_t REC_MAX = (1u << 21) - 1;
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }

uint64_t Src::raw() {
  // xoroshiro128+
  uint64_t s0 = st[0], s1 = st[1], r = s0 + s1;
  s1 ^= s0;
  st[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
  st[1] = (s1 << 37) | (s1 >> 27);
  return r;
}

uint64_t Src::below(uint64_t n) {
  uint64_t v;
  switch (mode) {
  case RNG: v = mix(raw()); v = n ? (uint64_t)(((unsigned __int128)v * n) >> 64) : v; break;
  case REPLAY: v = rec.size() < nrep ? rep[rec.size()] : 0; if (n) v %= n; break;
  default: {
    int k = n == 0 ? 8 : n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x1000000 ? 3 : n <= 0x100000000ULL ? 4 : 8;
    v = 0;
    for (int i = 0; i < k; i++) v = (v << 8) | (bpos < nby ? by[bpos++] : 0);
    if (n) v %= n;
  } }
  rec.push_back(v);
  if (rec_shared && rec_shared[0] < REC_MAX) rec_shared[++rec_shared[0]] = v;
  return v;
}

uint64_t Src::u64() {
  switch (weighted({4, 3, 3, 1})) {
  case 0: return below(300);
  case 1: { unsigned sh = below(64); return (1ULL << sh) + below(5) - 2; }         // around powers of two
  case 2: { unsigned b = 1 + below(9); uint64_t base = b * 7 >= 64 ? 0 : 1ULL << (b * 7); return base + below(3) - 1; } // varint boundaries
  default: { unsigned bits = below(65); uint64_t v = below(0); return bits == 64 ? v : bits == 0 ? 0 : v & ((1ULL << bits) - 1); }
  }
}

size_t Src::size(size_t max) {
  if (max == 0) return 0;
  switch (weighted({6, 3, 1})) {
  case 0: return below(std::min<size_t>(max, 4) + 1);
  case 1: return below(std::min<size_t>(max, 20) + 1);
  default: return below(max + 1);
  }
}

std::string hex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef"; std::string o;
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { o += d[b[i] >> 4]; o += d[b[i] & 15]; }
  return o;
}
std::string quote(const std::string &s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c >= 32 && c < 127) o += c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
  return o + "\"";
}

enum { NCLS = 128, NSAMP = 4, SAMPSZ = 3000, MAXH = 1 << 17, MSG = 16000 };
struct Shared {
  volatile uint64_t cur; volatile int phase; // 0 idle 1 fixed 2 random
  volatile int failed;
  uint64_t evals, nontriv, hcount, fixed_done;
  struct { char name[64]; uint64_t n; } cls[NCLS];
  char samp[NSAMP][SAMPSZ]; int nsamp;
  char msg[MSG];
  volatile int done;
  uint64_t hashes[MAXH];
};
static Shared *sh;
static Src *cur_src;
static bool cur_nontriv, is_verbose;
static std::string notes;
static std::string tmp;
static uint64_t samp_tick;
static std::map<std::string, int> cls_idx;

bool verbose() { return is_verbose; }
void note(const char *fmt, ...) {
  char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (notes.size() < 12000) { notes += b; notes += "\n"; }
  if (is_verbose) fprintf(stderr, "note: %s\n", b);
}
void fail(const char *fmt, ...) {
  char b[6000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fprintf(stderr, "PROPERTY FAILURE: %s\n%s", b, notes.c_str());
  fflush(stderr);
#ifdef PBT_LIBFUZZER
  abort();
#endif
  if (sh) { snprintf(sh->msg, MSG, "%s\n%s", b, notes.c_str()); sh->failed = 1; }
  _exit(77);
}
static uint64_t hash_choices(const std::vector<uint64_t> &v) { uint64_t h = 1469598103934665603ULL; for (auto x : v) h = mix(h ^ x); return h; }
void nontrivial() { cur_nontriv = true; }
void classify(const char *name, uint64_t n) {
  if (!sh) return;
  auto it = cls_idx.find(name);
  int i;
  if (it == cls_idx.end()) {
    i = cls_idx.size(); if (i >= NCLS) return;
    cls_idx[name] = i; snprintf(sh->cls[i].name, 64, "%s", name);
  } else i = it->second;
  sh->cls[i].n += n;
}
void known(const char *key) { classify((std::string("known:") + key).c_str()); }
static bool sample_due;
bool want_sample() { return is_verbose || (sh && sample_due && sh->nsamp < NSAMP); }
void sample(const char *fmt, ...) {
  if (!want_sample()) return;
  char b[SAMPSZ]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (is_verbose) fprintf(stderr, "case: %s\n", b);
  if (sh && sh->nsamp < NSAMP) { memcpy(sh->samp[sh->nsamp], b, SAMPSZ); sh->nsamp++; sample_due = false; }
}
size_t live_bytes() {
#ifdef PBT_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return mallinfo2().uordblks;
#endif
}
static pid_t tmp_pid;
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rm_tmp() { if (!tmp.empty() && tmp_pid == getpid()) { nftw(tmp.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); tmp.clear(); } }
static std::string tmp_root() { const char *r = getenv("PBT_TMP"); return r ? r : "/tmp"; }
const char *tmpdir() {
  if (tmp.empty() || tmp_pid != getpid()) {
    std::string t = tmp_root() + "/pbt-" + config.property + "-XXXXXX";
    if (!mkdtemp(t.data())) { perror("mkdtemp"); _exit(3); }
    tmp = t; tmp_pid = getpid();
  }
  return tmp.c_str();
}

static void on_prof(int) { static const char m[] = "HANG: cpu limit for one case exceeded\n"; if (write(2, m, sizeof m - 1)) {} if (sh) { strcpy(sh->msg, m); sh->failed = 1; } _exit(79); }
static void on_alrm(int) { static const char m[] = "HANG: wall limit for one case exceeded\n"; if (write(2, m, sizeof m - 1)) {} if (sh) { strcpy(sh->msg, m); sh->failed = 1; } _exit(79); }
static void arm() {
  struct itimerval it = {}; it.it_value.tv_sec = config.cpu_limit_s; setitimer(ITIMER_PROF, &it, nullptr);
  alarm(config.wall_limit_s);
}
static void handlers() { signal(SIGPROF, on_prof); signal(SIGALRM, on_alrm); }

static void run_src(Src &s) {
  cur_src = &s; cur_nontriv = false; notes.clear(); notes.reserve(17000);
  pbt_case(s);
  if (sh) {
    sh->evals++;
    if (cur_nontriv) { sh->nontriv++; if (sh->hcount < MAXH) sh->hashes[sh->hcount++] = hash_choices(s.rec); }
  }
}
static void run_fixed(uint64_t i) {
  cur_nontriv = false; notes.clear(); notes.reserve(17000);
  pbt_fixed(i);
  if (sh) { sh->evals++; sh->fixed_done++; if (cur_nontriv) { sh->nontriv++; if (sh->hcount < MAXH) sh->hashes[sh->hcount++] = mix(i ^ 0xf1f1f1f1ULL); } }
}
static void seed_src(Src &s, uint64_t seed, uint64_t i) { s.mode = Src::RNG; s.st[0] = mix(mix(seed) ^ i); s.st[1] = mix(s.st[0] ^ 0x5555) | 1; s.rec.clear(); }

#ifndef PBT_LIBFUZZER
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

// What failed: either one fixed case, one choice sequence, or a range of random cases in one process.
struct Repro { int kind = 0; uint64_t fixed = 0; std::vector<uint64_t> ch; uint64_t seed = 0, from = 0, to = 0, step = 1; std::string bytes; };

static Shared *mkshared() { void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (Shared *)p; }

// run in a child; returns true if it failed. errfile receives stderr.
static bool try_repro(const Repro &r, Shared *s, const char *errfile, std::string *msg, std::vector<uint64_t> *recout = nullptr) {
  s->failed = 0; s->msg[0] = 0; s->hcount = 0; s->evals = 0; s->nsamp = NSAMP; 
  static uint64_t *recbuf;
  if (recout && !recbuf) { void *p = mmap(nullptr, (REC_MAX + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } recbuf = (uint64_t *)p; }
  if (recout) recbuf[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); }
    sh = s; handlers(); pbt_init(); arm();
    if (recout) rec_shared = recbuf;
    if (r.kind == 1) run_fixed(r.fixed);
    else if (r.kind == 2) { Src x; x.mode = Src::REPLAY; x.rep = r.ch.data(); x.nrep = r.ch.size(); run_src(x); }
    else if (r.kind == 4) { Src x; x.mode = Src::BYTES; x.by = (const uint8_t *)r.bytes.data(); x.nby = r.bytes.size(); run_src(x); }
    else for (uint64_t i = r.from; i <= r.to; i += r.step) { Src x; seed_src(x, r.seed, i); arm(); run_src(x); }
    rm_tmp();
    _exit(0);
  }
  setpgid(p, p);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  kill(-p, SIGKILL);
  if (recout) recout->assign(recbuf + 1, recbuf + 1 + recbuf[0]);
  bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (bad && msg) {
    *msg = s->msg;
    if (msg->empty()) { char b[100]; if (WIFSIGNALED(st)) snprintf(b, 100, "killed by signal %d", WTERMSIG(st)); else snprintf(b, 100, "exit status %d", WEXITSTATUS(st)); *msg = b; }
  }
  return bad;
}

static std::string slurp(const char *f, size_t max = 60000) { std::string o; FILE *fp = fopen(f, "r"); if (!fp) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && o.size() < max) o.append(b, n); fclose(fp); return o; }

static void shrink(Repro &r, Shared *s, const char *errf, double deadline) {
  unsigned execs = 0;
  auto ok = [&](const std::vector<uint64_t> &c) { if (now() > deadline || execs > 4000) return false; execs++; Repro t = r; t.ch = c; return try_repro(t, s, errf, nullptr); };
  // strip trailing zeros is free (missing choices are zero)
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    while (!r.ch.empty() && r.ch.back() == 0) r.ch.pop_back();
    // truncate
    for (size_t k = r.ch.size() / 2; k >= 1; k /= 2)
      while (r.ch.size() >= k) { auto c = r.ch; c.resize(c.size() - k); if (c.size() != r.ch.size() && ok(c)) { r.ch = c; progress = true; } else break; }
    // delete chunks
    for (size_t k = std::max<size_t>(1, r.ch.size() / 4); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= r.ch.size();) {
        auto c = r.ch; c.erase(c.begin() + i, c.begin() + i + k);
        if (ok(c)) { r.ch = c; progress = true; } else i += k;
        if (now() > deadline) break;
      }
      if (k == 1 && r.ch.size() > 300) break;
    }
    // delete one and decrement an earlier (length) choice
    for (size_t i = 0; i < r.ch.size() && r.ch.size() < 200; i++) {
      if (r.ch[i] == 0) continue;
      for (size_t j = i + 1; j < r.ch.size() && j < i + 4; j++) { auto c = r.ch; c[i]--; c.erase(c.begin() + j); if (ok(c)) { r.ch = c; progress = true; break; } }
      if (now() > deadline) break;
    }
    // zero chunks, then minimise single values
    for (size_t k = 8; k >= 1; k /= 2)
      for (size_t i = 0; i + k <= r.ch.size(); i += k) {
        bool nz = false; for (size_t j = i; j < i + k; j++) nz |= r.ch[j] != 0;
        if (!nz) continue;
        auto c = r.ch; for (size_t j = i; j < i + k; j++) c[j] = 0;
        if (ok(c)) { r.ch = c; progress = true; }
        if (now() > deadline) break;
      }
    for (size_t i = 0; i < r.ch.size(); i++) {
      if (r.ch[i] == 0) continue;
      uint64_t lo = 0, hi = r.ch[i];  // hi fails
      while (lo + 1 < hi) { uint64_t m = lo + (hi - lo) / 2; auto c = r.ch; c[i] = m; if (ok(c)) { hi = m; r.ch = c; progress = true; } else lo = m; if (now() > deadline || hi - lo > (1ULL << 40)) { if (now() > deadline) break; } }
      if (now() > deadline) break;
    }
  }
}

static std::string jstr(const std::string &s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}

static void write_replay(const std::string &path, const Repro &r, const std::string &msg) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); return; }
  fprintf(f, "# property %s\n", config.property);
  std::string m = msg; for (auto &c : m) if (c == '\n') c = ' ';
  fprintf(f, "# %s\n", m.c_str());
  if (r.kind == 1) fprintf(f, "fixed %llu\n", (unsigned long long)r.fixed);
  else if (r.kind == 2) { fprintf(f, "choices"); for (auto x : r.ch) fprintf(f, " %llu", (unsigned long long)x); fprintf(f, "\n"); }
  else fprintf(f, "range %llu %llu %llu %llu\n", (unsigned long long)r.seed, (unsigned long long)r.from, (unsigned long long)r.to, (unsigned long long)r.step);
  fclose(f);
}
static bool read_replay(const char *path, Repro &r) {
  FILE *f = fopen(path, "r"); if (!f) return false;
  char *line = nullptr; size_t n = 0; bool ok = false;
  while (getline(&line, &n, f) > 0) {
    if (line[0] == '#') continue;
    if (!strncmp(line, "fixed ", 6)) { r.kind = 1; r.fixed = strtoull(line + 6, 0, 10); ok = true; }
    else if (!strncmp(line, "choices", 7)) { r.kind = 2; char *p = line + 7, *e; for (;;) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; r.ch.push_back(v); p = e; } ok = true; }
    else if (!strncmp(line, "range ", 6)) { unsigned long long a, b, c, d; if (sscanf(line + 6, "%llu %llu %llu %llu", &a, &b, &c, &d) == 4) { r.kind = 3; r.seed = a; r.from = b; r.to = c; r.step = d; ok = true; } }
  }
  free(line); fclose(f); return ok;
}

static int usage() { fprintf(stderr, "usage: check --tier quick|thorough --seed N --evidence F --replay-out F [--cases N] [--seconds S] [--replay F] [--bytes F]\n"); return 3; }

static int driver(int argc, char **argv) {
  std::string tier = "quick", evidence, replay_out = "/tmp/replay", replay_in, bytes_in; uint64_t seed = 1, cases = 0; double seconds = 0; std::vector<std::string> extra; std::string extra_cov;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; if (i + 1 >= argc) return usage(); std::string v = argv[++i];
    if (a == "--tier") tier = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--evidence") evidence = v; else if (a == "--replay-out") replay_out = v;
    else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10); else if (a == "--seconds") seconds = atof(v.c_str()); else if (a == "--replay") replay_in = v; else if (a == "--bytes") bytes_in = v; else if (a == "--extra-coverage") extra_cov = v; else return usage();
  }
  bool thorough = tier == "thorough";
  double t0 = now();
  Shared *rs = mkshared();
  std::string errf = replay_out + ".stderr";
  if (!replay_in.empty()) {
    Repro r; if (!read_replay(replay_in.c_str(), r)) { fprintf(stderr, "cannot read replay %s\n", replay_in.c_str()); return 3; }
    is_verbose = true; std::string msg; unsigned tries = config.nondet ? 200 : 1; bool bad = false;
    for (unsigned i = 0; i < tries && !bad; i++) bad = try_repro(r, rs, errf.c_str(), &msg);
    fputs(slurp(errf.c_str()).c_str(), stderr); unlink(errf.c_str());
    if (bad) { printf("%s\nVIOLATION property=%s replay=%s\n", msg.c_str(), config.property, replay_in.c_str()); return 1; }
    printf("replay: property held\n"); return 0;
  }
  Repro found; bool have = false; std::string why;
  uint64_t nfixed = pbt_fixed_count(thorough);
  double cap = seconds > 0 ? seconds : thorough ? config.thorough_s : config.quick_cap_s;
  uint64_t ncases = cases ? cases : thorough ? UINT64_MAX : config.quick_cases;
  unsigned W = config.workers; std::vector<Shared *> S(W); std::vector<pid_t> pid(W, 0); std::vector<std::string> errfs(W);
  std::vector<std::string> unrepro; unsigned suppressed = 0; bool range_repro = false;
  if (!bytes_in.empty()) {
    std::string d = slurp(bytes_in.c_str(), 1 << 22);
    Repro r; r.kind = 4; r.bytes = d; std::string m;
    std::vector<uint64_t> ch; bool bad = false;
    for (int k = 0; k < (config.nondet ? 100 : 1) && !bad; k++) bad = try_repro(r, rs, errf.c_str(), &m, &ch);
    if (!bad) { printf("replay of %s: property held\n", bytes_in.c_str()); unlink(errf.c_str()); return 0; }
    found.kind = 2; found.ch = ch;
    have = true; why = "libFuzzer input";
  } else {
    for (unsigned w = 0; w < W; w++) { S[w] = mkshared(); errfs[w] = replay_out + ".w" + std::to_string(w); }
    std::vector<uint64_t> start_fixed(W), start_case(W);
    auto spawn = [&](unsigned w, uint64_t ff, uint64_t fc) {
      fflush(stdout); fflush(stderr);
      start_case[w] = fc;
      pid_t p = fork();
      if (p < 0) { perror("fork"); exit(3); }
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0);
        int fd = open(errfs[w].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
        fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); }
        sh = S[w]; handlers(); pbt_init();
        for (int i = 0; i < NCLS && sh->cls[i].name[0]; i++) cls_idx[sh->cls[i].name] = i;
        sample_due = true;
        sh->phase = 1;
        for (uint64_t i = ff; i < nfixed; i += W) { sh->cur = i; arm(); run_fixed(i); if (now() - t0 > cap) break; }
        sh->phase = 2; samp_tick = 0;
        uint64_t gap = 1;
        for (uint64_t k = 0, i = fc; i < ncases; i += W, k++) {
          sh->cur = i; if ((k & 15) == 0 && now() - t0 > cap) break;
          if (k == gap) { sample_due = true; gap = gap * 4 + w; }
          Src s; seed_src(s, seed, i); arm(); run_src(s);
        }
        sh->done = 1; alarm(0); rm_tmp(); _exit(0);
      }
      setpgid(p, p); pid[w] = p;
    };
    for (unsigned w = 0; w < W; w++) spawn(w, w, w);
    unsigned alive = W;
    while (alive) {
      int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
      unsigned w = 0; for (; w < W; w++) if (pid[w] == p) break;
      if (w == W) continue;
      kill(-p, SIGKILL);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S[w]->done) { alive--; pid[w] = 0; continue; }
      // a failure: stop the rest, reproduce
      std::string msg = S[w]->msg; if (msg.empty()) { char b[100]; if (WIFSIGNALED(st)) snprintf(b, 100, "killed by signal %d", WTERMSIG(st)); else snprintf(b, 100, "exit status %d", WEXITSTATUS(st)); msg = b; }
      Repro r; 
      if (S[w]->phase == 1) { r.kind = 1; r.fixed = S[w]->cur; }
      else { // recover the choices: run generator in replay with seed => use range of one first
        r.kind = 3; r.seed = seed; r.from = r.to = S[w]->cur; r.step = 1; }
      std::string m2; bool again = false; unsigned tries = config.nondet ? 300 : 2;
      for (unsigned k = 0; k < tries && !again; k++) again = try_repro(r, rs, errf.c_str(), &m2);
      bool prefix = false;
      if (!again && S[w]->phase == 2 && !config.nondet) {
        Repro q = r; q.from = start_case[w]; q.step = W; 
        again = try_repro(q, rs, errf.c_str(), &m2); if (again) { r = q; prefix = true; }
      }
      if (again) { have = true; found = r; why = m2; range_repro = prefix; for (unsigned x = 0; x < W; x++) if (pid[x] > 0 && x != w) { kill(-pid[x], SIGKILL); kill(pid[x], SIGKILL); } break; }
      unrepro.push_back("case " + std::to_string((unsigned long long)S[w]->cur) + ": " + msg + " / " + slurp(errfs[w].c_str(), 2000));
      if (++suppressed > 20) { alive--; pid[w] = 0; continue; }
      // continue behind it
      if (S[w]->phase == 1) spawn(w, S[w]->cur + W, w); else spawn(w, nfixed, S[w]->cur + W);
    }
    for (unsigned x = 0; x < W; x++) if (pid[x] > 0) { int st; waitpid(pid[x], &st, 0); }
    for (auto &e : errfs) unlink(e.c_str());
  }
  int rc = 0; std::string replay_path;
  if (have) {
    // turn a single random case into a choice list, then shrink
    if (found.kind == 3 && found.from == found.to) {
      std::vector<uint64_t> ch; std::string m; bool bad = false;
      for (int k = 0; k < (config.nondet ? 200 : 1) && !bad; k++) bad = try_repro(found, rs, errf.c_str(), &m, &ch);
      Repro t; t.kind = 2; t.ch = ch; bad = false;
      for (int k = 0; k < (config.nondet ? 200 : 1) && !bad; k++) bad = try_repro(t, rs, errf.c_str(), &m);
      if (bad) found = t;
    }
    bool det = !config.nondet;
    if (!det) { std::string m; det = true; for (int k = 0; k < 3 && det; k++) det = try_repro(found, rs, errf.c_str(), &m); }
    if (found.kind == 2 && det && !getenv("PBT_NO_SHRINK")) shrink(found, rs, errf.c_str(), now() + 45);
    unsigned rep = 0; std::string m; unsigned need = config.nondet ? 1 : 3;
    for (unsigned k = 0; k < (config.nondet ? 300u : 3u) && rep < need; k++) if (try_repro(found, rs, errf.c_str(), &m)) rep++;
    if (rep >= need) {
      replay_path = replay_out; write_replay(replay_path, found, m);
      std::string err = slurp(errf.c_str(), 12000);
      printf("%s\n---- stderr of the failing run ----\n%s\n----\n", m.c_str(), err.c_str());
      printf("VIOLATION property=%s replay=%s\n", config.property, replay_path.c_str()); rc = 1; why = m;
    } else { unrepro.push_back("not reproducible after shrinking: " + why); }
  }
  unlink(errf.c_str());
  // evidence
  uint64_t ev = 0, nt = 0, fx = 0; std::unordered_set<uint64_t> hs; std::map<std::string, uint64_t> cls; std::vector<std::string> samp;
  for (auto s : S) if (s) { ev += s->evals; nt += s->nontriv; fx += s->fixed_done; for (uint64_t i = 0; i < s->hcount; i++) hs.insert(s->hashes[i]);
    for (int i = 0; i < NCLS && s->cls[i].name[0]; i++) cls[s->cls[i].name] += s->cls[i].n; for (int i = 0; i < s->nsamp; i++) samp.push_back(s->samp[i]); }
  if (!evidence.empty()) {
    FILE *f = fopen(evidence.c_str(), "w"); if (!f) { perror(evidence.c_str()); return 3; }
    fprintf(f, "{\"property\":%s,\"tier\":%s,\"seed\":%llu,\"level\":\"exploration\",\"coverage\":{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"nontrivial_total\":%llu,\"enumerated_cases\":%llu,\"rule\":%s,\"samples\":[", jstr(config.property).c_str(), jstr(tier).c_str(), (unsigned long long)seed, (unsigned long long)ev, (unsigned long long)hs.size(), (unsigned long long)nt, (unsigned long long)fx, jstr(config.rule).c_str());
    if (samp.empty()) samp.push_back(have ? "failing: " + why : std::string("(none)"));
    for (size_t i = 0; i < samp.size() && i < 12; i++) fprintf(f, "%s%s", i ? "," : "", jstr(samp[i]).c_str());
    fprintf(f, "],\"classes\":{"); bool first = true; for (auto &c : cls) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"unreproduced\":["); for (size_t i = 0; i < unrepro.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(unrepro[i]).c_str());
    fprintf(f, "]%s%s},\"wall_s\":%.2f,\"violations\":%d}\n", extra_cov.empty() ? "" : ",\"coverage_guided\":", extra_cov.c_str(), now() - t0, rc);
    fclose(f);
  }
  for (auto &u : unrepro) printf("UNREPRODUCED (not reported as a violation): %s\n", u.c_str());
  printf("property=%s tier=%s seed=%llu evaluations=%llu distinct_nontrivial=%zu wall=%.1fs %s\n", config.property, tier.c_str(), (unsigned long long)seed, (unsigned long long)ev, hs.size(), now() - t0, rc ? "VIOLATED" : "held");
  return rc;
}
#endif

} // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerInitialize(int *, char ***) { pbt_init(); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  pbt::Src s; s.mode = pbt::Src::BYTES; s.by = d; s.nby = n;
  pbt::run_src(s);
  return 0;
}
#else
int main(int argc, char **argv) { return pbt::driver(argc, argv); }
#endif
