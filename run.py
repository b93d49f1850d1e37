#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

  run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--seconds S] [--no-fuzz]

VERIF_SEED and VERIF_TIER are the defaults of --seed and --tier.  Exit 0: held; 1: VIOLATION printed; 2: could not build or run.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
WORK = os.path.join(HERE, "work")
CC, CXX = "clang", "clang++"

SAN = ["-fsanitize=address,bounds,vla-bound,bool,return,unreachable,integer-divide-by-zero,null", "-fno-sanitize-recover=all"]
BASE = ["-g1", "-O1", "-fno-omit-frame-pointer", "-pthread"]

def targets():
    t = {}
    def add(pid, src=None, libs=("dnstable",), shim=(), defs=(), link=(), fuzz=True, san=None, cdefs=()):
        t[pid] = dict(src=src or f"checks/{pid}.cpp", libs=libs, shim=list(shim), defs=list(defs), link=list(link), fuzz=fuzz, san=san, cdefs=list(cdefs))
    exec(open(os.path.join(HERE, "targets.py")).read(), dict(add=add))
    return t

def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

_hdr = {}
def headers(dirs):
    k = tuple(dirs)
    if k not in _hdr:
        h = hashlib.sha256()
        for d in dirs:
            for f in sorted(glob.glob(os.path.join(d, "*.h")) + glob.glob(os.path.join(d, "*.hpp")) + glob.glob(os.path.join(d, "*.inc"))):
                h.update(f.encode()); h.update(read(f))
        _hdr[k] = h.hexdigest()
    return _hdr[k]

class BuildError(Exception): pass

def compile_one(src, flags, cxx):
    body = read(src)
    extra = b""
    if re.search(rb'#\s*include\s*"[^"]*\.c"', body):
        for f in sorted(glob.glob(os.path.join(REPO, "libmy/*.c")) + glob.glob(os.path.join(REPO, "dnstable/*.c")) + glob.glob(os.path.join(REPO, "src/*.c"))): extra += read(f)
    hd = [os.path.join(REPO, "dnstable"), os.path.join(REPO, "libmy"), os.path.join(REPO, "src"), os.path.join(HERE, "compat/include"), os.path.join(HERE, "compat"), os.path.join(HERE, "engine"), os.path.join(HERE, "checks"), os.path.join(HERE, "shim")]
    key = sh_hash(src, body, extra, " ".join(flags), headers(hd))
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out): return out
    tmp = out + f".{os.getpid()}.{abs(hash(src))}.tmp"
    cmd = [CXX if cxx else CC] + flags + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    os.replace(tmp, out)
    return out

def build(pid, t, variant):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True); os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    san = t["san"] if t["san"] is not None else SAN
    if variant == "tsan": san = ["-fsanitize=thread"]
    fuzzf = ["-fsanitize=fuzzer-no-link"] if variant == "fuzz" else []
    inc = ["-I" + os.path.join(HERE, "compat/include"), "-I" + os.path.join(HERE, "compat"), "-I" + REPO, "-I" + os.path.join(REPO, "dnstable"), "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "checks")]
    cflags = ["-std=gnu11", "-w", "-D_GNU_SOURCE", "-include", os.path.join(HERE, "compat/config.h")] + BASE + san + fuzzf + inc
    cxxflags = ["-std=c++17", "-Wall", "-Wno-misleading-indentation", "-Wno-unused-function", "-D_GNU_SOURCE"] + BASE + san + inc
    jobs = []   # (src, flags, cxx)
    def repo_c(f, extra=()):
        fl = cflags + list(extra) + t["cdefs"]
        if os.path.basename(f) == "b32_decode.c": fl = ["-include", "stdbool.h"] + fl
        jobs.append((f, fl, False))
    for lib in t["libs"]:
        if lib == "dnstable":
            for f in sorted(glob.glob(os.path.join(REPO, "dnstable/*.c"))): repo_c(f, ["-DSRCDIR=\"%s\"" % REPO])
            lib = "libmy"
            for f in ("compat/mtbl.cpp", "compat/wdns.cpp"): jobs.append((os.path.join(HERE, f), cxxflags, True))
        if lib == "libmy":
            for f in sorted(glob.glob(os.path.join(REPO, "libmy/*.c"))):
                b = os.path.basename(f)
                if b in ("crc32c_test.c", "zonefile.c") or b.startswith("my_queue"): continue
                repo_c(f)
        elif lib.endswith(".c"): repo_c(os.path.join(REPO, lib))
    for s in t["shim"]:
        p = os.path.join(HERE, s)
        if s.endswith(".c"): jobs.append((p, cflags + t["cdefs"], False))
        else: jobs.append((p, cxxflags, True))
    jobs.append((os.path.join(HERE, "engine/pbt.cpp"), cxxflags + (["-DPBT_LIBFUZZER"] if variant == "fuzz" else []), True))
    jobs.append((os.path.join(HERE, t["src"]), cxxflags + t["defs"] + (["-DPBT_TSAN"] if variant == "tsan" else []), True))
    seen = {}
    with ThreadPoolExecutor(8) as ex:
        # start the slow C++ files first
        jobs.sort(key=lambda j: (not j[2],))
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    # sources of /repo go into an archive-like group: only what is needed is linked, in any order
    repo_objs = [o for o, j in zip(objs, jobs) if j[0].startswith(REPO)]
    mine = [o for o, j in zip(objs, jobs) if not j[0].startswith(REPO)]
    key = sh_hash(pid, variant, *objs, *t["link"], *san)
    out = os.path.join(BUILD, "bin", f"{pid}-{variant}-{key}")
    if not os.path.exists(out):
        ar = out + f".{os.getpid()}.a"
        if os.path.exists(ar): os.unlink(ar)
        args = mine
        if repo_objs:
            r = subprocess.run(["ar", "rcs", ar] + repo_objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise BuildError(r.stdout.decode())
            args = mine + [ar]
        tmp = out + f".{os.getpid()}.tmp"
        cmd = [CXX] + BASE + san + (["-fsanitize=fuzzer"] if variant == "fuzz" else []) + args + ["-o", tmp, "-lz", "-lm"] + t["link"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if os.path.exists(ar): os.unlink(ar)
        if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
        os.replace(tmp, out)
    return out

def known_findings(pid):
    p = os.path.join(HERE, "KNOWN_FINDINGS"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+)\s+(.*)", l)
            if m and m.group(1) == pid: out.append(m.group(2).strip())
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick"); ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--replay"); ap.add_argument("--cases"); ap.add_argument("--seconds"); ap.add_argument("--no-fuzz", action="store_true"); ap.add_argument("--fuzz-seconds", type=int, default=150); ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    try: seed = int(a.seed)
    except ValueError: seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:12], 16)
    T = targets()
    if a.pid not in T: print("unknown property", a.pid); return 2
    t = T[a.pid]
    t0 = time.time()
    try:
        exe = build(a.pid, t, "asan")
        fz = build(a.pid, t, "fuzz") if a.tier == "thorough" and t["fuzz"] and not a.no_fuzz and not a.replay else None
    except BuildError as e:
        print("BUILD FAILED\n" + str(e)); return 2
    print(f"built {a.pid} in {time.time()-t0:.1f}s"); sys.stdout.flush()
    if a.build_only: return 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    tmp = os.path.join(WORK, f"tmp.{a.pid}.{os.getpid()}"); os.makedirs(tmp, exist_ok=True); os.chmod(tmp, 0o777)
    env = dict(os.environ, PBT_TMP=tmp, LC_ALL="C", TZ="UTC", VERIF_HOME=HERE)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "DNSTABLE_FNAME", "DNSTABLE_SETFILE"): env.pop(k, None)
    evid = os.path.join(HERE, "evidence", a.pid + ".json")
    replay_out = os.path.join(WORK, "replays", f"{a.pid}-{a.tier}-{seed}.replay")
    base = [exe, "--tier", a.tier, "--seed", str(seed), "--evidence", evid, "--replay-out", replay_out]
    try:
        if a.replay:
            return subprocess.run(base[:5] + ["--replay-out", replay_out + ".r", "--replay", a.replay], env=env).returncode
        if a.cases: base += ["--cases", a.cases]
        if a.seconds: base += ["--seconds", a.seconds]
        rc = None
        if fz:
            corpus = os.path.join(tmp, "corpus"); art = os.path.join(tmp, "art"); os.makedirs(corpus); os.makedirs(art)
            log = os.path.join(tmp, "fuzz.log")
            with open(log, "w") as lf:
                subprocess.run([fz, corpus, "-fork=8", f"-seed={seed or 12345}", f"-max_total_time={a.fuzz_seconds}", "-max_len=4096", "-timeout=30", "-rss_limit_mb=3000", f"-artifact_prefix={art}/", "-print_final_stats=1", "-detect_leaks=0"], stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=tmp, timeout=a.fuzz_seconds + 200)
            ex = re.findall(r"^#(\d+): cov: (\d+) ft: (\d+) corp: (\d+)", open(log, errors="replace").read(), re.M)
            cov = dict(executions=int(ex[-1][0]), edges=int(ex[-1][1]), features=int(ex[-1][2]), corpus=int(ex[-1][3])) if ex else {}
            for c in sorted(glob.glob(art + "/crash-*") + glob.glob(art + "/timeout-*")):
                rc = subprocess.run(base + ["--bytes", c], env=env).returncode
                if rc == 1: return report(rc, a.pid)
                print("coverage-guided artifact did not reproduce:", os.path.basename(c))
            base += ["--extra-coverage", json.dumps(cov)]
        rc = subprocess.run(base, env=env).returncode
        return report(rc, a.pid)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def report(rc, pid):
    if rc in (0, 1):
        for k in known_findings(pid): print(f"KNOWN-FINDING: property={pid} {k}")
        return rc
    print("check ended abnormally", rc)
    return 2

sys.exit(main())
