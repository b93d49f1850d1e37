#!/usr/bin/env python3
"""Builds and tries planted bugs described in tools/seeds/*.py (lists SEEDS of dicts) and keeps them in seeded/.

  seed.py [-n] [ID ...]      -n: only try the demonstrations, do not run the checks
A seed: id, prop, file, edits [(old, new[, n])], kind "dns"|"my"|"sh", demo (text), needs, breaks, src/san/ld/leak for the scripts.
Everything is tried in a scratch copy of /repo under /tmp.
"""
import sys, os, subprocess, json, shutil, glob, re, time
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; K = V + "/tools/seedkit"
S = {}
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    d = {}; exec(open(f).read(), d)
    for s in d["SEEDS"]:
        assert s["id"] not in S, s["id"]; S[s["id"]] = s
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def own(diff, w):
    """A patch has to change lines of the original repository and none which a fix: commit added."""
    base = sh(["git", "-C", w, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]; f = None; n = 0
    for l in diff.splitlines():
        if l.startswith("--- "): f = l[6:]; bl = sh(["git", "-C", w, "blame", "-s", "-l", "HEAD", "--", f]).stdout.splitlines()
        elif l.startswith("@@"): k = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("+"): pass
        elif f is not None and l[:1] in " -":
            if l[0] == "-":
                n += 1
                if bl[k].split()[0].lstrip("^") not in base and not base.startswith(bl[k].split()[0].lstrip("^")): return "changes a line which is not original: " + l
            k += 1
    return None if n else "changes no original line"
def prepare(s):
    d = f"{V}/seeded/{s['id']}"; w = f"/tmp/seed_{s['id']}"
    shutil.rmtree(w, ignore_errors=True); sh(["cp", "-a", "/repo", w]); sh(["git", "-C", w, "checkout", "--", "."])
    edits = s["edits"]; 
    for e in edits:
        f = s["file"]
        if len(e) == 3: f = e[2]
        p = f"{w}/{f}"; t = open(p).read()
        if t.count(e[0]) != 1: return f"edit matches {t.count(e[0])} times: {e[0]!r}"
        open(p, "w").write(t.replace(e[0], e[1]))
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
    if not diff: return "empty diff"
    e = own(diff.decode(errors="replace"), w)
    if e: return e
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "wb").write(diff)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    kind = s["kind"]
    if kind == "dns":
        t = open(K + "/demo_dns.sh").read().replace("@LD@", s.get("ld", "")).replace("@LEAK@", "1" if s.get("leak") else "0").replace("@XF@", s.get("xf", ""))
        os.makedirs(d + "/stub"); 
        for f in ("compat/mtbl.cpp", "compat/wdns.cpp", "compat/config.h", "compat/include/mtbl.h", "compat/include/wdns.h"): shutil.copy(f"{V}/{f}", d + "/stub/")
        shutil.copy(K + "/dh.h", d); open(d + "/demo.cpp", "w").write(s["demo"])
    elif kind == "my":
        t = open(K + "/demo_my.sh").read().replace("@LD@", s.get("ld", "")).replace("@SAN@", s.get("san", "-fsanitize=address")).replace("@SRC@", " ".join('"$R/%s"' % x for x in s.get("src", [])))
        open(d + "/demo.c", "w").write(s["demo"])
    else: t = s["demo"]
    for n, x in s.get("files", {}).items(): open(d + "/" + n, "w").write(x)
    open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
    return None
def trial(i, checks):
    s = S[i]; w = f"/tmp/seed_{i}"; d = f"{V}/seeded/{i}"
    try:
        e = prepare(s)
        if e: return i, "BAD " + e
        # everything compiles?
        for f in sorted(set([s["file"]] + [e[2] for e in s["edits"] if len(e) == 3])):
            if f.endswith(".c"):
                r = sh(["gcc", "-w", "-std=gnu11", "-D_GNU_SOURCE", "-include", "stdbool.h", "-include", V + "/compat/config.h", "-I" + w, "-I" + V + "/compat", "-I" + V + "/compat/include", "-I" + w + "/libmy", "-I" + w + "/dnstable", "-msse4.2" if "sse" in f else "-w", "-fsyntax-only", w + "/" + f])
                if r.returncode: return i, "BAD does not compile\n" + r.stdout
        tmp = f"/tmp/seeddemo_{i}"; shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r0 = sh(["bash", tmp + "/demo.sh"], cwd="/repo"); r1 = sh(["bash", tmp + "/demo.sh"], cwd=w); shutil.rmtree(tmp)
        if r0.returncode: return i, "BAD demo fails on the unchanged tree\n" + r0.stdout[-400:]
        if r1.returncode == 0: return i, "BAD demo passes with the patch\n" + r1.stdout[-400:]
        if r1.returncode == 2 and "FAILED" not in r1.stdout: return i, "BAD demo could not run with the patch\n" + r1.stdout[-400:]
        if not checks: return i, "demo ok (%d)" % r1.returncode
        out = ""
        for p in [s["prop"]] + s.get("also", []):
            t0 = time.time(); r = sh(["python3", V + "/run.py", p], cwd=V, env=dict(os.environ, VERIF_REPO=w))
            m = re.findall(r"^(VIOLATION.*|violation:.*|BUILD FAILED.*)$", r.stdout, re.M)
            det = [l for l in r.stdout.splitlines() if l and not l.startswith(("built", "property="))]
            out += f" {p}:{'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'} {time.time()-t0:.0f}s " + (" | ".join(det)[:260] if r.returncode else "")
        return i, out
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; checks = "-n" not in a; ids = [x for x in a if x != "-n"] or list(S)
    with ThreadPoolExecutor(3 if checks else 6) as ex:
        for i, o in ex.map(lambda i: trial(i, checks), ids): print(i, o, flush=True)
