#!/usr/bin/env python3
"""Development aid (no check uses it): small syntactic mutants of /repo's sources, run against the checks responsible for the file.

  mutate.py WORKDIR [-n N] [-s SEED] [-o OUT] FILE...      writes one line per mutant: KILLED by / SURVIVED / NOBUILD

Run it from a copy of /verif (it fills build/).  Survivors are to be read by hand: equivalent, unspecified, or a gap.
"""
import argparse, glob, os, random, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "C07 C08 C09 C10 C13 C11 C12 C16 C15 C17 C14 C21 C25 C18 C27 C22".split()
MAP = {"dnstable/query.c": Q, "dnstable/query_mtbl.c": ["C19"] + Q, "dnstable/entry.c": "C01 C02 C03 C04 C20 C16 C21 C27".split(), "dnstable/merge.c": "C05 C06 C12 C07 C11".split(),
  "dnstable/reader.c": "C18 C12 C21 C15 C20".split(), "dnstable/triplet.c": "C05 C11 C12 C02 C01".split(), "dnstable/util.c": ["C20"] + Q[:4], "dnstable/iter.c": ["C21"] + Q,
  "dnstable/dnstable-private.h": ["C01"] + Q, "src/dnstable_lookup.c": ["C22", "C26"], "src/dnstable_dump.c": ["C23", "C26"], "src/dnstable_merge.c": ["C24"], "src/dnstable_merge.py": ["C24"],
  "libmy/argv.c": ["L13", "L20"], "libmy/varint.c": ["L01"], "libmy/crc32c.c": ["L02"], "libmy/crc32c-slicing.c": ["L02"], "libmy/crc32c-sse42.c": ["L02"],
  "libmy/b64_encode.c": ["L03"], "libmy/b64_decode.c": ["L03"], "libmy/b32_encode.c": ["L04"], "libmy/b32_decode.c": ["L04"], "libmy/hex_decode.h": ["L05"], "libmy/ip_arith.h": ["L06"],
  "libmy/vector.h": ["L07", "L20"], "libmy/ubuf.h": ["L07", "L15", "L20"], "libmy/heap.c": ["L08", "L20"], "libmy/my_queue.c": ["L09"], "libmy/my_queue_mb.c": ["L09"], "libmy/my_queue_mutex.c": ["L09"],
  "libmy/my_fileset.c": ["L10", "L20"], "libmy/spooldir.c": ["L11", "L20"], "libmy/list.h": ["L12"], "libmy/tree.h": ["L12"], "libmy/rb_tree.h": ["L12"], "libmy/my_time.h": ["L14"],
  "libmy/my_format.c": ["L15"], "libmy/print_string.h": ["L15", "C04"], "libmy/string_replace.h": ["L15"], "libmy/zonefile.c": ["L16", "L20"], "libmy/lookup3.c": ["L17"],
  "libmy/threadnum.c": ["L18"], "libmy/atomic_ptr.h": ["L18"], "libmy/atomic.h": ["L18"], "libmy/atomic_64.h": ["L18"], "libmy/read_bytes.h": ["L15"], "libmy/getenv_int.h": ["L15"], "libmy/fast_inet_ntop.h": ["L15"], "libmy/my_rate.c": ["L19"]}

def strip(line, st):
    """blank out comments and string literals, keeping columns; st: in block comment"""
    out = []; i = 0
    while i < len(line):
        if st[0]:
            if line.startswith("*/", i): st[0] = False; out.append("  "); i += 2
            else: out.append(" "); i += 1
        elif line.startswith("/*", i): st[0] = True; out.append("  "); i += 2
        elif line.startswith("//", i): out.append(" " * (len(line) - i)); break
        elif line[i] in "\"'":
            q = line[i]; j = i + 1
            while j < len(line) and line[j] != q: j += 2 if line[j] == "\\" else 1
            out.append(q + "." * (min(j, len(line)) - i - 1) + q); i = j + 1
        else: out.append(line[i]); i += 1
    return "".join(out)

RULES = [(r"==", "!="), (r"!=", "=="), (r"(?<![<>\-=])<(?![<=])(?=\s)", "<="), (r"(?<=\s)>(?![>=])", ">="), (r"<=(?!>)", "<"), (r"(?<!-)>=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
  (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r"\+=", "-="), (r"(?<![-])-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bdnstable_res_failure\b", "dnstable_res_success"),
  (r"\bdnstable_res_success\b", "dnstable_res_failure"), (r"\bmtbl_res_failure\b", "mtbl_res_success"), (r"\bmtbl_res_success\b", "mtbl_res_failure"), (r"\bNULL\b(?=\))", "(void*)1"),
  (r"(?<![\w.\[])(\d+)(?![\w.\]])", "+1"), (r"(?<![\w.\[])([1-9]\d*)(?![\w.\]])", "-1"), (r"(?<=\()!(?=[\w(])", ""), (r" \| ", " & "), (r" & ", " | "), (r"<<", ">>"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\bif \(", "if (!"), (r"\bwhile \((?!true)", "while (0 && "),]

def mutants(path):
    L = open(path).read().split("\n"); st = [False]; out = []; depth = 0; pp = False
    for n, l in enumerate(L):
        was = pp; pp = l.rstrip().endswith("\\") and (pp or l.lstrip().startswith("#"))
        s = strip(l, st)
        body = depth > 0 or path.endswith(".h")
        if l.lstrip().startswith("#") and not path.endswith(".h"): continue
        if not body and not re.match(r"\s", l): 
            depth += s.count("{") - s.count("}"); continue
        d0 = depth; depth += s.count("{") - s.count("}")
        if re.search(r"\bassert\s*\(", s): continue
        for pat, rep in RULES:
            for m in re.finditer(pat, s):
                new = rep
                if pat.startswith(r"(?<![\w.\["): new = str(int(m.group(1)) + (1 if rep == "+1" else -1))
                if pat == r"\bif \(":
                    # find matching paren
                    k = m.end(); dep = 1
                    while k < len(s) and dep: dep += {"(": 1, ")": -1}.get(s[k], 0); k += 1
                    if dep: continue
                    nl = l[:m.end()] + "!(" + l[m.end():k-1] + "))" + l[k:]
                else: nl = l[:m.start()] + new + l[m.end():]
                if nl != l: out.append((n, l, nl))
        t = s.strip()
        if t.endswith(";") and d0 > 0 and not re.match(r"(return|break|continue|goto|else|for|while|}|const|static|struct \w+ \w|struct \w+ \*\w+;|size_t|uint\w+ |int |char |bool |unsigned |ssize_t|uint8_t )", t) and not re.match(r"[\w\s\*]+;$", t) and t.count("(") == t.count(")") and (re.match(r"[\w\->\.\[\]\*\(\)]+\s*[-+|&*/]?=[^=]", t) or re.match(r"\w+\s*\(", t)):
            out.append((n, l, re.sub(r"\S.*", ";", l)))
    return out

ap = argparse.ArgumentParser(); ap.add_argument("work"); ap.add_argument("-n", type=int, default=100); ap.add_argument("-s", type=int, default=1); ap.add_argument("-o", default="/dev/stdout"); ap.add_argument("--full", action="store_true"); ap.add_argument("--checks"); ap.add_argument("--lines"); ap.add_argument("files", nargs="+")
a = ap.parse_args()
if not os.path.isdir(a.work): subprocess.run(["cp", "-a", "/repo", a.work], check=True)
env = dict(os.environ, VERIF_REPO=a.work, PBT_NO_SHRINK="1")
out = open(a.o, "a")
def run(pid, extra):
    try: r = subprocess.run([sys.executable, os.path.join(H, "run.py"), pid] + extra, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired: return 9, ""
    for f in glob.glob(os.path.join(H, "build/bin/*")):
        if os.path.basename(f).startswith(pid + "-"): os.unlink(f)
    return r.returncode, r.stdout.decode(errors="replace")
for f in a.files:
    p = os.path.join(a.work, f); src = open("/repo/" + f).read(); ms = mutants("/repo/" + f); checks = a.checks.split(",") if a.checks else MAP[f]
    if a.lines: lo, hi = map(int, a.lines.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    random.Random(a.s).shuffle(ms)
    print(f"# {f}: {len(ms)} mutants, taking {min(len(ms), a.n)}", file=out, flush=True)
    seen = set()
    for n, old, new in ms[:a.n]:
        if (n, new) in seen: continue
        seen.add((n, new))
        L = src.split("\n"); L[n] = new; open(p, "w").write("\n".join(L))
        verdict = None; t0 = time.time()
        for ph in ([["--cases", "3000"], []] if not a.full else [[]]):
            for c in checks:
                rc, o = run(c, ph)
                if rc == 1: verdict = "KILLED " + c; break
                if rc == 2 and "BUILD FAILED" in o: verdict = "NOBUILD"; break
                if rc not in (0, 1): verdict = f"ODD {c} rc={rc}"; break
            if verdict: break
        print(f"{verdict or 'SURVIVED'}\t{time.time()-t0:.0f}s\t{f}:{n+1}\t{old.strip()}\t=>\t{new.strip()}", file=out, flush=True)
    open(p, "w").write(src)
    for o in glob.glob(os.path.join(H, "build/obj/*")):
        if time.time() - os.path.getmtime(o) > 3600: pass
