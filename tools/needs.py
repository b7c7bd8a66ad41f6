#!/usr/bin/env python3
"""Development aid: print the library sources a harness needs (closure over undefined symbols).
    python3 tools/needs.py C11 [--write]      --write replaces the harness's SOURCES line
"""
import concurrent.futures, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
def syms(o, flag):
    r = subprocess.run(["nm", "-P", flag, o], capture_output=True, text=True).stdout
    out = {}
    for l in r.splitlines():
        f = l.split()
        if len(f) >= 2: out[f[0]] = f[1]
    return out
id = sys.argv[1]; h = os.path.join(check.ROOT, "harness", id + ".cpp")
d = check.directives(h)
flags = d["OPT"] + ["-g1"] + d["FLAGS"]
os.makedirs(check.BUILD, exist_ok=True)
o, e = check.compile_one(h, flags)
if e: print(e); sys.exit(1)
lib = check.all_sources() + [s for s in d["SOURCES"] if s not in check.all_sources()]
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(lambda s: check.compile_one(os.path.join(check.REPO, s), ["-O1", "-g1"]), lib))
defs, und = {}, {}
for s, (ob, er) in zip(lib, res):
    if er: print("skip", s); continue
    a = syms(ob, "--defined-only")
    for n, t in a.items():
        if t in "TDBRVWuC": defs.setdefault(n, (s, t)) if t not in "TDBR" else defs.__setitem__(n, (s, t))
    und[s] = set(syms(ob, "-u"))
need, done = [], set()
have = set(syms(o, "--defined-only")); todo = set(syms(o, "-u"))
while todo:
    n = todo.pop()
    if n in done or n in have: continue
    done.add(n)
    if n in defs:
        s = defs[n][0]
        if s not in need: need.append(s); todo |= und[s]
line = "// SOURCES: " + " ".join(sorted(need))
print(line)
if "--write" in sys.argv:
    t = open(h).read()
    t = re.sub(r"// SOURCES:.*", line, t, count=1) if "// SOURCES:" in t else t.split("\n", 1)[0] + "\n" + line + "\n" + t.split("\n", 1)[1]
    open(h, "w").write(t)
