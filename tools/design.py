#!/usr/bin/env python3
"""Assembles DESIGN.md: the hand-written text of tools/design_text.md, with the generated tables filled in
(sub-properties and their rules from the harnesses; planted bugs from seeded/*/meta.json)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def subs(id):
    files = [f"{ROOT}/harness/{id}.cpp"]
    text = open(files[0]).read()
    if id == "C10":
        text = open(f"{ROOT}/harness/C10.cpp").read()
    rows = []
    for m in re.finditer(r'^(PBT|PBT_SCHED)\((\w+),\s*(\d+),\s*(\d+),\s*((?:"(?:[^"\\]|\\.)*"\s*)+)', text, re.M):
        rule = re.sub(r'"\s*"', "", m[5]).strip().strip('"')
        rows.append((m[2], int(m[3]), int(m[4]), rule, m[1] == "PBT_SCHED"))
    return rows

def table_subs(id):
    out = []
    for name, q, t, rule, sched in subs(id):
        out.append(f"  * `{name}`{' (schedule-dependent)' if sched else ''}: up to {q:,} cases quick, {t:,} thorough; non-trivial: {rule}.")
    return "\n".join(out)

def table_bugs():
    out = ["| planted bug | needs | what breaks |", "|---|---|---|"]
    for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
        m = json.load(open(d))
        cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")
        out.append(f"| {os.path.basename(os.path.dirname(d))} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} |")
    return "\n".join(out)

def fixes():
    out = []
    for line in open(f"{ROOT}/known_findings.txt"):
        m = re.match(r"fixed:\s*property=(\S+)\s+(\S+)\s+(.*)", line.strip())
        if m:
            out.append(f"* {m[1]} `{m[2]}` {m[3]}")
    return "\n".join(out)

text = open(f"{ROOT}/tools/design_text.md").read()
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{ROOT}/properties.jsonl")}
def title(m):
    p = props[m[1]]
    return f"### {m[1]} — {p['title']}"
text = re.sub(r"^### (C\d\d)\s*$", title, text, flags=re.M)
text = re.sub(r"^@subs (C\d\d)\s*$", lambda m: table_subs(m[1]), text, flags=re.M)
text = text.replace("@bugs", table_bugs()).replace("@fixes", fixes())
missing = [i for i in props if f"### {i} " not in text]
assert not missing, missing
open(f"{ROOT}/DESIGN.md", "w").write(text)
