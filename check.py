#!/usr/bin/env python3
"""Build and run the property checks.

  python3 check.py setup                 sanity check of the tool chain
  python3 check.py C01 quick|thorough    run one property (VERIF_SEED), write evidence/C01.json
  python3 check.py replay FILE           rebuild against /repo and replay a recorded failure
  python3 check.py all quick             every property that has a harness (development aid)

Everything is compiled from /repo's working tree.  Objects are cached in build/ under the content hash
of every file they were compiled from, so a cached object is only used when nothing it read changed.
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
JOBS = os.cpu_count() or 8
CXX = "g++"
BASE = ["-std=c++17", "-include", "cstdint", "-isystem", REPO, "-isystem", "/usr/include/python3.12",
        "-I", os.path.join(ROOT, "lib"),
        "-DWITH_PYTHON", "-DESL_RELEASE=1", "-DADEPT_RECORDING_PAUSABLE", "-DADEPT_STORAGE_THREAD_SAFE",
        "-w", "-pthread"]
LIBS = ["-lboost_serialization", "-lboost_program_options", "-lboost_date_time", "-lboost_thread", "-lgsl", "-lgslcblas",
        "-lboost_python312", "-lpython3.12", "-lpthread", "-ldl"]
NEEDS_ADEPT = ["esl/python_module_esl.cpp", "esl/mathematics/variable.cpp",
               "esl/economics/markets/differentiable_demand_supply_function.cpp",
               "esl/economics/markets/walras/differentiable_order_message.cpp",
               "esl/economics/markets/walras/price_setter.cpp", "esl/economics/markets/walras/tatonnement.cpp"]

_hash_cache = {}
def fhash(path):
    if path not in _hash_cache:
        try:
            with open(path, "rb") as f:
                _hash_cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash_cache[path] = "missing"
    return _hash_cache[path]

def directives(harness):
    d = {"SOURCES": [], "FLAGS": [], "OPT": ["-O1"], "CAP": ["150", "1500"], "LIBS": [], "ENV": []}
    with open(harness) as f:
        for line in f:
            m = re.match(r"//\s*(SOURCES|FLAGS|OPT|CAP|LIBS|ENV):\s*(.*)", line)
            if m:
                if m.group(1) in ("OPT", "CAP"):
                    d[m.group(1)] = m.group(2).split()
                else:
                    d[m.group(1)] += m.group(2).split()
    return d

def compile_one(src, flags):
    """compile src -> object path; returns (obj, error)"""
    key = hashlib.sha256(("\0".join([CXX, src] + BASE + flags)).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, key + ".o"); meta = os.path.join(BUILD, key + ".json")
    try:
        with open(meta) as f:
            deps = json.load(f)
        if os.path.exists(obj) and all(fhash(p) == h for p, h in deps.items()):
            return obj, None
    except (OSError, ValueError):
        pass
    dep = os.path.join(BUILD, key + f".{os.getpid()}.d"); tmp = os.path.join(BUILD, key + f".{os.getpid()}.o")
    r = subprocess.run([CXX] + BASE + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return None, src + ":\n" + "\n".join(x for x in r.stderr.splitlines() if "error" in x)[:3000]
    with open(dep) as f:
        names = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(dep)
    deps = {os.path.abspath(p): fhash(os.path.abspath(p)) for p in names if not p.startswith("/usr/")}
    os.replace(tmp, obj)
    with open(meta + f".{os.getpid()}", "w") as f:
        json.dump(deps, f)
    os.replace(meta + f".{os.getpid()}", meta)
    return obj, None

def all_sources():
    out = []
    for base, _, files in os.walk(os.path.join(REPO, "esl")):
        for n in files:
            p = os.path.relpath(os.path.join(base, n), REPO)
            if n.endswith(".cpp") and p not in NEEDS_ADEPT and "distributed" not in p and "python_module" not in n:
                out.append(p)
    return sorted(out)

def build(id):
    """returns (binary, None) or (None, message)"""
    os.makedirs(BUILD, exist_ok=True)
    harness = os.path.join(ROOT, "harness", id + ".cpp")
    d = directives(harness)
    flags = d["OPT"] + ["-g1"] + d["FLAGS"]
    flags = [f.replace("$ROOT", ROOT) for f in flags]
    def attempt(srcs, tolerant):
        jobs = [harness] + [os.path.join(REPO, s) for s in srcs]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda s: compile_one(s, flags), jobs))
        if res[0][1]:
            return None, res[0][1]
        errs = [e for _, e in res if e]
        if errs and not tolerant:
            return None, "\n".join(errs)
        objs = [o for o, e in res if not e]
        key = hashlib.sha256("\0".join(objs + [fhash(o) for o in objs] + flags).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, f"{id}.{key}")
        if os.path.exists(exe):
            return exe, None
        for n in os.listdir(BUILD):          # one binary per property is kept
            if n.startswith(id + "."):
                try: os.unlink(os.path.join(BUILD, n))
                except OSError: pass
        r = subprocess.run([CXX] + flags + ["-Wl,--as-needed", "-Wl,--gc-sections", "-o", exe + ".tmp"] + objs + d["LIBS"] + LIBS + ["-pthread"],
                           capture_output=True, text=True)
        if r.returncode:
            return None, "link: " + r.stderr[-4000:]
        os.replace(exe + ".tmp", exe)
        return exe, None
    srcs = [s for s in d["SOURCES"] if os.path.exists(os.path.join(REPO, s))]
    exe, err = attempt(srcs, False)
    if exe is None and not err.startswith(harness):
        # the sources may have been split or moved: take every source of the library
        exe, err2 = attempt(sorted(set(srcs + all_sources())), True)
        if exe is None:
            err = err + "\n---- with all sources:\n" + err2
    return exe, err

def known_keys(id):
    keys = {}
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding:\s*property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
                if m and m.group(1) == id:
                    keys[m.group(2)] = m.group(3)
    except OSError:
        pass
    return keys

def env_for(d):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:handle_abort=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_thread_leaks=0"
    env["LC_ALL"] = "C.UTF-8"
    for e in d["ENV"]:
        k, v = e.split("=", 1); env[k] = v
    return env

def run(id, tier, extra=()):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    harness = os.path.join(ROOT, "harness", id + ".cpp")
    d = directives(harness)
    ev_path = os.path.join(ROOT, "evidence", id + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    exe, err = build(id)
    if exe is None:
        # The tree does not compile against the public interface this property is stated on.
        print(f"BUILD-ERROR property={id}\n{err}", flush=True)
        write_evidence(ev_path, id, tier, seed, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "not run: build failed", "samples": ["build failed"]}, time.time() - t0, 0, [err[-500:]])
        return 2
    t_build = time.time() - t0
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    replay = os.path.join(ROOT, "replays", f"{id}-{tier}-{seed}.replay")
    if os.path.exists(replay):
        os.unlink(replay)
    scratch = tempfile.mkdtemp(prefix=f"pbt-{id}-")
    out = os.path.join(scratch, "out.json")
    known = known_keys(id)
    cap = d["CAP"][0] if tier == "quick" else d["CAP"][-1]
    try:
        p = subprocess.Popen([exe, "--out", out, "--tier", tier, "--seed", str(seed), "--replay-out", replay, "--cap", cap,
                              "--known", ",".join(known), "--scratch", scratch, "--jobs", str(JOBS)] + list(extra),
                             env=env_for(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch)
        log, _ = p.communicate()
        try:
            with open(out) as f:
                res = json.load(f)
        except (OSError, ValueError) as e:
            print(f"HARNESS-ERROR property={id}: {e}\n{log[-3000:]}")
            return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    subs = res["subs"]
    rule = "random choice sequences drive structured generators, one seed per case; per sub-property the rule for non-trivial: " + \
           "; ".join(f"{s['name']}: {s['rule']}" for s in subs)
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": rule,
           "samples": res["samples"] or ["(no non-trivial case)"], "discarded": res["discarded"], "sub_properties": subs,
           "classes": res["labels"], "known_findings_hit": res["known"], "unconfirmed_failures": res["unconfirmed"],
           "unconfirmed_messages": res["unconfirmed_messages"], "build_s": round(t_build, 1), "explore_s": round(res["explore_s"], 1)}
    write_evidence(ev_path, id, tier, seed, cov, time.time() - t0, 1 if res["violation"] else 0, [])
    for k, text in known.items():
        print(f"KNOWN-FINDING: property={id} {k}: {text} (met {res['known'].get(k, 0)} times in this run)")
    print(f"{id} {tier} seed={seed}: {res['evaluations']} cases, {res['distinct_nontrivial']} distinct non-trivial, "
          f"{res['discarded']} discarded, {res['unconfirmed']} unconfirmed, build {t_build:.1f}s, total {time.time()-t0:.1f}s")
    if res["violation"]:
        print(f"  {res['violation'][:1500]}")
        print(f"VIOLATION property={id} replay={replay}", flush=True)
        return 1
    return 0

def write_evidence(path, id, tier, seed, cov, wall, violations, assumptions):
    ass = ["compiled with the build's defines and -std=c++17 from /repo's working tree; assertions on",
           "exploration by generated cases: absence of a counterexample is not a proof"] + assumptions
    with open(path + ".tmp", "w") as f:
        json.dump({"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": ass, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

def main(argv):
    if len(argv) < 2:
        print(__doc__); return 2
    if argv[1] == "setup":
        for tool in (CXX,):
            if shutil.which(tool) is None:
                print("missing", tool); return 1
        os.makedirs(BUILD, exist_ok=True)
        for n in ("evidence", "replays"):
            os.makedirs(os.path.join(ROOT, n), exist_ok=True)
        print("setup ok"); return 0
    if argv[1] == "replay":
        name = os.path.basename(argv[2]); id = name.split("-")[0]
        exe, err = build(id)
        if exe is None:
            print(err); return 2
        d = directives(os.path.join(ROOT, "harness", id + ".cpp"))
        return subprocess.run([exe, "--replay", os.path.abspath(argv[2]), "--known", ",".join(known_keys(id))], env=env_for(d)).returncode
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if argv[1] == "all":
        rc = 0
        for n in sorted(os.listdir(os.path.join(ROOT, "harness"))):
            if re.match(r"C\d+\.cpp$", n):
                rc = max(rc, run(n[:-4], tier))
        return rc
    return run(argv[1], tier, argv[3:])

if __name__ == "__main__":
    sys.exit(main(sys.argv))
