#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the property's simulator from /repo's working tree, searches seeds on all cores, gates and
minimises a violation, writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: error of the check.
"""
import array, fcntl, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CFG = json.load(open(os.path.join(VERIF, "harness", "checks.json")))
WRAPS = ["abort", "__assert_fail", "pthread_mutex_lock", "pthread_mutex_unlock"]
CXX = ["g++", "-std=c++14", "-g1", "-w", "-fno-omit-frame-pointer"]

def die(msg):
    print("CHECK ERROR: " + msg)
    sys.exit(2)

def build(pid, c, bdir):
    """Compiles sim.cc and the harness units in parallel, links. Returns (binary, seconds)."""
    t0 = time.time()
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    jobs = []
    cxx = [c.get("cxx", CXX[0])] + CXX[1:] + ["-fsanitize=address"] * c.get("asan", True)
    wraps = WRAPS + c.get("wrap", [])
    inc = ["-I", REPO, "-I", os.path.join(VERIF, "sim"), "-I", os.path.join(VERIF, "harness")]
    for src in ["sim/sim.cc"] + c["src"]:
        defs = []
        if isinstance(src, list):
            src, defs = src[0], ["-D" + d for d in src[1:]]
        obj = os.path.join(bdir, "o%d.o" % len(jobs))
        cmd = cxx + [c.get("opt", "-O1")] + inc + ["-D" + d for d in c.get("defs", []) if not src.startswith("sim/")] + defs + ([] if src.startswith("sim/") else c.get("cflags", [])) + ["-c", os.path.join(VERIF, src), "-o", obj]
        jobs.append((cmd, obj, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = ""
    for cmd, obj, p in jobs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            bad += " ".join(cmd) + "\n" + out[:3000]
    if bad:
        if c.get("compile"):  # the property promises that these expressions compile, and this harness uses the public interface only
            f = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else os.path.join(VERIF, "replays", pid + "-1.json")
            if "--replay" not in sys.argv:
                os.makedirs(os.path.dirname(f), exist_ok=True)
                json.dump({"property": pid, "class": "does-not-compile", "detail": bad[:6000]}, open(f, "w"), indent=1)
            print(bad[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, f))
            sys.exit(1)
        die("the harness does not build against the tree\n" + bad)
    exe = os.path.join(bdir, "sim")
    cmd = cxx + [o for _, o, _ in jobs] + ["-o", exe, "-llapack", "-lblas", "-lpthread"] + ["-Wl,--wrap=" + w for w in wraps]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        die("link failed\n" + r.stdout.decode(errors="replace")[:3000])
    return exe, time.time() - t0

def known_findings(pid):
    """Lines 'property=<id> class=<class> <what fails>' of KNOWN_FINDINGS; 'fixed:' lines suppress nothing."""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("property=" + pid + " class="):
                _, cls, what = l.split(" ", 2)
                res[cls[len("class="):]] = what
    return res

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:handle_segv=0:symbolize=0:alloc_dealloc_mismatch=0:detect_odr_violation=0"
    e["LC_ALL"] = "C"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e

def run_json(args, timeout=200):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), timeout=timeout)
    if r.returncode:
        return None
    return json.loads(r.stdout.decode().strip().splitlines()[-1])

def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if pid not in CFG:
        die("unknown property " + pid)
    c = dict(CFG["default"]); c.update(CFG[pid])
    bdir = os.path.join(VERIF, "build", pid)
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    lock = open(os.path.join(VERIF, "build", pid + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    exe, bs = build(pid, c, bdir)
    info = run_json([exe, "info", pid])
    if info is None:
        die("the simulator does not know " + pid)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        r = subprocess.run([exe, "replay", pid, f, "-v"], stdout=subprocess.PIPE, env=env())
        print(r.stdout.decode())
        v = json.loads(r.stdout.decode().strip().splitlines()[-1])["violation"]
        if v:
            print("VIOLATION property=%s replay=%s" % (pid, f))
        sys.exit(1 if v else 0)

    n = int(os.environ.get("VERIF_WORKERS", "8"))
    runs = c[tier + "_runs"]; secs = c[tier + "_s"]
    known = known_findings(pid)
    wd = os.path.join(bdir, "work"); os.makedirs(wd)
    ts = time.time()
    procs = [subprocess.Popen([exe, "work", pid, str(seed), str(w), str(n), str(runs), str(secs), wd] + list(known), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env()) for w in range(n)]
    rcs = []
    for p in procs:
        try:
            rcs.append(p.wait(timeout=secs + 180))
        except subprocess.TimeoutExpired:
            p.kill(); rcs.append(-9)
    search_s = time.time() - ts
    tot = {}; faults = {}; probes = {}; kn = {}; samples = []; cov = set(); nt = set()
    for f in sorted(os.listdir(wd)):
        path = os.path.join(wd, f)
        if f.endswith(".stats"):
            d = json.load(open(path))
            add(faults, d.pop("faults")); add(probes, d.pop("probes")); add(kn, d.pop("known")); samples += d.pop("samples")
            add(tot, d)
        elif f.endswith(".cov") or f.endswith(".nt"):
            a = array.array("Q"); a.frombytes(open(path, "rb").read())
            (cov if f.endswith(".cov") else nt).update(a)
    viol = []
    for f in sorted(os.listdir(wd)):
        if f.endswith(".viol"):
            d = json.load(open(os.path.join(wd, f)))
            viol.append((d["index"], os.path.join(wd, f), d))
    errors = [open(os.path.join(wd, f)).read() for f in os.listdir(wd) if f.endswith(".error")]
    if tot.get("selfbad"):
        errors.append("replaying a seed gave another event log: the simulation is not deterministic")
    if any(r not in (0, 1) for r in rcs) and not errors:
        errors.append("worker exits: %s" % rcs)
    replay = None
    if viol:
        viol.sort()
        idx, vf, d = viol[0]
        # gate: the same violation twice from the recorded tape, each time in a fresh process
        a = run_json([exe, "replay", pid, vf]); b = run_json([exe, "replay", pid, vf])
        if not a or not b or not a["violation"] or a["hash"] != b["hash"] or a["class"] != d["class"] or b["class"] != d["class"]:
            print("UNREPRODUCED: %s\n%s %s" % (d["message"], a, b))
            die("a violation did not reproduce from its tape")
        out = os.path.join(VERIF, "replays"); os.makedirs(out, exist_ok=True)
        replay = os.path.join(out, "%s-%d.json" % (pid, seed))
        m = run_json([exe, "minimise", pid, vf, replay, str(c.get("minimise_s", 40))])
        if m is None:
            shutil.copy(vf, replay); m = a
        x = run_json([exe, "replay", pid, replay]); y = run_json([exe, "replay", pid, replay])
        if not x or not y or not x["violation"] or x["hash"] != y["hash"] or x["class"] != d["class"]:
            die("the minimised replay file does not reproduce the violation")
        print("violated: %s: %s" % (x["class"], x["message"]))
    elif errors:
        print("\n".join(errors))
        die("the search did not finish cleanly")
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.get("runs", 0),
            "distinct_nontrivial": len(nt),
            "rule": info["rule"],
            "samples": samples[:3] or ["(no non-trivial sample recorded)"],
            "operations": tot.get("ops", 0),
            "simulated_time_events": tot.get("steps", 0),
            "choices_drawn": tot.get("draws", 0),
            "faults_fired": faults,
            "probes": probes,
            "distinct_states_or_interleavings": len(cov),
            "context_switches": tot.get("switches", 0),
            "yield_points": tot.get("ticks", 0),
            "simulated_allocations": tot.get("allocs", 0),
            "runs_per_hour": int(tot.get("runs", 0) / max(search_s, 1e-9) * 3600),
            "determinism_self_checks": tot.get("selfchecks", 0),
            "known_findings_hit": kn,
            "real_components": info["real"], "stubs": info["stubs"],
            "build_s": round(bs, 2), "search_s": round(search_s, 2), "workers": n,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for cls, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    dead = [p for p in c.get("must_reach", []) if not (faults.get(p) or probes.get(p))]
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(1)
    if dead:
        die("the workload no longer reaches: " + ", ".join(dead))
    print("%s: held on %d runs (%d distinct non-trivial, %d states), faults %s, %.1f s" % (pid, tot.get("runs", 0), len(nt), len(cov), faults, wall))
    for f in os.listdir(bdir):
        if f.endswith(".o"):
            os.remove(os.path.join(bdir, f))
    sys.exit(0)

main()
