#!/usr/bin/env python3
"""Deterministic-simulation checks for libmpc.

  check.py PROP [--tier quick|thorough] [--seed N] [--seconds S]
  check.py PROP --replay FILE      re-execute one replay file (exit 1 and the violation if it reproduces)
  check.py --build                 only build the simulators

Exit 0: the property held on everything explored.  Exit 1: VIOLATION property=<id> replay=<path>.
Exit 2: the check itself could not run (for example the tree does not compile).
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
OUT = os.path.join(HERE, "out")
JOBS = max(1, min(8, os.cpu_count() or 1))

CXX = os.environ.get("CXX", "g++")
COMMON = ["-std=c++20", "-O1", "-g0", "-DEIGEN_STACK_ALLOCATION_LIMIT=0", "-DSHOW_STACKTRACE=0",
          "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3", "-I" + SIM]

# the objects which hold the library's code: a caller can be preempted at the entry of each of its functions
FINE = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/include"]

ENGINES = {
    "nl": {
        "flags": ["-I" + os.path.join(SIM, "nl")],
        "units": [("nl/inst.cpp", "inst%s" % w, ["-DWHICH=%s" % w] + FINE) for w in (99, 0, 1, 2, 3, 4, 5)] +
                 [("nl/%s.cpp" % f, f, []) for f in ("props", "world", "gen", "seam", "qp", "main")] + [("core.cpp", "core", [])],
        "libs": ["-lnlopt_cxx", "-lnlopt", "-lpthread", "-ldl"],
        "real": ["include/mpc/** (whole header library, NLMPC side)", "nlopt 2.7.1 SLSQP (in the steps scripted solver=real)", "Eigen", "libstdc++"],
        "stub": ["nlopt_optimize in the steps scripted solver=stub (scripted evaluations, point and result)", "steady/system clocks and time()",
                 "malloc family (tracking, garbage fill, injected failure)", "log stream", "user callbacks (generated functions with faults)", "threads and mutexes: cooperative seeded scheduler, switches at callbacks, clock, log, allocations and function entries"],
    },
    "lin": {
        "flags": ["-I" + os.path.join(SIM, "lin"), "-I" + os.path.join(SIM, "lin", "osqp_seam")],
        "units": [("lin/inst.cpp", "inst%s" % w, ["-DWHICH=%s" % w] + FINE) for w in (99, 0, 1, 2, 3, 4)] +
                 [("lin/%s.cpp" % f, f, FINE if f == "mate" else []) for f in ("props", "world", "gen", "osqp", "mate", "main")] + [("core.cpp", "core", [])],
        "libs": ["-lnlopt_cxx", "-lnlopt", "-lpthread", "-ldl"],
        "real": ["include/mpc/** (whole header library, LMPC side; NLMPC with nlopt as the neighbour of another kind in C09)", "Eigen", "libstdc++"],
        "stub": ["OSQP (not installed here): a simulated solver behind the OSQP 0.6 C interface - dense exact solves, scripted statuses, set-up/solve/allocation failures, call registry",
                 "steady/system clocks", "malloc family (tracking, garbage fill, injected failure)", "log stream", "threads and mutexes: cooperative seeded scheduler, switches at solver calls, clock, log, allocations and function entries"],
    },
}

# property -> [(engine, property name inside the engine)]
NL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C18 C20".split()
PROPS = {p: [("nl", p)] for p in NL}
for p, sub in json.load(open(os.path.join(SIM, "lin", "claims.json"))).items() if os.path.exists(os.path.join(SIM, "lin", "claims.json")) else []:
    PROPS.setdefault(p, []).append(("lin", sub))

QUICK_S = float(os.environ.get("VERIF_QUICK_SECONDS", "40"))
THOROUGH_S = float(os.environ.get("VERIF_THOROUGH_SECONDS", "600"))


class Broken(Exception):
    pass


# ------------------------------------------------------------------ building
def digest(engine):
    h = hashlib.sha256()
    h.update(repr((CXX, COMMON, ENGINES[engine])).encode())
    for root in (os.path.join(REPO, "include"), SIM):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def build_root():
    r = os.path.join(HERE, ".build")
    try:
        os.makedirs(r, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=r)
        t.close()
        return r
    except OSError:
        return tempfile.mkdtemp(prefix="libmpc-sim-")


def build(engine):
    e = ENGINES[engine]
    root = build_root()
    d = os.path.join(root, engine + "-" + digest(engine))
    exe = os.path.join(d, "sim-" + engine)
    with open(os.path.join(root, engine + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # keep only the newest build of an engine
        for o in os.listdir(root):
            if o.startswith(engine + "-"):
                shutil.rmtree(os.path.join(root, o), ignore_errors=True)
        os.makedirs(d)

        def one(u):
            src, name, extra = u
            o = os.path.join(d, name + ".o")
            r = subprocess.run([CXX] + COMMON + e["flags"] + extra + ["-c", os.path.join(SIM, src), "-o", o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode, o, r.stdout
        objs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for rc, o, log in ex.map(one, e["units"]):
                if rc:
                    shutil.rmtree(d, ignore_errors=True)
                    raise Broken("compiling the %s simulator against %s failed:\n%s" % (engine, REPO, "\n".join(l[:300] for l in log.splitlines() if "error" in l)[:4000]))
                objs.append(o)
        tmp = exe + ".tmp"
        r = subprocess.run([CXX] + objs + ["-o", tmp] + e["libs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken("linking the %s simulator failed:\n%s" % (engine, r.stdout[:3000]))
        for o in objs:
            os.unlink(o)
        os.rename(tmp, exe)
    return exe


# ------------------------------------------------------------------ running one scenario
def execute(exe, text, tmpdir, tag="x", known=()):
    """-> (class or None, message, hash); the first violation which is not a known finding, if there is one"""
    fn = os.path.join(tmpdir, "%s.scn" % tag)
    with open(fn, "w") as f:
        f.write(text)
    try:
        r = subprocess.run([exe, "exec", fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return None, "timeout", ""
    cls, msg, h = None, "", ""
    for l in r.stdout.splitlines():
        if l.startswith("VIOL ") and (cls is None or cls in known):
            p = l.split(" ", 2)
            cls, msg = p[1], p[2].strip() if len(p) > 2 else ""
        elif l.startswith("HASH "):
            h = l[5:]
    return cls, msg, h


def minimise(exe, text, cls, tmpdir, budget, known=()):
    """delta-debug the schedule and fault trace: drop operations, then single arguments"""
    end = time.time() + budget
    lines = [l for l in text.splitlines() if l.strip()]
    head, ops = lines[0], lines[1:]
    pool = cf.ThreadPoolExecutor(JOBS)
    n = [0]

    def fails(o, tag):
        n[0] += 1
        return execute(exe, head + "\n" + "\n".join(o) + "\n", tmpdir, tag, known)[0] == cls

    def first_failing(cands):
        for b in range(0, len(cands), JOBS):
            if time.time() > end:
                return None
            part = cands[b:b + JOBS]
            for c, ok in zip(part, pool.map(lambda t: fails(t[1], "m%d" % t[0]), list(enumerate(part)))):
                if ok:
                    return c
        return None
    size = max(1, len(ops) // 2)
    while time.time() < end:
        got = first_failing([ops[:i] + ops[i + size:] for i in range(0, len(ops), size) if len(ops) > 1])
        if got is not None:
            ops = got
            size = min(size, max(1, len(ops) // 2))
        elif size > 1:
            size //= 2
        else:
            break
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(ops)):
            w = ops[i].split(" ")
            cands = [ops[:i] + [" ".join(w[:k] + w[k + 1:])] + ops[i + 1:] for k in range(1, len(w))
                     if not w[k].startswith(("c=", "d=", "x=", "u=", "s=", "dyn="))]
            got = first_failing(cands) if cands else None
            if got is not None:
                ops = got
                changed = True
    pool.shutdown()
    return head + "\n" + "\n".join(ops) + "\n", n[0]


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines 'finding: property=<id> class=<class> match=<regex> | text' ; 'fixed:' lines suppress nothing"""
    fs = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ \| (.*)$", l.strip())
            if m and m.group(1) == prop:
                fs.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return fs


# ------------------------------------------------------------------ checks
def replay(prop, path):
    text = open(path).read()
    name = text.splitlines()[0].split()[1]
    eng = next((e for e, s in PROPS[prop] if s == name), None)
    if eng is None:
        raise Broken("replay file is not for " + prop)
    exe = build(eng)
    with tempfile.TemporaryDirectory(prefix="libmpc-replay-") as td:
        cls, msg, h = execute(exe, text, td, known={f[0] for f in known_findings(prop)})
    want = None
    try:
        want = json.load(open(path + ".json"))
    except (OSError, ValueError):
        pass
    if cls:
        print("%s: %s" % (cls, msg))
        print("run hash %s%s" % (h, "" if not want else (" (as recorded)" if want.get("hash") == h else " (recorded: %s)" % want.get("hash"))))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation; run hash " + h)
    return 0


def run(prop, tier, seed, seconds):
    t0 = time.time()
    parts = PROPS[prop]
    exes = {e: build(e) for e, _ in parts}
    built = time.time() - t0
    share = max(1, JOBS // len(parts))
    findings = known_findings(prop)
    kset = {f[0] for f in findings}
    kcls = ",".join(sorted(kset))
    procs = []
    td = tempfile.mkdtemp(prefix="libmpc-check-")
    os.makedirs(OUT, exist_ok=True)
    try:
        # one determinism probe per part: the same seeds twice must give the same history hashes
        for e, s in parts:
            for k in range(share):
                o = os.path.join(td, "%s-%d" % (s, k))
                procs.append((e, s, k, o, subprocess.Popen([exes[e], "run", s, str(seed), str(k), str(share), str(seconds), "100000000", o, kcls],
                                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        res = {}
        for e, s, k, o, p in procs:
            try:
                p.wait(timeout=seconds + 300)
            except subprocess.TimeoutExpired:
                p.kill()
                raise Broken("simulator did not stop in time")
            try:
                d = json.load(open(o + ".json"))
            except (OSError, ValueError):
                raise Broken("simulator %s worker %d ended without a report (rc %s)" % (e, k, p.returncode))
            a = res.setdefault((e, s), {"runs": 0, "wall": 0.0, "sim_s": 0.0, "counters": {}, "maxima": {}, "shapes": set(), "violations": [], "samples": []})
            a["runs"] += d["runs"]
            a["wall"] += d["wall"]
            a["sim_s"] += d["sim_s"]
            for n, v in d["counters"].items():
                a["counters"][n] = a["counters"].get(n, 0) + v
            for n, v in d["maxima"].items():
                v = float(v)
                a["maxima"][n] = max(a["maxima"].get(n, v), v)
            a["shapes"].update(d["shapes"])
            a["violations"] += d["violations"]
            a["samples"] += d["samples"]
        det = {}
        for e, s in parts:
            hs = []
            for rep in range(2):
                o = os.path.join(td, "det%d" % rep)
                subprocess.run([exes[e], "run", s, str(seed), "0", str(share), "100000", "15", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                hs.append(json.load(open(o + ".json"))["allhash"])
            det[s] = {"runs_repeated": 15, "identical": hs[0] == hs[1]}

        # gate, minimise and report
        reported, known, unconfirmed, seen = [], {}, [], set()
        for (e, s), a in res.items():
            for v in a["violations"]:
                if (s, v["class"]) in seen:
                    continue
                text = open(v["file"]).read()
                conf = [execute(exes[e], text, td, "c%d" % i, kset) for i in range(3)]
                got = [c for c in conf if c[0]]
                if not got:
                    unconfirmed.append({"class": v["class"], "message": v["msg"], "seed": v["seed"], "scenario": text})
                    continue
                cls, msg, h = got[0]
                f = next((f for f in findings if f[0] == cls and f[1].search(msg)), None)
                if f:
                    known[f[2]] = known.get(f[2], 0) + 1
                    continue
                if (s, cls) in seen:
                    continue
                seen.add((s, v["class"]))
                seen.add((s, cls))
                if len(reported) >= 4:
                    continue
                mint, tries = minimise(exes[e], text, cls, td, 25 if tier == "quick" else 120, kset)
                c2, m2, h2 = execute(exes[e], mint, td, known=kset)
                if c2 != cls:
                    mint, m2, h2 = text, msg, h
                path = os.path.join(OUT, "%s-%s-%s.scn" % (prop, s if s != prop else e, cls))
                with open(path, "w") as fh:
                    fh.write(mint)
                with open(path[:-4] + ".full.scn", "w") as fh:
                    fh.write(text)
                info = {"property": prop, "class": cls, "message": m2, "hash": h2, "seed": v["seed"], "index": v["index"], "base_seed": seed,
                        "ops_before": text.count("\n") - 1, "ops_after": mint.count("\n") - 1, "minimiser_runs": tries,
                        "reproduced": "%d of %d" % (len(got), len(conf)), "replay_cmd": "python3 check.py %s --replay %s" % (prop, path)}
                with open(path + ".json", "w") as fh:
                    json.dump(info, fh, indent=1)
                reported.append((path, info))
        wall = time.time() - t0
        # listed findings that this run happened not to meet are announced all the same
        for f in findings:
            known.setdefault(f[2], 0)
        evidence(prop, tier, seed, parts, res, det, reported, known, unconfirmed, wall, built, seconds, share)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for path, i in reported:
            print("%s: %s" % (i["class"], i["message"]))
            print("  seed %s, minimised from %d to %d operations:" % (i["seed"], i["ops_before"], i["ops_after"]))
            for l in open(path):
                print("    " + l.rstrip())
            print("VIOLATION property=%s replay=%s" % (prop, path))
        tot = sum(a["runs"] for a in res.values())
        print("%s: %d simulated runs, %.1f s simulated, %.1f s wall, %d violation class(es)" % (prop, tot, sum(a["sim_s"] for a in res.values()), wall, len(reported)))
        return 1 if reported else 0
    finally:
        for *_, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(td, ignore_errors=True)


def evidence(prop, tier, seed, parts, res, det, reported, known, unconfirmed, wall, built, seconds, share):
    runs = sum(a["runs"] for a in res.values())
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(len(a["shapes"]) for a in res.values()),
        "rule": "One case is one simulated run: a scenario (configuration, operations, schedule, faults) generated from a 64-bit seed and executed in its own process. "
                "Two runs count as distinct when their shape differs: the sequence of (setter, answer), (status, solver code, feasibility, fault fired) of every step and, for C09, the preemption and nesting points; "
                "a run is non-trivial because every generator emits at least one step or answered setter.",
        "samples": [x for a in res.values() for x in a["samples"][:2]],
        "seeds_per_hour": int(runs / max(seconds, 1e-9) * 3600),
        "worker_processes": share * len(parts),
        "search_seconds": seconds,
        "build_seconds": round(built, 1),
        "simulated_seconds": round(sum(a["sim_s"] for a in res.values()), 3),
        "faults_injected": {},
        "counters": {},
        "maxima": {},
        "determinism": det,
        "unconfirmed_reports": unconfirmed[:5],
        "known_findings_met": known,
        "violations": [i for _, i in reported],
        "real_code": sorted({r for e, _ in parts for r in ENGINES[e]["real"]}),
        "stubbed": sorted({r for e, _ in parts for r in ENGINES[e]["stub"]}),
    }
    for (e, s), a in res.items():
        for n, v in sorted(a["counters"].items()):
            v = int(v) if v == int(v) else v
            tgt = cov["faults_injected"] if n.startswith("fault.") else cov["counters"]
            n = n[6:] if n.startswith("fault.") else n
            key = n if len(parts) == 1 else e + ":" + n
            tgt[key] = tgt.get(key, 0) + v
        for n, v in sorted(a["maxima"].items()):
            cov["maxima"][n if len(parts) == 1 else e + ":" + n] = v if v == v and abs(v) != float("inf") else str(v)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the simulators' reference models and stand-ins listed under coverage.stubbed represent their originals (DESIGN.md)",
                          "a run is decided by its seed; unexplored seeds are not covered"],
          "wall_s": round(wall, 2), "violations": len(reported)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    try:
        if a.build:
            for e in sorted({e for v in PROPS.values() for e, _ in v}):
                print(build(e))
            return 0
        if a.prop not in PROPS:
            raise Broken("unknown property %r" % a.prop)
        if a.replay:
            return replay(a.prop, a.replay)
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        return run(a.prop, tier, a.seed, a.seconds or (QUICK_S if tier == "quick" else THOROUGH_S))
    except Broken as e:
        print("check cannot run: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
