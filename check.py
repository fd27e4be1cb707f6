#!/usr/bin/env python3
"""Builds the simulator against /repo's current sources, searches one property and writes its evidence."""
import glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
WRAP = """malloc free calloc realloc posix_memalign aligned_alloc
pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_unlock pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __assert_fail
time clock gettimeofday clock_gettime rand srand random drand48 rand_r
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt13random_device9_M_getvalEv""".split()
LIBFLAGS = ["-O1", "-g", "-I" + REPO, "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard", "-fno-omit-frame-pointer", "-w"]
SIMFLAGS = ["-std=c++17", "-O1", "-g1", "-I" + REPO]
EXTRA = []


def sources():
    r = []
    for ext in ("c", "cpp", "cc", "cxx"):
        r += glob.glob(os.path.join(REPO, "opm", "**", "*." + ext), recursive=True)
    return sorted(r)


def headers():
    r = []
    for ext in ("h", "hpp", "hh", "ipp"):
        r += glob.glob(os.path.join(REPO, "opm", "**", "*." + ext), recursive=True)
    return sorted(r)


def digest(paths, *more):
    h = hashlib.sha256()
    for m in more:
        h.update(repr(m).encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build(log=sys.stderr):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hdrs = headers()
    simh = sorted(glob.glob(os.path.join(HERE, "sim", "*.hpp")))
    jobs, libobj, simobj = [], [], []
    for s in sources():
        c = s.endswith(".c")
        cmd = ["clang", "-std=gnu11"] if c else ["clang++", "-std=gnu++17"]
        cmd = cmd + LIBFLAGS + EXTRA
        o = os.path.join(BUILD, "obj", "lib-%s-%s.o" % (re.sub(r"\W", "_", os.path.basename(s)), digest([s] + hdrs, cmd)))
        libobj.append(o)
        jobs.append((cmd + ["-c", s, "-o", o + ".tmp"], o))
    for s in sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp"))):
        cmd = ["clang++"] + SIMFLAGS
        dep = [s] + simh + ([] if os.path.basename(s) in ("rt.cpp", "plan.cpp", "model.cpp", "main.cpp", "worlds.cpp", "gen.cpp") else hdrs)
        o = os.path.join(BUILD, "obj", "sim-%s-%s.o" % (re.sub(r"\W", "_", os.path.basename(s)), digest(dep, cmd)))
        simobj.append(o)
        jobs.append((cmd + ["-c", s, "-o", o + ".tmp"], o))

    def run(j):
        cmd, o = j
        if os.path.exists(o):
            return 0, ""
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.replace(o + ".tmp", o)
        return p.returncode, p.stdout

    with ThreadPoolExecutor(8) as ex:
        for (cmd, o), (rc, out) in zip(jobs, ex.map(run, jobs)):
            if rc:
                print("build failed: %s\n%s" % (" ".join(cmd), out), file=log)
                return None
    exe = os.path.join(BUILD, "sim-" + hashlib.sha256(" ".join(libobj + simobj).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, "sim-*")):
            try:
                if time.time() - os.path.getmtime(old) > 3600:
                    os.remove(old)
            except OSError:
                pass
        cmd = ["clang++", "-o", exe + ".tmp"] + libobj + simobj + ["-Wl," + ",".join("--wrap=" + w for w in WRAP), "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print("link failed\n" + p.stdout, file=log)
            return None
        os.replace(exe + ".tmp", exe)
    return exe


def known_findings(prop):
    """Lines 'finding: property=<id> class=<class> match=<regex> | <what>' of KNOWN_FINDINGS."""
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) \| (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "build":
        exe = build()
        print(exe)
        return 0 if exe else 2
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = json.load(open(os.path.join(HERE, "sim", "tiers.json")))
    c = dict(conf["default"][tier])
    c.update(conf.get(prop, {}).get(tier, {}))
    t0 = time.time()
    exe = build()
    if not exe:
        return 2
    tb = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    stats = os.path.join(BUILD, "stats-%s.json" % prop)
    replay = os.path.join(HERE, "replays", "%s-%s-%d.replay" % (prop, tier, seed))
    for f in (stats, replay):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "search", prop, "--seed", str(seed), "--seconds", str(c["seconds"]), "--stats", stats, "--replay", replay, "--workers", str(c.get("workers", 8))]
    if c.get("runs"):
        cmd += ["--runs", str(c["runs"])]
    if tier == "thorough":
        cmd.append("--deep")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sys.stdout.write(p.stdout)
    rc = p.returncode
    violations = []
    if rc == 1:
        # The replay has to reproduce the violation in a fresh process.
        q = subprocess.run([exe, "replay", replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sys.stdout.write("replay: " + q.stdout)
        if q.returncode != 1:
            print("the replay does not reproduce the violation")
            rc = 2
        else:
            head = open(replay).read()
            cls = re.search(r"^# class: (.*)$", head, re.M).group(1)
            detail = re.search(r"^# detail: (.*)$", head, re.M).group(1)
            violations.append({"class": cls, "detail": detail, "replay": replay})
    s = {}
    if os.path.exists(stats):
        s = json.load(open(stats))
    write_evidence(prop, tier, seed, c, s, violations, time.time() - t0, tb)
    for cls, match, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if rc != 0:
        print("the check gave no answer (exit %d)" % rc)
        return 2
    return 0


REAL = "the whole library (all of /repo/opm, instrumented), libstdc++ and libc containers, streams and random engines"
STUB = "heap (simulated, with red zones), thread scheduler, locks and static-initialisation guards, clock and entropy, output sink"


def write_evidence(prop, tier, seed, c, s, violations, wall, tb):
    sw = max(s.get("wall", 0.001), 0.001)
    props = {}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(line)
        props[d["id"]] = d
    conf = json.load(open(os.path.join(HERE, "sim", "rules.json"))).get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.get("executions", 0),
            "distinct_nontrivial": s.get("distinct_histories", 0),
            "rule": conf.get("rule", "distinct sequences of observable results (hash over every result of a simulated history)"),
            "samples": s.get("samples", []),
            "simulated_runs": s.get("runs", 0),
            "runs_per_hour": int(s.get("runs", 0) / sw * 3600),
            "executions_per_hour": int(s.get("executions", 0) / sw * 3600),
            "seeds": "run i uses the seed mix(VERIF_SEED, property, i); runs 0..%d" % max(0, s.get("runs", 1) - 1),
            "simulated_time_steps": s.get("steps", 0),
            "library_calls": s.get("library_calls", 0),
            "library_calls_that_failed": s.get("failed_calls", 0),
            "allocations_observed": s.get("allocations", 0),
            "faults_injected": s.get("faults", {}),
            "distinct_fault_sites": s.get("distinct_fault_sites", 0),
            "thread_switches": s.get("thread_switches", 0),
            "distinct_interleavings": s.get("distinct_interleavings", 0),
            "interleaving_measure": "hash of the sequence (function at the switch, from, to) of a concurrent phase",
            "library_edges_covered": "%d of %d" % (s.get("edges_covered", 0), s.get("edges_total", 0)),
            "largest_share_of_work_budget_permille": s.get("max_budget_used_permille", 0),
            "situations_reached": s.get("probes", {}),
            "determinism_reruns_identical": s.get("determinism_reruns_identical", 0),
            "components_real": REAL, "components_stubbed": STUB,
        },
        "assumptions": conf.get("assumptions", []) + [
            "thread switches happen at instrumented memory accesses, calls, allocations and lock operations of the library, under sequential consistency; weaker memory orders are covered only through the race detector",
            "code inside the C and C++ runtime libraries runs atomically between two switch points",
        ],
        "wall_s": round(wall, 2), "build_s": round(tb, 2),
        "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violation"] = violations[0]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
