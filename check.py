#!/usr/bin/env python3
"""check.py <property> | --build | --replay FILE

Builds the simulator and the library under test (/repo's working tree, instrumented)
into /verif/.build/<hash of the sources>, runs the seeded search for one property,
verifies every violation by replaying it in a fresh process, and writes
/verif/evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BOOZ_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, ".build")
JOBS = min(8, os.cpu_count() or 1)
SIMFLAGS = "-std=c++17 -O2 -g -fPIC -Wall -Wno-misleading-indentation".split()
TFLAGS = "-std=gnu++11 -O1 -g1 -DNDEBUG -DOPENMP -fopenmp -fsanitize=thread -ftemplate-depth=1024 -fPIC -w".split()
PFLAGS = "-std=gnu++17 -O1 -DNDEBUG -DOPENMP -fopenmp -ftemplate-depth=1024 -fPIC -fvisibility=hidden -w".split()
VENV = "/opt/boozenv/lib/python3.12/site-packages"
EXTSUFFIX = ".cpython-312-x86_64-linux-gnu.so"
SECONDS = {"quick": 70, "thorough": 600}


def die(msg):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sources():
    """(path, flags) of everything that is compiled; the hash covers everything that is included"""
    src = os.path.join(REPO, "src", "_booz_xform")
    cpp = sorted(p for p in glob.glob(src + "/*.cpp") if os.path.basename(p) != "bindings.cpp")
    if not cpp:
        die("no sources in " + src)
    h = hashlib.sha256(repr((SIMFLAGS, TFLAGS, 3)).encode())
    dirs = [src, os.path.join(REPO, "externalPackages", "eigen"), SIM]
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    return src, cpp, h.hexdigest()[:20]


def build():
    t0 = time.time()
    src, cpp, key = sources()
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(out)
            return out, time.time() - t0
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        inc = ["-I" + src, "-I" + os.path.join(REPO, "externalPackages", "eigen"), "-I" + SIM]
        jobs = []
        for p in cpp:
            b = os.path.splitext(os.path.basename(p))[0]
            x = ["-Dmain=bx_real_main"] if b == "xbooz_xform" else []
            jobs.append(["g++"] + TFLAGS + inc + x + ["-c", p, "-o", os.path.join(out, "t_%s.o" % b)])
        jobs.append(["g++"] + TFLAGS + inc + ["-c", os.path.join(SIM, "adapter.cpp"), "-o", os.path.join(out, "t_0adapter.o")])
        rt = ["sched", "mem", "disk", "group"]
        for p in sorted(glob.glob(SIM + "/*.cpp")):
            b = os.path.splitext(os.path.basename(p))[0]
            if b != "adapter":
                jobs.append(["g++"] + SIMFLAGS + (["-fno-builtin-malloc"] if b in rt else []) + ["-I" + SIM, "-c", p, "-o", os.path.join(out, b + ".o")])
        # the slowest ones first
        jobs.sort(key=lambda j: -os.path.getsize(j[j.index("-c") + 1]) - (1 << 20) * ("xbooz_xform" not in j and j[-1].split("/")[-1].startswith("t_")))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for j, r in zip(jobs, ex.map(run, jobs)):
                if r.returncode:
                    die("compilation failed: %s\n%s" % (" ".join(j), r.stdout[-3000:]))
        o = lambda *n: [os.path.join(out, x + ".o") for x in n]
        hobj = [p for p in sorted(glob.glob(out + "/*.o")) if not os.path.basename(p).startswith("t_") and os.path.basename(p)[:-2] not in rt]
        tobj = sorted(glob.glob(out + "/t_*.o"))
        rpath = "-Wl,-rpath," + out
        for cmd in (["g++", "-shared", "-o", out + "/libsim.so"] + o(*rt) + ["-ldl", "-pthread"],
                    ["gcc", "-shared", "-o", out + "/libt.so"] + tobj + ["-Wl,-Bsymbolic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-lnetcdf", out + "/libsim.so", "-lstdc++", "-lm", rpath],
                    ["g++", "-o", out + "/simrun"] + hobj + [out + "/libsim.so", "-ldl", "-pthread", rpath]):
            r = run(cmd)
            if r.returncode:
                die("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
        open(os.path.join(out, "ok"), "w").close()
        old = sorted((d for d in glob.glob(BUILD + "/*/") if os.path.basename(d[:-1]) != key), key=os.path.getmtime)
        for d in old[:-2]:
            shutil.rmtree(d, ignore_errors=True)
    return out, time.time() - t0


def build_py(out):
    """the Python package with the instrumented library as its extension module"""
    pkg = os.path.join(REPO, "src", "booz_xform")
    inc = sysconfig_paths()
    h = hashlib.sha256(repr((PFLAGS, inc)).encode())
    for p in sorted(glob.glob(pkg + "/*.py")) + [os.path.join(REPO, "src", "_booz_xform", "bindings.cpp")]:
        with open(p, "rb") as fh:
            h.update(os.path.basename(p).encode() + b"\0" + hashlib.sha256(fh.read()).digest())
    site = os.path.join(out, "site-" + h.hexdigest()[:16])
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(site + "/ok"):
            return site
        for d in glob.glob(out + "/site-*"):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(site + "/booz_xform")
        for p in glob.glob(pkg + "/*.py"):
            shutil.copy(p, site + "/booz_xform/")
        src = os.path.join(REPO, "src", "_booz_xform")
        obj, ext = site + "/bindings.o", site + "/booz_xform/_booz_xform" + EXTSUFFIX
        tobj = sorted(glob.glob(out + "/t_*.o"))
        for cmd in (["g++"] + PFLAGS + ["-I" + i for i in inc] + ["-I" + src, "-I" + os.path.join(REPO, "externalPackages", "eigen"), "-c", src + "/bindings.cpp", "-o", obj],
                    ["gcc", "-shared", "-o", ext] + tobj + [obj, "-Wl,-Bsymbolic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-lnetcdf", out + "/libsim.so", "-lstdc++", "-lm", "-Wl,-rpath," + out]):
            r = run(cmd)
            if r.returncode:
                die("build of the Python module failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
        open(site + "/ok", "w").close()
    return site


def sysconfig_paths():
    return [VENV + "/pybind11/include", "/usr/include/python3.12"]


def simenv(prop, b):
    """environment and library of the simulator for a property"""
    if prop not in PYTHON:
        return None, b + "/libt.so"
    site = build_py(b)
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(SIMRUN_PY=os.path.join(SIM, "simpy.py"), PYTHONHASHSEED="0", PYTHONPATH=site + ":" + VENV, OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONIOENCODING="utf-8:strict", LC_ALL="C.UTF-8")
    return e, site + "/booz_xform/_booz_xform" + EXTSUFFIX


def replay(b, plan):
    with open(plan, errors="replace") as f:
        m = re.search(r"^plan (\S+)", f.read(), re.M)
    env, lib = simenv(m.group(1) if m else "", b)
    r = run([b + "/simrun", "replay", plan, "--lib", lib], timeout=600, env=env)
    m = re.search(r"^REPRODUCED (\S+): (.*)", r.stdout, re.M)
    h = re.search(r"^HASH (\w+)", r.stdout, re.M)
    return r.returncode, (m.group(1) if m else None), (m.group(2) if m else r.stdout[-500:]), (h.group(1) if h else None)


def known(prop):
    """(class, regex, text) of the listed findings of a property"""
    res = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    except OSError:
        pass
    return res


RULE = {
    "common": "a case is one simulated execution plan (input files, calls, faults, knobs, schedule) drawn from the PRNG seeded by (VERIF_SEED, property, run number) and executed against the real code; ",
    "sched": "non-trivial: it transformed surfaces in a parallel region with at least two simulated threads; distinct: by the hash of calls, statuses, schedule (switches taken) and outcome",
    "fault": "non-trivial: an injected fault fired inside a call, or a life was killed; distinct: by the hash of calls, statuses, fault kind/position and outcome",
    "group": "non-trivial: the turn passed between the interleaved processes more often than there are processes; distinct: by the hash of calls, statuses, interleaving and outcome",
    "hist": "non-trivial: the history made at least one successful call whose result the oracle compared; distinct: by the hash of calls, statuses, knobs and outcome",
}
KIND = {"C01": "sched", "C02": "sched", "C03": "sched", "C04": "sched", "C06": "hist", "C05": "hist", "C07": "hist", "C08": "hist", "C09": "hist", "C15": "hist", "C21": "hist", "C22": "hist", "C24": "hist", "C25": "hist", "C26": "group"}
PYTHON = ("C17", "C21", "C22", "C25")       # with an embedded Python interpreter


def main():
    t0 = time.time()
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    secs = None
    if "--seconds" in args:
        i = args.index("--seconds"); secs = float(args[i + 1]); del args[i:i + 2]
    if tier not in SECONDS:
        tier = "quick"
    if args == ["--build"]:
        b, t = build()
        build_py(b)
        print("built %s in %.1f s" % (b, t))
        return 0
    if len(args) == 2 and args[0] == "--replay":
        b, _ = build()
        rc, cls, msg, h = replay(b, args[1])
        print("%s %s hash %s" % (cls or "no violation", msg, h))
        return rc
    if len(args) != 1 or not re.match(r"C\d\d$", args[0]):
        print(__doc__); return 2
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = secs or SECONDS[tier]
    print("%s tier=%s seed=%d search=%gs workers=%d" % (prop, tier, seed, secs, JOBS), flush=True)
    b, tbuild = build()
    work = os.path.join(VERIF, ".build", "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        return search(prop, tier, seed, secs, b, tbuild, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def search(prop, tier, seed, secs, b, tbuild, work, t0):
    t1 = time.time()
    procs = []
    env, lib = simenv(prop, b)
    for w in range(JOBS):
        of, ef = open("%s/%d.json" % (work, w), "w"), open("%s/%d.err" % (work, w), "w")
        procs.append(subprocess.Popen([b + "/simrun", "batch", "--prop", prop, "--seed", str(seed), "--worker", str(w), "--workers", str(JOBS), "--seconds", str(secs),
                                       "--min-seconds", "45" if tier == "quick" else "120", "--lib", lib, "--out", work, "--fps", "%s/%d.fps" % (work, w)], stdout=of, stderr=ef, env=env))
    res, errors, deadline, stopped = [None] * JOBS, [], time.time() + secs + 500, False
    pending = set(range(JOBS))
    while pending:
        for w in list(pending):
            if procs[w].poll() is None:
                continue
            pending.discard(w)
            try:
                res[w] = json.load(open("%s/%d.json" % (work, w)))
            except ValueError:
                res[w] = None
                errors.append("worker %d ended with status %s: %s" % (w, procs[w].returncode, open("%s/%d.err" % (work, w)).read()[-600:]))
        if time.time() > deadline:
            for p in procs:
                p.kill()
            errors.append("search did not finish in time")
            break
        time.sleep(0.05)
    done = [r for r in res if r]
    viols = [r["violation"] for r in done if r["violation"]]
    listed = known(prop)
    confirmed, unconfirmed, hits = [], [], {}
    for v in sorted(viols, key=lambda v: (v["class"], v["run"])):
        k = next((k for k in listed if k[0] == v["class"] and k[1].search(v["msg"])), None)
        if v["same"] != 1:
            unconfirmed.append(v)
            continue
        if confirmed and not k:
            continue
        rc, cls, msg, h = replay(b, v["replay"])
        if rc != 1 or cls != v["class"] or h != v["hash"]:
            unconfirmed.append(v)
            continue
        if k:
            hits[k[2]] = hits.get(k[2], 0) + 1
            continue
        dst = os.path.join(VERIF, "replays")
        os.makedirs(dst, exist_ok=True)
        path = os.path.join(dst, os.path.basename(v["replay"]))
        shutil.copy(v["replay"], path)
        confirmed.append((v, path))
    tot = lambda k: sum(r[k] for r in done)
    add = lambda k: {x: sum(r[k].get(x, 0) for r in done) for x in sorted({x for r in done for x in r[k]})}
    cases, scheds = set(), set()
    for w in range(JOBS):
        try:
            for l in open("%s/%d.fps" % (work, w)):
                (cases if l[0] == "c" else scheds).add(l[2:])
        except OSError:
            pass
    calls = {}
    for r in done:
        for k, v in r["calls"].items():
            c = calls.setdefault(k, {"ok": 0, "error": 0, "killed": 0})
            c["ok"] += v[0]; c["error"] += v[1]; c["killed"] += v[2]
    wall = time.time() - t1
    samples = []
    for r in done:
        samples += r["samples"][:1]
    cov = {
        "evaluations": tot("runs"), "distinct_nontrivial": len(cases), "rule": RULE["common"] + RULE[KIND.get(prop, "fault")], "samples": samples[:4],
        "nontrivial": tot("nontrivial"), "simulated_processes": tot("lives"), "scripts": tot("scripts"),
        "runs_per_hour": round(tot("runs") / max(wall, 1e-3) * 3600), "seeds": 1, "seeds_per_hour": round(3600 / max(wall, 1e-3), 1), "prng_streams_per_hour": round(tot("runs") / max(wall, 1e-3) * 3600),
        "simulated_time_s": round(tot("simtime_us") / 1e6, 3), "distinct_schedules": len(scheds), "schedule_measure": "hash of the sequence (scheduling point, thread chosen) of a simulated process with at least one switch",
        "scheduling_points": tot("steps"), "context_switches": tot("switches"), "parallel_regions": tot("regions"), "memory_accesses_observed": tot("accesses"), "system_calls_simulated": tot("syscalls"), "allocations_simulated": tot("allocs"),
        "faults_fired_by_event": add("fired"), "faults_fired_by_action": add("actions"), "kills": tot("kills"), "process_switches": tot("pswitch"), "file_operations_of_interleaved_processes": tot("pevents"), "lives_with_failing_stdout": tot("outfail"), "calls": calls,
        "determinism": {"runs_repeated": tot("rerun"), "differing": tot("nondet")},
        "real_components": ["all C++ sources of /repo/src/_booz_xform except bindings.cpp, with the C++ main()", "vendored Eigen", "libnetcdf (classic format)", "libstdc++ streams"],
        "simulated_components": ["OpenMP runtime and thread scheduling", "memory accesses (happens-before race detection, shadow memory)", "heap", "files and directories", "standard output", "clock, pid, environment, random sources", "process kill"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
          "assumptions": ["simulated threads switch at instrumented memory accesses and synchronisation events: sequentially consistent interleavings only; races are reported from happens-before, not from their effects",
                          "rename() is atomic and data written before a kill survive it (process kill, not power loss)", "inputs are drawn from the generators in sim/gen.cpp: mostly up to 10 surfaces and resolutions up to 8, sometimes (one draw in about 25) up to 120 surfaces, mboz 40, nboz 24 and 65 threads"],
          }
    if prop in PYTHON:
        cov["real_components"] += ["bindings.cpp and pybind11 (as extension module)", "/repo/src/booz_xform/*.py in an embedded CPython 3.12"]
        cov["simulated_components"] += ["matplotlib (stub, imported by the package only for plots)"]
    ev["coverage"]["build_s"] = round(tbuild, 2)
    if hits:
        ev["coverage"]["known_findings"] = hits
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    print("%d runs (%d non-trivial, %d distinct), %d simulated processes, %d schedules, %d faults fired, %.0f s; repeated %d, differing %d" % (
        tot("runs"), tot("nontrivial"), len(cases), tot("lives"), len(scheds), sum(cov["faults_fired_by_event"].values()), wall, tot("rerun"), tot("nondet")))
    for v, path in confirmed:
        print("%s: %s" % (v["class"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if confirmed:
        return 1
    if errors:
        die("; ".join(errors))
    if unconfirmed:
        die("violations that do not reproduce: " + "; ".join("%s: %s" % (v["class"], v["msg"]) for v in unconfirmed)[:1500])
    if tot("nondet") * 10 > tot("rerun") + 9:
        die("%d of %d repeated runs differ" % (tot("nondet"), tot("rerun")))
    if not tot("runs"):
        die("nothing was run")
    return 0


if __name__ == "__main__":
    sys.exit(main())
