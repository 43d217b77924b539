#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by deterministic simulation
   check.py --replay FILE                 replay a recorded violation (prints the event trace)
   check.py --determinism [N]             run N seeds per property twice, with different worker counts, and compare

Everything is built from /repo/include of the working tree; see DESIGN.md."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, ".replays")
EVID = os.path.join(HERE, "evidence")
JOBS = os.cpu_count() or 4

# name -> (compiler, flags, race)
CONFIGS = {
    "gcc20-debug":      ("g++",     "-std=c++20 -O0", False),
    "clang17-release":  ("clang++", "-std=c++17 -O2 -DNDEBUG", False),
    "gcc17-m32":        ("g++",     "-m32 -std=c++17 -O1", False),
    "race":             ("clang++", "-std=c++20 -O0", True),
    "clang20-debug":    ("clang++", "-std=c++20 -O1", False),
    "gcc17-o3":         ("g++",     "-std=c++17 -O3 -DNDEBUG", False),
    "gcc20-noub":       ("g++",     "-std=c++20 -O1 -DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS", False),
    "clang17-nomember": ("clang++", "-std=c++17 -O1 -DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER", False),
    "gcc20-nobits":     ("g++",     "-std=c++20 -O2 -DNDEBUG -DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS", False),
    "gcc17-fastmath":   ("g++",     "-std=c++17 -O2 -ffast-math", False),
    "clang20-m32":      ("clang++", "-m32 -std=c++20 -O2 -DNDEBUG", False),
    "race17":           ("clang++", "-std=c++17 -O1 -DNDEBUG", True),
}
ALL64 = ["gcc20-debug", "clang17-release"]
DEEP = ["clang20-debug", "gcc17-m32", "gcc17-o3", "gcc20-noub", "clang17-nomember", "gcc20-nobits", "gcc17-fastmath", "clang20-m32"]
DEBUGS = ["gcc20-debug", "gcc17-m32", "clang20-debug", "gcc20-noub", "clang17-nomember", "gcc17-fastmath"]
# property -> (quick: [(config, runs)], thorough: [(config, runs)])
def q(cfgs, n): return [(c, n) for c in cfgs]
PLAN = {
    "C01": (q(ALL64, 1500000), q(ALL64 + DEEP, 8000000)),
    "C02": (q(ALL64, 1500000), q(ALL64 + DEEP, 8000000)),
    "C03": (q(ALL64, 1500000), q(ALL64 + DEEP, 8000000)),
    "C04": (q(ALL64, 1500000), q(ALL64 + DEEP, 8000000)),
    "C05": (q(ALL64 + ["gcc17-m32"], 1500000), q(ALL64 + DEEP, 8000000)),
    "C06": (q(ALL64 + ["gcc17-m32"], 300000), q(ALL64 + DEEP, 2000000)),
    "C07": (q(ALL64, 1500000), q(ALL64 + DEEP, 8000000)),
    "C08": (q(["race", "gcc20-debug"], 1000000), q(["race", "race17", "gcc20-debug"] + DEEP[:5], 6000000)),
    "C09": (q(["race", "gcc20-debug"], 1000000), q(["race", "race17", "gcc20-debug"] + DEEP[:5], 6000000)),
    "C10": (q(ALL64, 1500000), q(ALL64 + DEEP, 8000000)),
    "C11": (q(ALL64 + ["gcc17-m32"], 1500000), q(ALL64 + DEEP, 8000000)),
    "C12": (q(["gcc20-debug", "gcc17-m32"], 1200000), q(DEBUGS, 8000000)),
}
# translation units a property does not need
MANIP_TUS = {"kinds_f.cpp", "kinds_g.cpp", "kinds_r.cpp", "kinds_x.cpp"}

def tus_for(prop, race):
    all_ = sorted(f for f in os.listdir(SIM) if f.endswith(".cpp") and (f.startswith("kinds_") or f.startswith("cmp_")))
    if prop == "C07":
        return [f for f in all_ if f in MANIP_TUS]
    if prop != "C11":
        all_ = [f for f in all_ if not f.startswith("cmp_")]
    if prop != "C12":
        all_ = [f for f in all_ if f != "kinds_z.cpp"]
    return all_

def repo_files():
    r = []
    for base, dirs, files in os.walk(os.path.join(REPO, "include")):
        dirs.sort()
        for f in sorted(files):
            r.append(os.path.join(base, f))
    return r

def digest(prop, name):
    h = hashlib.sha256()
    for f in repo_files():
        h.update(f.encode()); h.update(open(f, "rb").read())
    for base, dirs, files in os.walk(SIM):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(repr((CONFIGS[name], tus_for(prop, CONFIGS[name][2]))).encode())
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def build(prop, name):
    """returns (binary, list of translation units that did not compile, seconds)"""
    cxx, flags, race = CONFIGS[name]
    out = os.path.join(BUILD, "%s-%s" % (name, digest(prop, name)))
    exe = os.path.join(out, "sim")
    t0 = time.time()
    if os.path.exists(exe) and os.path.exists(os.path.join(out, "ok")):
        return exe, [], 0.0
    if os.path.isdir(BUILD):  # keep the cache small
        old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD))
        for _, d in old[:-30]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    common = [cxx] + flags.split() + ["-w", "-I" + SIM, "-I" + os.path.join(REPO, "include")]
    jobs = []
    for f in ["core.cpp", "main.cpp"]:
        extra = ["-O1"]
        jobs.append((f, common + extra + (["-DSIM_RACE=1"] if race else [])))
    if race:
        jobs.append(("race/tsan_rt.cpp", common + ["-O1"]))
    for f in tus_for(prop, race):
        jobs.append((f, common + (["-fsanitize=thread", "-fno-builtin-memcmp"] if race else [])))
    def one(j):
        f, cmd = j
        o = os.path.join(out, os.path.basename(f) + ".o")
        p = subprocess.run(cmd + ["-c", os.path.join(SIM, f), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return f, o, p.returncode, p.stdout
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    bad = []
    objs = []
    for f, o, rc, txt in res:
        if rc:
            sys.stderr.write("compilation of %s failed in configuration %s:\n%s\n" % (f, name, txt[:1500]))
            bad.append(f)
        else:
            objs.append(o)
    if any(not b.startswith(("kinds_", "cmp_")) for b in bad) or len(objs) < 4:
        raise BuildError("configuration %s does not build" % name)
    link = [cxx] + [x for x in flags.split() if x == "-m32"] + objs + ["-o", exe]
    if race:
        link += ["-no-pie", "-Wl,--wrap=memcmp,--wrap=memcpy,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"]
    p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("link failed in configuration %s:\n%s" % (name, p.stdout[:1500]))
    for o in objs:
        os.unlink(o)
    if not bad:
        open(os.path.join(out, "ok"), "w").close()
    return exe, bad, time.time() - t0

REAL = ["include/tiny/optional.h and optional_flag_manipulator_fwd.h, unmodified, every operation of the public API (real code)",
        "libstdc++'s std::optional, std::hash, std::swap (real code; std::optional also driven by the same harness to calibrate the oracle)"]
STUB = ["threads: up to 4 simulated tasks (fibers) on one OS thread, switched only by the seeded scheduler",
        "operator new/delete: simulated allocator with failure injection, prior contents and leak accounting",
        "payload types, callbacks, conversions, comparison/hash functions and flag manipulators: simulator-owned user code",
        "assert handler, std::terminate handler and fatal signals: intercepted"]
RULE = ("One evaluation = one simulated run: a history of 2..105 API operations on 1..12 adjacent optionals of one kind, generated "
        "swarm-style from (VERIF_SEED, property, configuration, run number) together with its fault points, task schedule and prior memory "
        "contents; the reference model is compared after every operation. Distinct = different hash of the complete event log (operations, "
        "results, values, lifetimes, faults, switches), counted in a 2^28-bit table (collisions only under-count). Non-trivial = at least two "
        "operations took effect and at least one fault fired, a task switch took effect, a deliberate misuse was stopped by an assertion, or "
        "(C06) the run was repeated over seven different memory contents.")

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--determinism":
        return determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 20000)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = float(os.environ.get("SIM_SCALE", "1"))
    t0 = time.time()
    for d in (BUILD, REPLAYS, EVID):
        os.makedirs(d, exist_ok=True)
    results, unbuilt, violation, error = [], [], None, None
    for stream, (name, runs) in enumerate(PLAN[prop][1 if tier == "thorough" else 0]):
        runs = int(runs * scale)
        try:
            exe, bad, bt = build(prop, name)
        except BuildError as e:
            error = str(e)
            unbuilt.append(name)
            continue
        unbuilt += ["%s/%s" % (name, b) for b in bad]
        out = os.path.join(BUILD, "result-%s-%d.json" % (prop, os.getpid()))
        p = subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--stream", str(stream), "--runs", str(runs), "--jobs", str(JOBS),
                            "--config", name, "--out", out, "--replaydir", REPLAYS], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sys.stdout.write(p.stdout)
        try:
            r = json.load(open(out))
            os.unlink(out)
        except Exception as e:
            error = "configuration %s: no result (%s, exit %s)" % (name, e, p.returncode)
            continue
        r["build_s"] = round(bt, 1)
        results.append(r)
        if p.returncode == 1:
            violation = re.search(r"^REPLAYFILE (.*)$", p.stdout, re.M).group(1)
            break
        if p.returncode != 0:
            error = "configuration %s: simulator ended with exit code %d" % (name, p.returncode)
    wall = time.time() - t0
    evidence(prop, tier, seed, results, unbuilt, violation, wall)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    if error or unbuilt:
        print("ERROR property=%s: %s %s" % (prop, error or "", " ".join(unbuilt)))
        return 2
    tot = sum(r["executions"] for r in results)
    print("OK property=%s: %d simulated runs in %d configurations, %.0f s" % (prop, tot, len(results), wall))
    return 0

def evidence(prop, tier, seed, results, unbuilt, violation, wall):
    def s(k): return sum(r[k] for r in results)
    fired, kinds, ops, exc = {}, {}, {}, {}
    for r in results:
        for k, v in r["fired"].items(): fired[k] = fired.get(k, 0) + v
        for k, v in r["exceptions"].items(): exc[k] = exc.get(k, 0) + v
        for k, v in r["kinds"].items(): kinds[k] = kinds.get(k, 0) + v
        for k, v in r["ops_by_code"].items():
            o = ops.setdefault(k, [0, 0, 0])
            for i in range(3): o[i] += v[i]
    simwall = s("wall_s") or 1e-9
    cov = {
        "evaluations": s("executions"), "distinct_nontrivial": s("distinct_nontrivial"), "rule": RULE,
        "samples": [x for r in results[:1] for x in r["samples"]],
        "runs": s("runs"), "distinct_executions": s("distinct"),
        "runs_per_hour": int(s("executions") / simwall * 3600), "seeds_per_hour": int(s("runs") / simwall * 3600),
        "simulated_time": "no clock exists in this system; simulated time is counted in scheduling points: %d, of which memory accesses %d" % (s("points"), s("mem_points")),
        "api_operations_executed": s("ops") - s("skipped"), "operations_skipped_as_inapplicable": s("skipped"),
        "task_switches": s("switches"), "runs_with_switches": s("switched_runs"),
        "faults_fired_by_kind": fired, "faults_fired_late_after_partial_effects": s("fired_late"), "runs_with_faults": s("faulted_runs"),
        "injected_exception_types": exc, "operations_during_stack_unwinding": s("unwinding"), "operations_inside_a_catch_handler": s("in_handler"), "operations_on_another_optional_from_user_code": s("nested"),
        "reentrant_callbacks": s("reentrant"), "bad_optional_access_seen": s("bad_access"), "deliberate_misuse_stopped": s("asserts_expected"),
        "operations": {k: {"executed": v[0], "with_fault": v[1], "skipped": v[2]} for k, v in sorted(ops.items())},
        "kinds": kinds, "real_components": REAL, "stubbed_components": STUB,
        "configurations": [{"name": r["config"], "compiler": CONFIGS[r["config"]][0] + " " + CONFIGS[r["config"]][1], "runs": r["runs"], "executions": r["executions"],
                            "build_s": r["build_s"], "wall_s": r["wall_s"], "violations_of_other_properties_seen": r["other_properties"]} for r in results],
        "not_built": unbuilt,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["The simulated payloads, callbacks and allocator stand for user code; user code obeys the documented requirements (destructors and swallowed-flag manipulators do not throw).",
                          "Seeded sampling: a clean batch is evidence, not proof.",
                          "Tasks interleave at user-code calls, allocations and (race configurations) at every instrumented memory access; weaker memory orderings are covered by reporting every unsynchronised conflicting access."],
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

def replay(path):
    txt = open(path).read()
    prop = re.search(r"^prop (\w+)", txt, re.M).group(1)
    name = re.search(r"^config (\S+)", txt, re.M).group(1)
    exe, bad, _ = build(prop, name)
    r = subprocess.run([exe, "--replay", path, "--trace"])
    return r.returncode

def determinism(n):
    """Same seeds, two executions, different worker counts: identical event hashes."""
    worst = 0
    for prop in sorted(PLAN):
        for name, _ in PLAN[prop][0]:
            exe, _, _ = build(prop, name)
            logs = []
            for jobs in (JOBS, 3, 1):
                d = os.path.join(BUILD, "det-%d" % os.getpid())
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                subprocess.run([exe, "--prop", prop, "--seed", "77", "--runs", str(n), "--jobs", str(jobs), "--hashes", d, "--replaydir", d], check=True)
                rows = {}
                for f in os.listdir(d):
                    for line in open(os.path.join(d, f)):
                        a = line.split()
                        rows[int(a[0])] = tuple(a[1:])
                logs.append(rows)
                shutil.rmtree(d)
            same = logs[0] == logs[1] == logs[2] and len(logs[0]) == n
            diff = [i for i in logs[0] if any(l.get(i) != logs[0][i] for l in logs)]
            print("%s %-16s %d runs x 3 worker counts: %s" % (prop, name, n, "identical" if same else "DIFFERENT %s" % diff[:5]))
            worst |= not same
    return worst

sys.exit(main())
