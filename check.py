#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--jobs N]: decides one property of /repo's current tree.

Builds the symbolic executor and the harness with the real crates (LLVM IR and a native replay
binary), executes the harness entries symbolically with an SMT solver deciding every branch and
assertion, replays what is reported against the native build, and writes the evidence file."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build
from table import PROPS, ASSUME

V = build.V
EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 3

def engine_run(sx, lst, job, seconds, tag):
    out = os.path.join(build.BUILD, "out-%s-%d.json" % (tag, os.getpid()))
    cmd = [sx, "--list", lst, "--entry", job["entry"], "--params", ",".join(map(str, job["params"])), "--time", str(int(seconds)),
           "--workers", str(os.environ.get("VP_WORKERS", 8)), "--max-viol", "24", "--out", out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=seconds + 120)
    if not os.path.exists(out):
        raise RuntimeError("engine failed on %s %s: %s" % (job["entry"], job["params"], p.stderr[-2000:]))
    r = json.load(open(out))
    os.unlink(out)
    return r

def vals_arg(vals):
    return ",".join("%d:%d" % (w, v) for w, v in vals)

def reproduce(binary, job, v):
    """Replays a counterexample. One that depends on the schedule is tried with different timings."""
    rc, _, err = replay(binary, job, v["vals"], v["sched"])
    if verdict(rc) in ("held",) and (v["sched"] or job.get("tries")):
        tries = range(1, job.get("tries", 60) + 1)
        with cf.ThreadPoolExecutor(4) as ex:
            for rc, _, err in ex.map(lambda k: replay(binary, job, v["vals"], v["sched"], 20, k), tries):
                if verdict(rc) in ("assert", "panic", "crash", "hang"):
                    break
    return rc, err

def replay(binary, job, vals, sched, timeout=20, jitter=None, slow=None):
    cmd = [binary, job["entry"], ",".join(map(str, job["params"])), vals_arg(vals)]
    # the usual size of a stack
    cmd = ["/bin/sh", "-c", "ulimit -s 8192 2>/dev/null; exec \"$@\"", "sh"] + cmd
    env = dict(os.environ, RUST_BACKTRACE="0")
    if sched:
        env["SX_SCHED"] = ",".join(map(str, sched))
    if jitter is not None:
        env["SX_JITTER"] = str(jitter)
    if slow is not None:
        env["SX_SLOW"] = str(slow)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "hang", None, ""
    obs = [int(l[4:]) for l in p.stdout.splitlines() if l.startswith("OBS ")]
    return p.returncode, obs, p.stderr

def threads(job):
    """whether other threads run natively, so that time matters"""
    return job["h"] in ("server", "init", "proc")

def verdict(rc):
    """what a native run showed"""
    if rc == 0:
        return "held"
    if rc == 77:
        return "discarded"
    if rc == 42:
        return "assert"
    if rc == 43:
        return "panic"
    if rc == "hang":
        return "hang"
    return "crash"

def known_findings(prop):
    k = {}
    try:
        for l in open(V + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) entry=(\S+) code=(\S+) (.*)", l.strip())
            if m and m[1] == prop:
                k[(m[2], m[3])] = m[4]
    except OSError:
        pass
    return k

def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    spec = PROPS[prop]
    t0 = time.time()
    jobs = [j for j in spec["jobs"] if thorough or not j.get("thorough")]
    if thorough:
        jobs = [j for j in jobs if not j.get("quick_only")]
    hs = sorted({j["h"] for j in jobs})
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build.engine)
        fi = {h: ex.submit(build.ir, h) for h in hs}
        fn = {h: ex.submit(build.native, h) for h in hs}
        try:
            sx = fe.result()
            lists = {h: f.result()[0] for h, f in fi.items()}
            bins = {h: f.result()[0] for h, f in fn.items()}
        except build.BuildError as e:
            print("BUILD-ERROR", str(e)[-4000:])
            return EXIT_ERROR
    t_build = time.time() - t0
    limit = 6 * 3600 if thorough else 780
    known = known_findings(prop)
    seen_known, viols, errors, notes, details, samples = {}, [], [], [], [], []
    functions, validated, disagreements = set(), 0, 0
    tot = dict(states=0, transitions=0, q=0, sat=0, unsat=0, unknown=0, ms=0, asserts=0, asym=0, instr=0, disc=0)
    for n, j in enumerate(jobs):
        left = limit - (time.time() - t0)
        if left < 10:
            notes.append("no time left for %s %s" % (j["entry"], j["params"]))
            continue
        secs = min(left, j.get("time", 1800 if thorough else 240))
        try:
            r = engine_run(sx, lists[j["h"]], j, secs, "%s-%d" % (prop, n))
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            errors.append(str(e))
            continue
        tot["states"] += r["paths"]; tot["transitions"] += r["symbolic_branches"]
        tot["q"] += r["solver_queries"]; tot["sat"] += r["solver_sat"]; tot["unsat"] += r["solver_unsat"]
        tot["unknown"] += r["solver_unknown"]; tot["ms"] += r["solver_ms"]; tot["asserts"] += r["assertions_evaluated"]
        tot["asym"] += r["assertions_symbolic"]; tot["instr"] += r["instructions"]; tot["disc"] += r["paths_discarded_by_assumption"]
        functions |= set(r["functions"])
        d = {k: r[k] for k in ("entry", "params", "complete", "paths", "paths_discarded_by_assumption", "symbolic_branches", "forks",
                               "assertions_evaluated", "assertions_symbolic", "solver_queries", "solver_sat", "solver_unsat", "solver_unknown",
                               "solver_ms", "max_symbolic_variables", "max_path_instructions", "multi_thread_paths", "wall_ms", "reach", "unsupported")}
        d["bounds"] = j["bounds"]
        found = False
        # group what was reported, replay a few of each group
        groups = {}
        for v in r["violations"]:
            groups.setdefault((v["kind"], v["at"] if v["kind"] == "assert" else v["stack"][0] if v["stack"] else v["at"]), []).append(v)
        for (kind, at), vs in groups.items():
            ok = None
            for v in vs[:6]:
                rc, err = reproduce(bins[j["h"]], j, v)
                got = verdict(rc)
                if got in ("assert", "panic", "crash", "hang"):
                    ok = (v, got, err)
                    break
            if ok is None:
                if kind == "step-limit":
                    d["complete"] = False
                    notes.append("%s %s: instruction budget exceeded on a path that ends natively" % (j["entry"], j["params"]))
                else:
                    errors.append("counterexample does not reproduce: %s %s %s at %s vals %s" % (j["entry"], j["params"], kind, at, vals_arg(vs[0]["vals"])))
                found = True
                continue
            v, got, err = ok
            code = None
            m = re.search(r"SX assert (\d+)", err)
            if got == "assert" and m:
                code = m[1]
            if kind == "stack-overflow" and got == "crash":
                code = "stack/" + ".".join(map(str, j["params"]))
            if code is not None and (j["entry"], code) in known:
                seen_known[(j["entry"], code)] = known[(j["entry"], code)]
                continue
            found = True
            viols.append((j, kind, at, v, got, err))
        if not found:
            if r["complete"] and not r["unsupported"]:
                for c in j.get("reach", []):
                    if not r["reach"].get(str(c)):
                        errors.append("vacuous: %s %s never reached %s" % (j["entry"], j["params"], c))
        if r["unsupported"]:
            notes.append("%s %s: paths cut at unsupported operations: %s" % (j["entry"], j["params"], r["unsupported"]))
            d["complete"] = False
        # the encoding against the implementation: sampled paths replayed natively
        nv = 0
        smp = r["samples"]
        step = max(1, len(smp) // (60 if thorough else 24))
        pick = smp[::step]
        with cf.ThreadPoolExecutor(8) as ex:
            for s, (rc, obs, err) in zip(pick, ex.map(lambda s: replay(bins[j["h"]], j, s["vals"], s.get("sched"), 60), pick)):
                for slow in (5, 20):
                    # other threads may just not have got far enough on a busy machine
                    if rc == 0 and obs == s["observed"] or not threads(j):
                        break
                    rc, obs, err = replay(bins[j["h"]], j, s["vals"], s.get("sched"), 120, None, slow)
                if rc == 0 and obs == s["observed"]:
                    nv += 1
                elif verdict(rc) in ("panic", "crash", "hang", "assert") or (rc == 0 and obs != s["observed"]):
                    code = re.search(r"SX assert (\d+)", err)
                    if code and (j["entry"], code[1]) in known:
                        continue
                    disagreements += 1
                    if not viols:
                        errors.append("the native run differs from the symbolic path: %s %s vals %s: %s, observed %s, expected %s" % (
                            j["entry"], j["params"], vals_arg(s["vals"]), verdict(rc), str(obs)[:200], str(s["observed"])[:200]))
        validated += nv
        d["traces_validated"] = nv
        details.append(d)
        if smp:
            samples.append({"entry": j["entry"], "params": j["params"], "values": vals_arg(smp[len(smp) // 2]["vals"])[:400]})
        if viols and not thorough:
            break
    rep = os.path.join(V, "evidence", "replay")
    lines = []
    for i, (j, kind, at, v, got, err) in enumerate(viols):
        os.makedirs(rep, exist_ok=True)
        path = "%s/%s-%d.sh" % (rep, prop, i)
        with open(path, "w") as f:
            f.write("#!/bin/sh\n# %s: %s at %s; natively: %s\n# %s\n" % (prop, kind, at, got, err.strip().replace("\n", "\n# ")[:2000]))
            f.write("python3 %s/lib/build.py native %s >/dev/null || exit 2\n" % (V, j["h"]))
            cmd = "%s %s %s %s" % (bins[j["h"]], j["entry"], ",".join(map(str, j["params"])), vals_arg(v["vals"]))
            if v["sched"]:
                f.write("# depends on the schedule (%s): tried with different timings\n" % ",".join(map(str, v["sched"])))
                f.write("%s || exit 1\nfor k in $(seq 1 200); do SX_JITTER=$k %s || exit 1; done\n" % (cmd, cmd))
            else:
                f.write(cmd + "\n")
        os.chmod(path, 0o755)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s %s: %s at %s, natively %s: %s" % (j["entry"], j["params"], kind, at, got, err.strip()[-300:]))
        print("  symbolic stack: %s" % " < ".join(v["stack"][:6]))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": validated,
            "samples": samples, "exhaustive": bool(details) and all(d["complete"] for d in details) and len(details) == len(jobs),
            "meaning": "states: complete symbolic paths through the real code, each for all values satisfying its path condition; transitions: "
                       "branches on symbolic values decided by the solver or by exact value sets; traces validated: paths replayed natively with the same observations",
            "functions_encoded": sorted(functions)[:400], "functions_encoded_count": len(functions),
            "instructions_executed": tot["instr"], "paths_discarded_by_assumption": tot["disc"],
            "assertions": tot["asserts"], "assertions_with_symbolic_operands": tot["asym"],
            "solver_queries": tot["q"], "solver_sat": tot["sat"], "solver_unsat": tot["unsat"], "solver_unknown": tot["unknown"], "solver_ms": tot["ms"],
            "jobs": details, "notes": notes, "errors": errors, "known_findings": sorted(seen_known.values()), "build_s": round(t_build, 1),
            "disagreements": disagreements,
        },
        "assumptions": ASSUME + spec.get("assume", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(viols),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s (%s): %d jobs, %d paths, %d symbolic branches, %d assertions, %d solver queries (%d ms), %d traces validated, build %.0f s, total %.0f s" % (
        prop, tier, len(details), tot["states"], tot["transitions"], tot["asserts"], tot["q"], tot["ms"], validated, t_build, time.time() - t0))
    for d in details:
        if not d["complete"]:
            print("  incomplete: %s %s" % (d["entry"], d["params"]))
    for x in notes:
        print("  note:", x)
    for x in sorted(seen_known.values()):
        print("KNOWN-FINDING: property=%s %s" % (prop, x))
    for l in lines:
        print(l)
    if lines:
        return EXIT_VIOLATION
    for x in errors:
        print("ERROR:", x)
    return EXIT_ERROR if errors else EXIT_OK

if __name__ == "__main__":
    sys.exit(main())
