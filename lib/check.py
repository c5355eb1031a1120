#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [quick|thorough]"""
import concurrent.futures as cf
import fnmatch
import json
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from specs import SPECS


def known_findings(prop):
    """Lines `KNOWN property=<id> label=<glob>` : text"""
    out = []
    p = os.path.join(vlib.VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, text = line[len("known: "):].partition(" :: ")
        kv = dict(x.split("=", 1) for x in head.split(" ", 1))
        if kv.get("property") == prop:
            out.append((kv["label"], text))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("VERIF_ONLY")
    spec = SPECS[prop]
    t0 = time.time()
    budget_total = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    outdir = os.path.join(vlib.BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    rc = 2
    try:
        rc = run(prop, spec, tier, seed, only, t0, budget_total, outdir)
    except vlib.CheckError as e:
        print("ERROR", e)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    sys.exit(rc)


def run(prop, spec, tier, seed, only, t0, budget_total, outdir):
    with cf.ThreadPoolExecutor(1) as ex:
        ef = ex.submit(vlib.engine)
        tree = vlib.Tree()
        mods = {h: tree.harness(h) for h in spec["harness"]}
        sym = ef.result()
    t_build = time.time() - t0
    runs = []
    for r in spec["runs"](tier):
        r = dict(r)
        r.setdefault("harness", spec["harness"][0])
        if only and not (fnmatch.fnmatch(r["entry"], only) or fnmatch.fnmatch(vlib.run_tag(r), only)):
            continue
        if tier == "thorough" and not runs:
            r["dump"] = os.path.join(outdir, "dump")
        runs.append(r)
    runs.sort(key=lambda r: -r.get("cost", 1))
    pool = cf.ThreadPoolExecutor(vlib.JOBS)

    def go(r):
        left = budget_total - (time.time() - t0)
        if left < 5:
            return {"tag": vlib.run_tag(r), "run": r, "code": 2, "log": "no time left", "data": None,
                    "traces": "", "wall": 0, "skipped": True}
        # no run takes the time of all others
        return vlib.run_engine(sym, mods[r["harness"]][0], r, outdir, seed, max(min(left, 30), left * 0.6))

    results = list(pool.map(go, runs))
    # `errors`: no verdict. `partial`: the time was up before everything within the bounds was explored.
    errors, viols, partial = [], [], []
    agg = {k: 0 for k in ("paths", "rejected_paths", "states", "forks", "blocks", "instructions", "queries",
                          "sat", "unsat", "unknown", "cache_hits", "model_hits", "checks", "checks_folded",
                          "symbolic_accesses", "assumed_away")}
    solver_s, slowest = 0.0, 0.0
    funcs, lines, reached = set(), {}, {}
    table = []
    traces_ok = 0
    samples = []
    for r in results:
        d = r["data"]
        if r.get("skipped") or (d is None and r["log"] == "engine did not stop in time"):
            partial.append("%s: %s" % (r["tag"], r["log"]))
            continue
        if d is None:
            errors.append("%s: engine failed: %s" % (r["tag"], r["log"][-1500:]))
            continue
        for k in agg:
            agg[k] += d[k]
        solver_s += d["solver_s"]
        slowest = max(slowest, d["slowest_query_s"])
        funcs.update(d["functions"])
        for f, ls in d["lines"].items():
            lines.setdefault(f, set()).update(ls)
        for k, v in d["reached"].items():
            reached[k] = reached.get(k, 0) + v
        table.append({"run": r["tag"], "paths": d["paths"], "queries": d["queries"],
                      "unsat": d["unsat"], "checks": d["checks"], "solver_s": round(d["solver_s"], 2),
                      "wall_s": round(r["wall"], 2)})
        if r["code"] == 1:
            for v in d["violations"]:
                viols.append((r, v))
        if d["incomplete"] and set(d["incomplete"]) <= {"time budget exceeded", "solver gave no answer (timeout)"}:
            partial.append("%s: %s, after %d paths" % (r["tag"], "; ".join(d["incomplete"]), d["paths"]))
        elif d["incomplete"]:
            errors.append("%s: incomplete: %s" % (r["tag"], "; ".join(d["incomplete"])[:1500]))
        elif r["code"] not in (0, 1):
            errors.append("%s: engine exit %d: %s" % (r["tag"], r["code"], r["log"][-1500:]))
        if not d["violations"] and not d["incomplete"] and not r["run"].get("may_be_empty"):
            # vacuity: every run must end a path and evaluate checks
            if d["paths"] == 0 or d["checks"] + d["rejected_paths"] == 0:
                errors.append("%s: vacuous: %d paths, %d checks" % (r["tag"], d["paths"], d["checks"]))
            for lab in r["run"].get("reach", []):
                if not d["reached"].get(lab):
                    errors.append("%s: vacuous: marker '%s' never reached" % (r["tag"], lab))
    if partial and len(partial) == len(results):
        errors.append("no run was explored in full")
    if not only and not viols:
        for lab in spec.get("reach", []):
            if not reached.get(lab):
                errors.append("vacuous: marker '%s' never reached" % lab)
    # native side
    try:
        natives = {h: m[1].result() for h, m in mods.items()}
    except vlib.CheckError as e:
        natives = None
        errors.append(str(e))
    if natives:
        def val(r):
            if r["data"] is None:
                return (0, 0, "")
            return vlib.validate_traces(natives[r["run"]["harness"]], r)
        for r, (ok, bad, log) in zip(results, pool.map(val, results)):
            traces_ok += ok
            if bad:
                errors.append("%s: %d traces differ between the encoding and the native build: %s"
                              % (r["tag"], bad, log))
            if len(samples) < 6 and r["traces"] and os.path.exists(r["traces"]):
                with open(r["traces"]) as f:
                    l = f.readline().strip()
                    if l:
                        samples.append("%s: %s" % (r["tag"], l[:600]))
    # violations: replay on the real build
    known = known_findings(prop)
    confirmed, known_hit = [], {}
    seen = set()
    for r, v in viols:
        label = "%s/%s: %s" % (r["run"]["entry"], v["kind"], v["msg"])
        if label in seen:
            continue
        seen.add(label)
        rdir = os.path.join(vlib.BUILD, "replay", prop, "%d" % len(seen))
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        infile = os.path.join(rdir, "inputs.txt")
        with open(infile, "w") as f:
            f.write("# %s %s\n# %s\n# %s\n" % (prop, label, v["where"], r["tag"]))
            for name, w, val_ in v["inputs"]:
                f.write("# %s (%d bits)\n%s\n" % (name, w, val_))
        if not natives:
            errors.append("cannot replay: " + label)
            continue
        native = natives[r["run"]["harness"]]
        params = vlib.native_params(r["run"])
        code, log = vlib.replay(native, r["run"]["entry"], params, infile)
        shutil.copy(native, os.path.join(rdir, "native"))
        with open(os.path.join(rdir, "replay.sh"), "w") as f:
            f.write("#!/bin/bash\n# exits non-zero: the violation happens in the real code\ncd \"$(dirname \"$0\")\"\n"
                    "ASAN_OPTIONS='%s' ./native replay %s inputs.txt %s\n"
                    % (vlib.ASAN_ENV["ASAN_OPTIONS"], r["run"]["entry"], " ".join(params)))
        with open(os.path.join(rdir, "info.json"), "w") as f:
            json.dump({"property": prop, "label": label, "where": v["where"], "inputs": v["inputs"],
                       "native_exit": code, "native_log": log}, f, indent=1)
        if v["kind"] == "hang" and code in (0, 42, 43, 44):
            # long, but it ends: beyond the bound on instructions per path
            partial.append("%s: path over the bound on instructions" % r["tag"])
            continue
        if code in (0, 42, 43, 44, 64):
            errors.append("counterexample did not reproduce natively (exit %d): %s at %s; %s"
                          % (code, label, v["where"], rdir))
            continue
        k = next((t for g, t in known if fnmatch.fnmatch(label, g)), None)
        if k is not None:
            known_hit[k] = known_hit.get(k, 0) + 1
            continue
        confirmed.append((label, v, rdir, log))
    # thorough: a second solver on a sample of the discharged queries
    cross = None
    if tier == "thorough":
        cross = crosscheck(os.path.join(outdir, "dump"), errors)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for label, v, rdir, log in confirmed:
        print("  violated: %s\n  at: %s\n  native: %s" % (label, v["where"], log.strip()[:500].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, rdir))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg["states"], "transitions": agg["blocks"],
            "traces_validated_against_impl": traces_ok, "samples": samples or ["none"],
            "paths_completed": agg["paths"], "paths_rejected_by_assertion": agg["rejected_paths"],
            "instructions": agg["instructions"], "assertions_decided": agg["checks"],
            "assertions_decided_by_simplification": agg["checks_folded"],
            "solver_queries": agg["queries"], "solver_unsat": agg["unsat"], "solver_sat": agg["sat"],
            "solver_unknown": agg["unknown"], "query_cache_hits": agg["cache_hits"],
            "sat_by_model_reuse": agg["model_hits"], "symbolic_address_accesses": agg["symbolic_accesses"],
            "solver_s": round(solver_s, 2), "slowest_query_s": round(slowest, 3),
            "build_s": round(t_build, 1),
            "bounds": spec["bounds"](tier) if callable(spec["bounds"]) else spec["bounds"],
            "functions_encoded": sorted(funcs),
            "lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
            "markers": reached, "runs": table, "errors": errors,
            "explored_in_full": not partial and not errors, "cut_short_by_time": partial,
        },
        "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    if cross:
        ev["coverage"]["second_solver"] = cross
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d paths, %d queries (%d unsat), %d checks, %d traces validated, %.1fs (build %.1fs)"
          % (prop, tier, len(runs), agg["paths"], agg["queries"], agg["unsat"], agg["checks"], traces_ok, wall, t_build))
    if os.environ.get("VERIF_VERBOSE"):
        for row in sorted(table, key=lambda x: -x["wall_s"])[:12]:
            print("   ", row)
        for f, l in sorted(lines.items()):
            print("   ", f, len(l))
    for e in partial:
        print("INCOMPLETE (out of bounds)", e)
    for e in errors:
        print("ERROR", e)
    if confirmed:
        return 1
    return 2 if errors else 0


def crosscheck(d, errors):
    if not os.path.isdir(d):
        return {"queries": 0}
    n = ok = skipped = 0
    files = sorted(os.listdir(d))[:200]

    def one(f):
        try:
            r = subprocess.run(["cvc5", "--tlimit=20000", os.path.join(d, f)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            return f, r.stdout.strip()
        except OSError as e:
            return f, str(e)
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for f, out in ex.map(one, files):
            n += 1
            want = "unsat" if ".unsat." in f else "sat"
            if out.split("\n")[-1] in ("sat", "unsat"):
                if out.split("\n")[-1] == want:
                    ok += 1
                else:
                    errors.append("solvers disagree on %s: %s" % (f, out[:300]))
            else:
                skipped += 1
    return {"solver": "cvc5", "queries": n, "agree": ok, "no_answer": skipped}


main()
