"""Run the check of one property:  python3-vt -m vf.run C02 [--tier quick|thorough]"""
import fnmatch
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.path.insert(0, ROOT)

JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class H:
    """One harness: fn(ctx, **params); bounds is the stated bound of this harness."""

    def __init__(self, name, fn, params=None, bounds="", reach=(), thorough_only=False, samples=6, loop_limit=3000,
                 max_conc=80, real_floats=False, max_paths=200000, quick_params=None):
        self.name, self.fn, self.params, self.bounds = name, fn, params or {}, bounds
        self.reach, self.thorough_only, self.samples = tuple(reach), thorough_only, samples
        self.loop_limit, self.max_conc, self.real_floats, self.max_paths = loop_limit, max_conc, real_floats, max_paths


def expand(mod, tier):
    hs = mod.harnesses(tier) if hasattr(mod, "harnesses") else mod.HARNESSES
    out = [h for h in hs if tier == "thorough" or not h.thorough_only]
    names = [h.name for h in out]
    assert len(set(names)) == len(names), "duplicate harness names"
    return out


def run_one(args):
    prop, idx, tier, deadline = args
    from vf import engine, instrument, stubs
    mod = sys.modules["harness." + prop]
    h = expand(mod, tier)[idx]
    t = time.time()
    ctx = engine.SymCtx(loop_limit=h.loop_limit, max_conc=h.max_conc, deadline=deadline, max_paths=h.max_paths)
    ctx.real_floats = h.real_floats
    known = load_findings(prop)
    ctx.decisive = lambda msg: not match_finding(known, {"harness": h.name, "msg": msg})
    instrument.FUNCS.clear()
    res = {"name": h.name, "error": None}
    try:
        ctx.explore(lambda c: h.fn(c, **h.params), max_samples=h.samples, on_path_start=stubs.reset_world)
    except BaseException as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()
    res.update(paths=ctx.n_paths, queries=ctx.n_queries, obligations=ctx.n_obl, discharged=ctx.n_disch,
               solver_s=round(ctx.solver_time, 3), nodes=ctx.n_nodes, edges=ctx.n_edges,
               violations=[{"msg": v.msg, "model": v.model, "kind": v.kind} for v in ctx.violations],
               samples=ctx.path_models, reached=ctx.reached, funcs=sorted(instrument.FUNCS),
               wall=round(time.time() - t, 2), missing=[r for r in h.reach if r not in ctx.reached])
    return res


def json_safe(o):
    if isinstance(o, dict):
        return {str(k): json_safe(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [json_safe(x) for x in o]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return repr(o)
    return str(o)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "7200"))
    from vf import instrument
    instrument.install(True)
    try:
        mod = importlib.import_module("harness." + prop)
    except Exception:
        # The tree does not even load: nothing can be decided.
        traceback.print_exc()
        return 2
    hs = expand(mod, tier)
    todo = [(prop, i, tier, t0 + budget) for i, h in enumerate(hs) if not a.only or a.only in h.name]
    results = []
    if len(todo) == 1 or JOBS == 1:
        results = [run_one(x) for x in todo]
    else:
        known_f = load_findings(prop)
        stop = t0 + budget + 20
        names = {hs[x[1]].name for x in todo}
        with mp.get_context("fork").Pool(min(JOBS, len(todo)), maxtasksperchild=20) as pool:
            it = pool.imap_unordered(run_one, todo, chunksize=1)
            for _ in todo:
                try:
                    r = it.next(timeout=max(0.1, stop - time.time()))
                except mp.TimeoutError:
                    break
                results.append(r)
                names.discard(r["name"])
                if any(not match_finding(known_f, {"harness": r["name"], "msg": v["msg"]}) for v in r["violations"]):
                    # a counterexample decides the property: what else fails is not waited for
                    stop = min(stop, time.time() if os.environ.get("VERIF_FAILFAST") else max(time.time() + 20, t0 + 90))
            pool.terminate()
        for n in sorted(names):
            results.append({"name": n, "error": "not finished", "paths": 0, "queries": 0, "obligations": 0, "discharged": 0, "solver_s": 0,
                            "nodes": 0, "edges": 0, "violations": [], "samples": [], "reached": [], "funcs": [], "wall": 0, "missing": []})
    results.sort(key=lambda r: r["name"])
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("%-50s paths=%d q=%d obl=%d viol=%d solver=%.1fs wall=%.1fs %s %s" % (
                r["name"], r["paths"], r["queries"], r["obligations"], len(r["violations"]), r["solver_s"], r["wall"],
                r["missing"] or "", (r["error"] or "")[:300]))
    # ---- replay on the unpatched code ------------------------------------
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    tasks = []
    for r in results:
        for n, v in enumerate(r["violations"]):
            tasks.append({"harness": r["name"], "kind": "violation", "n": n, "model": v["model"], "msg": v["msg"], "vkind": v["kind"]})
        for n, (m, obs) in enumerate(r["samples"]):
            tasks.append({"harness": r["name"], "kind": "sample", "n": n, "model": m, "obs": json_safe(obs)})
    reps = replay(prop, tier, tasks)
    findings = load_findings(prop)
    rc = 0
    errors, known, viols = [], [], []
    validated = 0
    for task, rep in zip(tasks, reps):
        if task["kind"] == "sample":
            if rep["status"] == "ok" and rep["obs"] == task["obs"]:
                validated += 1
            else:
                errors.append("model of %s path does not replay on the real code: %s" % (
                    task["harness"], json.dumps({"model": task["model"], "expected": task["obs"], "got": rep})[:1500]))
            continue
        path = os.path.join(evdir, "replay", "%s-%s-%d.json" % (prop, task["harness"].replace("/", "_").replace(" ", "_"), task["n"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, **task, "replay": rep}, f, indent=1)
        # reproduced: the same assertion fails on plain values (or, for an escaped
        # exception / a hang, the same kind of failure shows up)
        if rep["status"] == "failed" or (rep["status"] == task["vkind"]):
            fk = match_finding(findings, task)
            if fk:
                known.append((fk, task))
            else:
                viols.append((task, path))
        else:
            errors.append("counterexample of %s does not reproduce: %s -> %s" % (task["harness"], json.dumps(task)[:800], json.dumps(rep)[:800]))
    for r in results:
        if r["error"]:
            errors.append("%s: %s\n%s" % (r["name"], r["error"], r.get("trace", "")))
        elif r["missing"] and not r["violations"]:
            errors.append("%s: reachability witness not reached: %s" % (r["name"], r["missing"]))
        if r["paths"] == 0 and not r["error"]:
            errors.append("%s: no feasible path (vacuous)" % r["name"])
    seen = set()
    for fk, task in known:
        if fk["id"] not in seen:
            seen.add(fk["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, fk["what"]))
    for task, path in viols:
        print("counterexample [%s]: %s  inputs=%s" % (task["harness"], task["msg"], json.dumps(task["model"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if errors and rc == 0:
        rc = 2
    for e in errors:
        print("CHECK-ERROR " + e, file=sys.stderr)
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    cov = {
        "states": sum(r["nodes"] + r["paths"] for r in results),
        "transitions": sum(r["edges"] + r["paths"] for r in results),
        "traces_validated_against_impl": validated,
        "samples": [{"harness": r["name"], "inputs": r["samples"][0][0]} for r in results if r["samples"]][:12],
        "symbolic_paths": sum(r["paths"] for r in results),
        "assertions_checked": sum(r["obligations"] for r in results),
        "assertions_discharged": sum(r["discharged"] for r in results),
        "solver_queries": sum(r["queries"] for r in results),
        "solver_s": round(sum(r["solver_s"] for r in results), 2),
        "harnesses": {r["name"]: {"paths": r["paths"], "queries": r["queries"], "wall_s": r["wall"]} for r in results},
        "bounds": {h.name: h.bounds for h in hs},
        "functions_encoded": funcs,
        "known_findings_seen": sorted(seen),
        "errors": len(errors),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    if not a.only:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(json_safe_keep(ev), f, indent=1)
    print("%s %s: harnesses=%d paths=%d queries=%d assertions=%d replayed=%d solver=%.1fs wall=%.1fs rc=%d" % (
        prop, tier, len(results), cov["symbolic_paths"], cov["solver_queries"], cov["assertions_checked"], validated,
        cov["solver_s"], time.time() - t0, rc))
    return rc


def json_safe_keep(o):
    if isinstance(o, dict):
        return {str(k): json_safe_keep(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [json_safe_keep(x) for x in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


COMMON_ASSUMPTIONS = [
    "ROS (rclpy, generated messages, rosidl_runtime_py, ament index) is replaced by the contract stubs of /verif/vf/stubs.py; "
    "ros_bt_py_interfaces classes are generated from the working tree's .msg/.srv/.action files",
    "symbolic runs execute the repository's code with @typechecked as identity; replays use the real typeguard",
    "text of log and error messages is not modelled (placeholders for symbolic parts)",
    "nothing is claimed outside the bounds listed per harness",
]


def load_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]


def match_finding(findings, task):
    for f in findings:
        if fnmatch.fnmatchcase(task["harness"], f["harness"]) and f["message"] == task["msg"]:
            return f
    return None


def replay(prop, tier, tasks):
    if not tasks:
        return []
    n = min(JOBS, max(1, len(tasks) // 40 + 1))
    chunks = [tasks[i::n] for i in range(n)]
    procs = []
    tmp = os.path.join(ROOT, "evidence", "replay")
    for i, c in enumerate(chunks):
        fi = os.path.join(tmp, ".in-%s-%d-%d.json" % (prop, os.getpid(), i))
        fo = fi.replace(".in-", ".out-")
        with open(fi, "w") as f:
            json.dump(c, f)
        env = dict(os.environ, PYTHONHASHSEED="0")
        procs.append((subprocess.Popen([sys.executable, "-m", "vf.replay", prop, tier, fi, fo], cwd=ROOT, env=env), fi, fo, len(c)))
    outs = []
    for p, fi, fo, k in procs:
        try:
            p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
        try:
            with open(fo) as f:
                o = json.load(f)
        except Exception:
            o = []
        o += [{"status": "crashed"}] * (k - len(o))
        outs.append(o)
        for x in (fi, fo):
            if os.path.exists(x):
                os.unlink(x)
    res = [None] * len(tasks)
    for i in range(n):
        for j, o in enumerate(outs[i]):
            res[i + j * n] = o
    return res


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "vf.run"] + sys.argv[1:])
    sys.modules["vf.run"] = sys.modules["__main__"]
    sys.exit(main())
