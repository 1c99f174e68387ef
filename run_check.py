#!/opt/veriftools/pyvenv/bin/python
"""Decide one property of /repo:  run_check.py C01 [--root DIR] [--replay FILE]

1. every contract obligation is generated from the current source and discharged
   (pyvc: symbolic execution of the AST of /repo, z3, cvc5 as second back end);
2. a refuted obligation is replayed on the real code (PyPy), first with the
   solver's model, then by a directed and random search with the same oracle;
3. the oracle is also run on the real code with seeded inputs on every run
   (conformance of contracts and library models; bounded, not counted as proof).
Exit 0 / 1 (VIOLATION line); 2 only when neither side could decide anything."""
import sys, os, json, time, argparse, subprocess, importlib, multiprocessing, hashlib, tempfile, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYPY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


JIT_OK = ("C01", "C02", "C04", "C05", "C06", "C07")     # PyPy's JIT crashes on long asyncio runs
WORKERS = 6


def concrete(prop, root, args, timeout):
    """One run of the oracle -> (result or None, error text)"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=os.environ.get("HOME", "/root"))
    env.pop("PYTHONPATH", None)
    for jit in (["on"] if prop in JIT_OK else []) + ["off"]:
        try:
            p = subprocess.run([PYPY] + (["--jit", "off"] if jit == "off" and "pypy" in PYVER() else [])
                               + [os.path.join(HERE, "replay", "run.py"), prop, "--root", root] + args,
                               capture_output=True, text=True, timeout=timeout, env=env, cwd="/tmp")
        except subprocess.TimeoutExpired:
            return None, "the concrete run took longer than %d s" % timeout
        try:
            return json.loads(p.stdout.strip().split("\n")[-1]), None
        except Exception:
            err = "exit status %d: " % p.returncode + (p.stderr or p.stdout)[-1500:]
            if p.returncode >= 0 and p.returncode < 128:
                break
    return None, err


_pyver = []


def PYVER():
    if not _pyver:
        try:
            _pyver.append(subprocess.run([PYPY, "-c", "import sys; print(sys.implementation.name)"], capture_output=True, text=True, timeout=60).stdout.strip())
        except Exception:
            _pyver.append("")
    return _pyver[0]


def search(prop, root, seed, budget, timeout):
    """Seeded search, several workers -> (merged result or None, error text)"""
    from concurrent.futures import ThreadPoolExecutor
    n = 2 if prop in JIT_OK else WORKERS
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(concrete, prop, root, ["--seed", str(seed + 100000 * k), "--budget", str(budget)], timeout) for k in range(n)]
        rs = [f.result() for f in fs]
    good = [r for r, _ in rs if r]
    if not good:
        return None, rs[0][1]
    out = dict(good[0])
    for r in good[1:]:
        out["cases"] += r["cases"]
        out["distinct"] += r["distinct"]
    out["fail"] = next((r["fail"] for r in good if r["fail"]), None)
    out["seconds"] = max(r["seconds"] for r in good)
    out["workers"] = len(good)
    return out, None


_W = None
_GOALS = None


def _goal(i):
    from pyvc import goal
    return goal.run_goal(_W, _GOALS[i])


def canary():
    """The verifier must refute a false postcondition and prove a true one."""
    from pyvc import core, goal
    from pyvc.core import I

    def bad(ctx, it):
        x = ctx.int("x", 0, 255)
        ctx.prove("canary", x.e < 255)

    def good(ctx, it):
        x = ctx.int("x", 0, 255)
        ctx.prove("canary", x.e < 256)
    r1, r2 = goal.run_goal(_W, goal.Goal("canary", bad)), goal.run_goal(_W, goal.Goal("canary", good))
    return r1["status"] == "refuted" and r2["status"] == "proved"


def prove(prop, root):
    """-> list of goal results, extra info"""
    global _W, _GOALS
    from pyvc import interp, goal
    from pyvc.core import Unsupported
    _W = interp.World(root=root)
    m = importlib.import_module("contracts." + prop.lower())
    # load every module the goals may need before forking
    for base, _, files in os.walk(os.path.join(root, "zigpy_cc")):
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(base, f), root)[:-3].replace("/", ".")
                rel = rel[:-9] if rel.endswith(".__init__") else rel
                try:
                    _W.load(rel)
                except Unsupported as e:
                    if rel in getattr(m, "MODULES", ()):
                        raise
                except Exception:
                    pass
    if not canary():
        raise RuntimeError("canary: the verifier accepts a false postcondition")
    _GOALS = m.GOALS if isinstance(m.GOALS, list) else m.GOALS(_W)
    if len(_GOALS) <= 2:
        return [_goal(i) for i in range(len(_GOALS))], m
    procs = min(8, len(_GOALS), os.cpu_count() or 1)
    with multiprocessing.get_context("fork").Pool(procs) as p:
        return p.map(_goal, range(len(_GOALS)), chunksize=max(1, len(_GOALS) // (procs * 8))), m


def known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop, root = a.prop.upper(), a.root
    if a.replay:
        rec = json.load(open(a.replay))
        if "input" not in rec:
            print(json.dumps(rec, indent=1))
            return 1
        with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
            json.dump(rec["input"], f)
            f.flush()
            r, err = concrete(prop, root, ["--input", f.name], 300)
        print(json.dumps(r, indent=1) if r else err)
        return 1 if r and r["fail"] else 0
    t0 = time.time()
    thorough = TIER == "thorough"
    budget = 150 if thorough else 12
    # the concrete run goes on beside the proof
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(1)
    fut = pool.submit(search, prop, root, SEED, budget, budget + 240)
    goals, mod, perr = [], None, None
    try:
        goals, mod = prove(prop, root)
    except Exception as e:
        perr = "%s: %s" % (type(e).__name__, e)
        if a.verbose:
            traceback.print_exc()
    refuted = [g for g in goals if g["status"] == "refuted"]
    undecided = [g for g in goals if g["status"] == "undecided"]
    conc, cerr = fut.result()
    fail = conc["fail"] if conc else None
    how = "conformance search"
    replayed = None
    if refuted and not fail:
        models = [{"goal": g["goal"], "model": x["model"]} for g in refuted for x in g["refuted"] if "model" in x]
        with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
            json.dump(models, f, default=str)
            f.flush()
            replayed, e2 = concrete(prop, root, ["--models", f.name, "--seed", str(SEED)], 200)
        if replayed and replayed["fail"]:
            fail, how = replayed["fail"], "model of the refuted obligation"
        else:
            r3, e3 = search(prop, root, SEED + 1000, 60 if not thorough else 200, 400)
            if r3 and r3["fail"]:
                fail, how = r3["fail"], "search after the refuted obligation"
    elif not fail and (undecided or perr or not goals):
        # the bounded check stands in for the proof: look longer
        r3, e3 = search(prop, root, SEED + 2000, 60 if not thorough else 200, 400)
        if r3 and r3["fail"]:
            fail, how = r3["fail"], "longer search, the proof being incomplete"
    viol = 0
    lines = []
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    obl_names = ["%s / %s" % (g["goal"], x["obligation"]) for g in refuted for x in g["refuted"]]
    for k in known():
        if k["property"] == prop and k.get("status") == "open":
            r, _ = None, None
            with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
                json.dump(k["input"], f)
                f.flush()
                r, _ = concrete(prop, root, ["--input", f.name], 120)
            if r and r["fail"]:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fail:
        viol = 1
        body = {"property": prop, "input": fail["input"], "what": fail["what"], "found_by": how, "failed_obligations": obl_names,
                "replay": "python3-vt run_check.py %s --replay <this file>" % prop}
        suffix = ""
    elif refuted:
        viol = 1
        body = {"property": prop, "failed_obligations": obl_names, "verifier_output": [g["refuted"] for g in refuted],
                "note": "the verifier refutes the obligation; no failing input was found on the real code"}
        suffix = " no-failing-input-found"
    if viol:
        js = json.dumps(body, indent=1, default=str)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(js.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(js)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, suffix))
    write_evidence(prop, goals, mod, perr, undecided, conc, cerr, replayed, viol, time.time() - t0)
    n = sum(sum(g["counts"][k] for k in ("discharged", "refuted", "unknown")) for g in goals)
    d = sum(g["counts"]["discharged"] for g in goals)
    print("%s: %d/%d goals proved, %d/%d obligations discharged, %s concrete cases, %.1f s" % (
        prop, len([g for g in goals if g["status"] == "proved"]), len(goals), d, n, conc["cases"] if conc else "no", time.time() - t0))
    for g in undecided:
        print("  UNDECIDED %s: %s %s" % (g["goal"], g["unknown"][:2], g["unsupported"][:2]))
    if perr:
        print("  PROOF UNAVAILABLE: " + perr)
    if cerr:
        print("  CONCRETE RUN UNAVAILABLE: " + cerr)
    if fail:
        print("  " + fail["what"][:1000])
    for o in obl_names[:8]:
        print("  FAILED OBLIGATION " + o)
    for l in lines:
        print(l)
    sys.stdout.flush()
    if viol:
        return 1
    if conc is None and (perr or undecided or not goals):
        return 2
    return 0


TRUSTED = [
    "pyvc (the verifier in /verif/pyvc): its semantics of the Python subset, cross-checked by the concrete runs",
    "z3 (and cvc5 where z3 answers unknown)",
    "library models in pyvc/ext.py (asyncio, zigpy types, serial, logging), constants compared with the installed libraries",
]


def write_evidence(prop, goals, mod, perr, undecided, conc, cerr, replayed, viol, wall):
    n = sum(sum(g["counts"][k] for k in ("discharged", "refuted", "unknown")) for g in goals)
    d = sum(g["counts"]["discharged"] for g in goals)
    back = {}
    for g in goals:
        for k, v in g["backends"].items():
            back[k] = back.get(k, 0) + v
    fns = sorted({f for g in goals for f in g["functions"]})
    cov = {
        "obligations": n, "discharged": d,
        "checker_cmd": "cd /verif && python3-vt run_check.py %s" % prop,
        "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
        "goals": len(goals), "goals_proved": len([g for g in goals if g["status"] == "proved"]),
        "reachability_covers": sum(g["counts"]["cover"] for g in goals),
        "paths": sum(g["paths"] for g in goals),
        "discharged_by": back, "solver_seconds": round(sum(g["solver_s"] for g in goals), 3),
        "functions_under_contract": fns,
        "goal_results": [{k: g[k] for k in ("goal", "status", "counts", "paths", "seconds", "unknown", "unsupported")} for g in goals][:60],
        "undecided_goals_covered_by_bounded_check_only": [g["goal"] for g in undecided] + ([perr] if perr else []),
        "concrete_conformance_bounded": {"evaluations": conc["cases"], "distinct_inputs": conc["distinct"], "rule": conc["rule"],
                                         "samples": conc["samples"], "seconds": conc["seconds"]} if conc else {"unavailable": cerr},
    }
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMES", [])), "wall_s": round(wall, 2), "violations": viol}
    p = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
