"""Try planted bugs: tools/trybug.py ID... (or nothing: all).  For each, in a scratch
copy of /repo: patch applies, stable tests pass, demo exits 0 without and non-zero
with it, and what the property's check says."""
import sys, os, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
ENV.pop("PYTHONPATH", None)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passing") or base.get("tests") or base


def sh(cmd, cwd, t=400, env=ENV):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=env)


def one(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="bug-")
    try:
        wt = tmp + "/repo"
        shutil.copytree("/repo", wt, symlinks=True)
        out = {"id": i, "prop": meta["property"]}
        r0 = sh("bash %s/demo.sh" % d, wt)
        out["demo_clean"] = r0.returncode
        ap = sh("git apply %s/patch.diff" % d, wt)
        if ap.returncode:
            out["apply"] = ap.stderr
            return out
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -15", wt)
        out["tests"] = t.stdout.strip().split("\n")[-1]
        r1 = sh("bash %s/demo.sh" % d, wt)
        out["demo_bug"] = r1.returncode
        if "-v" in sys.argv:
            print(r0.stdout[-1500:], r0.stderr[-1500:], "-----", r1.stdout[-1500:], r1.stderr[-1500:])
        if "--nocheck" in sys.argv:
            return out
        e2 = dict(ENV)
        c = sh("%s/check.sh %s --root %s" % (V, meta["property"], wt), V, 900, e2)
        out["check"] = c.returncode
        out["out"] = [l[:300] for l in c.stdout.strip().split("\n")][-6:]
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = [x for x in sys.argv[1:] if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(4) as ex:
    for o in ex.map(one, ids):
        ok = o.get("demo_clean") == 0 and o.get("demo_bug") not in (0, None)
        print(("OK  " if ok else "BAD ") + ("CAUGHT" if o.get("check") == 1 else "MISSED"), o["id"], o["prop"], {k: v for k, v in o.items() if k not in ("id", "prop", "out")})
        for l in o.get("out", []):
            print("      ", l)
