"""tools/tryrefac.py [NAME...] [--all]: the checks on behaviour-preserving edits (tools/refactorings.py, refactorings2.py).
Per edit: the repository's tests, the proof goals of the contracts that can depend on the edited files (a refuted one is an
alarm) and 4 s of every concrete oracle of those. --all: all contracts."""
import sys, os, json, subprocess, tempfile, shutil, time, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from refactorings import REFAC
from refactorings2 import REFAC as REFAC2
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
DEPENDS = (("start_znp", "18-22 26"), ("nv_items", "18-22 26"), ("uart", "1-3 23-25"), ("api.py", "3 8-14 16 18-26"),
           ("application", "12-17 21 22 23 25-27"), ("config.py", "22-25"), ("exception.py", "10 14 24"))
CODE = '''
import sys, importlib, json
sys.path.insert(0, %r)
from pyvc import interp, goal
out = []
n = sys.argv[2]
w = interp.World(root=sys.argv[1])
m = importlib.import_module("contracts." + n)
try:
    goals = m.GOALS if isinstance(m.GOALS, list) else m.GOALS(w)
except Exception as e:
    goals = []
    out.append((n, "GOALS", "crash", repr(e)[:300]))
for g in goals:
    try:
        r = goal.run_goal(w, g)
    except Exception as e:
        out.append((n, g.name, "crash", repr(e)[:300])); continue
    if r["status"] != "proved":
        out.append((n, g.name, r["status"], str([x["obligation"] for x in r["refuted"][:2]] or r["unsupported"] or r["unknown"])[:300], r["seconds"]))
print(json.dumps(out))
''' % V


def depends(files):
    s = set()
    for f in files:
        d = [x for k, x in DEPENDS if k in f] or ["1-27"]
        for part in d[0].split():
            a, _, b = part.partition("-")
            s |= set(range(int(a), int(b or a) + 1))
    return sorted(s)


def goals(wt, i):
    p = subprocess.run(["python3-vt", "-c", CODE, wt, "c%02d" % i], capture_output=True, text=True, env=ENV, cwd=V)
    try:
        return json.loads(p.stdout)
    except Exception:
        return [("c%02d" % i, "?", "crash", p.stderr[-500:])]


def conc(wt, i, budget=4):
    jit = [] if i in (1, 2, 4, 5, 6, 7) else ["--jit", "off"]
    p = subprocess.run(["/opt/venv/bin/python"] + jit + [V + "/replay/run.py", "C%02d" % i, "--root", wt, "--budget", str(budget), "--seed", "3"], capture_output=True, text=True, env=ENV)
    try:
        d = json.loads(p.stdout)
        return [("C%02d" % i, str(d["fail"])[:400])] if d.get("fail") else []
    except Exception:
        return [("C%02d" % i, "crash", p.stdout[-200:], p.stderr[-300:])]


def one(r):
    name, edits = r
    tmp = tempfile.mkdtemp(prefix="ref-")
    wt = tmp + "/repo"
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        for f, old, new in edits:
            p = wt + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return name, "old text occurs %d times in %s" % (s.count(old), f), [], []
            open(p, "w").write(s.replace(old, new))
        t = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1", cwd=wt, shell=True, capture_output=True, text=True, env=ENV).stdout.strip()
        if "fail" in t or "error" in t:
            return name, t, [], []
        ids = range(1, 28) if "--all" in sys.argv else depends([e[0] for e in edits])
        g = [x for i in ids for x in goals(wt, i)]
        c = [x for i in ids for x in conc(wt, i)]
        return name, t, g, c
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


LOCK = threading.Lock()


def show(r):
    t0 = time.time()
    try:
        name, t, g, c = one(r)
    except Exception as e:
        name, t, g, c = r[0], repr(e), [], []
    ref = [x for x in g if x[2] in ("refuted", "crash")]
    with LOCK:
        print("BAD" if "passed" not in t or "failed" in t else "ALARM" if ref or c else "quiet", name, t, round(time.time() - t0), "s; undecided:", len(g) - len(ref))
        for x in g:
            print("      ", *x)
        for x in c:
            print("       CONCRETE", *x)
        sys.stdout.flush()


if __name__ == "__main__":
    names = [x for x in sys.argv[1:] if not x.startswith("-")]
    todo = [r for r in REFAC2 + REFAC if not names or r[0] in names]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(show, todo))
