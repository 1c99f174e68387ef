"""conform.py [--n N] [--seed S] [NAME...]: the verifier's Python semantics against Python itself.

Every function of conform_snippets.py is run by Python on random inputs; then by the verifier on (1) those
inputs as constants, (2) symbolic inputs assumed equal to them, where every path that the assumption
leaves feasible has to give the same result or raise the same exception.  A mismatch is a defect of the verifier."""
import sys, os, random, shutil, tempfile, inspect, argparse, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from pyvc import interp, goal, core
from pyvc.core import *
import z3
ap = argparse.ArgumentParser()
ap.add_argument("names", nargs="*")
ap.add_argument("--n", type=int, default=8)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("-v", action="store_true")
A = ap.parse_args()
tmp = tempfile.mkdtemp(prefix="conform-")
os.mkdir(tmp + "/zigpy_cc")
open(tmp + "/zigpy_cc/__init__.py", "w").close()
shutil.copy(V + "/tools/conform_snippets.py", tmp + "/zigpy_cc/snip.py")
spec = importlib.util.spec_from_file_location("snip", tmp + "/zigpy_cc/snip.py")
S = importlib.util.module_from_spec(spec)
spec.loader.exec_module(S)
W = interp.World(root=tmp)
W.load("zigpy_cc.snip")
rng = random.Random(A.seed)


def value(n):
    if n in "abc":
        return rng.choice([0, 1, 2, 3, 7, rng.randrange(10), rng.randrange(300)])
    if n in "de":
        return bytes(rng.choice([0, 0xFE, 1, rng.randrange(256)]) for _ in range(rng.randrange(7)))
    if n in "lm":
        return [rng.randrange(6) for _ in range(rng.randrange(5))]
    if n in "st":
        return rng.choice(["abc", "x", "", "hello"])
    if n == "f":
        return rng.random() < 0.5
    if n == "x":
        return rng.choice([None, 0, 5])


def conv(v):
    if isinstance(v, bytearray):
        return bytes(v)
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, list):
        return SList(norm_segs([Lit([conv(x) for x in v])]))
    if isinstance(v, tuple):
        return tuple(conv(x) for x in v)
    if isinstance(v, dict):
        return SDict({core.dkey(conv(k)) if hasattr(core, "dkey") else k: (conv(k), conv(x)) for k, x in v.items()})
    raise TypeError(v)


def deep_eq(ctx, name, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return ctx.prove(name, False, "%r vs %r" % (a, b))
        return all([deep_eq(ctx, name, x, y) for x, y in zip(a, b)])
    if isinstance(b, bool) != isinstance(a, (bool, SBool)) and (isinstance(b, bool) or isinstance(a, (bool, SBool))):
        return ctx.prove(name, False, "kinds %r vs %r" % (a, b))
    if b is None or a is None:
        return ctx.prove(name, a is b, "%r vs %r" % (a, b))
    if isinstance(a, SList) and isinstance(b, SList) and all(isinstance(s, Lit) for s in tuple(a.segs) + tuple(b.segs)):
        return deep_eq(ctx, name, tuple(x for s in a.segs for x in s.vals), tuple(x for s in b.segs for x in s.vals))
    if isinstance(a, SDict) and isinstance(b, SDict):
        if list(a.d) != list(b.d):
            return ctx.prove(name, False, "keys %r vs %r" % (list(a.d), list(b.d)))
        return all([deep_eq(ctx, name, a.d[k][1], b.d[k][1]) for k in a.d])
    if ctx.check(can_eq(ctx, a, b)) == z3.unsat:
        CAN[-1] = False
    return prove_eq(ctx, name, a, b)


CAN = []


def can_eq(ctx, a, b):
    try:
        return veq(ctx, a, b)
    except Exception:
        return z3.BoolVal(True)


def sym(ctx, n, v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        r = ctx.int(n, -5, 70000)
        ctx.assume(r.e == v)
        return r
    if isinstance(v, bytes):
        r = ctx.bytes(n)
        ctx.assume(segs_len(r.segs) == len(v))
        for i, x in enumerate(v):
            ctx.assume(zi(index_segs(ctx, r.segs, z3.IntVal(i))) == x)
        return r
    if isinstance(v, list):
        g = ctx.array(n, z3.IntVal(len(v)) if rng.random() < 0.5 else ctx.int(n + " len", 0, 20).e, 0, 10)
        ctx.assume(g.n == len(v))
        r = SList((g,))
        for i, x in enumerate(v):
            ctx.assume(zi(index_segs(ctx, r.segs, z3.IntVal(i))) == x)
        return r
    if isinstance(v, str):
        r = ctx.str(n)
        ctx.assume(r.e == str_term(ctx, v))
        for o in ("abc", "x", "", "hello"):
            if o != v:
                ctx.assume(r.e != str_term(ctx, o))
        return r
    raise TypeError(v)


stat = {"ok": 0, "unsupported": 0, "imprecise": 0, "mismatch": 0, "runs": 0}
unsup, imprecise = {}, {}
for name, f in list(vars(S).items()):
    if not inspect.isfunction(f) or name[1:2] not in "_a" or "_" not in name or (A.names and name not in A.names):
        continue
    ps = list(inspect.signature(f).parameters)
    for it_n in range(A.n):
        args = [value(p) for p in ps]
        import copy
        try:
            want, exc = f(*copy.deepcopy(args)), None
        except Exception as e:
            want, exc = None, e
        for mode in ("constant", "symbolic"):
            done = []
            del CAN[:]

            def fn(ctx, it):
                ctx.shared["unroll_while"] = 40
                vals = [conv(v) if mode == "constant" else sym(ctx, p, v) for p, v in zip(ps, args)]
                try:
                    got = it.call(it.w.get("zigpy_cc.snip:" + name), vals, {})
                except PyRaise as e:
                    cls = getattr(e.exc, "cls", None)
                    CAN.append(exc is not None and getattr(cls, "name", None) == type(exc).__name__)
                    ctx.prove("raises", exc is not None and getattr(cls, "name", None) == type(exc).__name__,
                              "raises %s instead of %r" % (goal.describe_exc(e.exc), exc if exc else want))
                    done.append(1)
                    return
                CAN.append(exc is None)
                if exc is not None:
                    ctx.prove("raises", False, "gives %r instead of raising %r" % (got, exc))
                else:
                    deep_eq(ctx, "result", got, conv(want))
                done.append(1)
                ctx.prove("end", True)
            try:
                r = goal.run_goal(W, goal.Goal(name, fn, budget=20), debug=A.v)
            except Exception as e:
                r = {"status": "crash", "refuted": [], "unsupported": [repr(e)], "unknown": []}
                raise
            stat["runs"] += 1
            if r["status"] == "refuted" and any(CAN):
                stat["imprecise"] += 1
                imprecise.setdefault(name, set()).update(str(x.get("info"))[:100] for x in r["refuted"][:1])
            elif r["status"] == "refuted" or (not done and not r["unsupported"]):
                stat["mismatch"] += 1
                print("MISMATCH", name, mode, args, "python:", want if exc is None else repr(exc), "verifier:", [(x["obligation"], x.get("info")) for x in r["refuted"]][:2] or "no path")
            elif r["status"] == "proved":
                stat["ok"] += 1
            else:
                stat["unsupported"] += 1
                unsup.setdefault(name, {}).setdefault(mode, set()).update(map(str, r["unsupported"] or r["unknown"]))
shutil.rmtree(tmp)
for n, d in unsup.items():
    for m, u in d.items():
        print("unsupported %s (%s): %s" % (n, m, "; ".join(sorted(u))[:160]))
for n, d in imprecise.items():
    print("imprecise %s: %s" % (n, "; ".join(sorted(d)[:2])))
print(stat)
sys.exit(1 if stat["mismatch"] else 0)
