"""Run the concrete oracle of one property on the real code.

run.py PROP --root DIR --seed N --budget SECONDS --n MAX [--input FILE]
Prints one JSON object: {cases, distinct, fail, known, samples}."""
import logging, sys, os, json, time, random, argparse, importlib, hashlib, traceback

sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--root", default="/repo")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--budget", type=float, default=10)
ap.add_argument("--n", type=int, default=1000000)
ap.add_argument("--input")
ap.add_argument("--models")
A = ap.parse_args()
sys.path.insert(0, A.root)
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
import lib
import zigpy_cc
assert os.path.realpath(zigpy_cc.__file__).startswith(os.path.realpath(A.root) + "/"), zigpy_cc.__file__
real_stdout = sys.stdout
sys.stdout = sys.stderr
m = importlib.import_module("p" + A.prop[1:].lower())


class Shown(logging.Handler):
    """What a user who turned on debug logging gets."""

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass


SHOWN = Shown()


def one(inp):
    # a third of the inputs with debug logging turned on: the same ones in every run
    on = hashlib.blake2b(json.dumps(lib.jout(inp), sort_keys=True).encode(), digest_size=8).digest()[0] % 3 == 0
    log = logging.getLogger("zigpy_cc")
    log.setLevel(logging.DEBUG if on else logging.NOTSET)
    log.propagate, log.handlers = False, [SHOWN] if on else [logging.NullHandler()]
    logging.getLogger().handlers = [logging.NullHandler()]
    logging.disable(logging.NOTSET if on else logging.CRITICAL)
    try:
        return m.check(inp)
    except lib.Deadlock as e:
        return "the code waits for something that never happens (%s)" % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(A.root)]
        if not where and not isinstance(e, AttributeError):
            raise
        return "unexpected %s: %s (%s)" % (type(e).__name__, e, "%s:%d" % (where[-1].filename, where[-1].lineno) if where else "oracle")


out = {"cases": 0, "distinct": 0, "fail": None, "samples": [], "rule": getattr(m, "RULE", "")}
t0 = lib.clock()
if A.models:
    for mm in json.load(open(A.models)):
        try:
            inp = m.from_model(mm["goal"], mm["model"])
        except Exception:
            continue
        for i in inp if isinstance(inp, list) else [inp] if inp is not None else []:
            out["cases"] += 1
            r = one(i)
            if r:
                out["fail"] = {"input": lib.jout(i), "what": r}
                break
        if out["fail"]:
            break
elif A.input:
    inp = lib.jin(json.load(open(A.input)))
    for i in (inp if isinstance(inp, list) else [inp]):
        out["cases"] += 1
        r = one(i)
        if r:
            out["fail"] = {"input": lib.jout(i), "what": r}
            break
else:
    rng = random.Random("%s/%d" % (A.prop, A.seed))
    seen = set()
    for i in m.cases(rng):
        if out["cases"] >= A.n or lib.clock() - t0 > A.budget:
            break
        out["cases"] += 1
        k = hashlib.blake2b(json.dumps(lib.jout(i), sort_keys=True).encode(), digest_size=8).digest()
        seen.add(k)
        if len(out["samples"]) < 3 or (len(out["samples"]) < 5 and out["cases"] % 37 == 0):
            s = json.dumps(lib.jout(i))
            out["samples"].append(s if len(s) < 400 else s[:400] + "...")
        r = one(i)
        if r:
            out["fail"] = {"input": lib.jout(i), "what": r}
            break
    out["distinct"] = len(seen)
out["seconds"] = round(lib.clock() - t0, 3)
print(json.dumps(out), file=real_stdout)
