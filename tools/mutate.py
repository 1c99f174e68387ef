"""tools/mutate.py [FILE...] [--sample N --seed S] : small systematic changes of the code (operators, constants, dropped statements,
negated conditions, ...); those that pass the repository's tests are given to the checks; survivors are printed for review."""
import ast, copy, os, random, subprocess, sys, tempfile, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
sys.argv, ARGS = sys.argv[:1], sys.argv[1:]
import tryrefac as T

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr,
       ast.Mult: ast.Add, ast.Mod: ast.Mult, ast.FloorDiv: ast.Mult}


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
        isinstance(n.value.func.value, ast.Name) and n.value.func.value.id in ("LOGGER", "_LOGGER", "logger")


def mutants(src):
    """(description, line, new source) for each change"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def put(n, text, what):
        a, z = pos(n)
        return (what, n.lineno, (b[:a] + text.encode() + b[z:]).decode())
    out = []
    skip = set()
    for n in ast.walk(tree):
        if is_log(n) or isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__repr__", "__str__"):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.arg, ast.AnnAssign)):
            for f in ("returns", "annotation"):
                if getattr(n, f, None) is not None:
                    for m in ast.walk(getattr(n, f)):
                        skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [o()]
                out.append(put(n, "(" + ast.unparse(m) + ")", "%s -> %s" % (ast.unparse(n), ast.unparse(m))))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            out.append(put(n, "(" + ast.unparse(m) + ")", "%s -> %s" % (ast.unparse(n), ast.unparse(m))))
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append(put(n, "(" + ast.unparse(m) + ")", "%s -> %s" % (ast.unparse(n), ast.unparse(m))))
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                t = ast.unparse(rest[0]) if len(rest) == 1 else ast.unparse(ast.BoolOp(n.op, rest))
                out.append(put(n, "(" + t + ")", "%s -> %s" % (ast.unparse(n), t)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append(put(n, "(" + ast.unparse(n.operand) + ")", "not dropped: " + ast.unparse(n)))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            for d in (1, -1):
                out.append(put(n, "(%r)" % (n.value + d), "%r -> %r" % (n.value, n.value + d)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(put(n, repr(not n.value), "%r -> %r" % (n.value, not n.value)))
        elif isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
            out.append(put(n.test, "not (%s)" % ast.unparse(n.test), "condition negated: " + ast.unparse(n.test)))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Delete, ast.Assert, ast.Break, ast.Continue)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if "\n" not in ast.unparse(n) or True:
                out.append(put(n, "pass", "dropped: " + ast.unparse(n)[:100]))
            if isinstance(n, ast.Return) and n.value is not None:
                out.append(put(n, "return None", "returns None: " + ast.unparse(n)[:100]))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.deepcopy(n)
                m.args[0], m.args[1] = m.args[1], m.args[0]
                out.append(put(n, ast.unparse(m), "arguments swapped: " + ast.unparse(n)[:100]))
            for k in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[k]
                out.append(put(n, ast.unparse(m), "keyword dropped: %s of %s" % (n.keywords[k].arg, ast.unparse(n)[:80])))
        elif isinstance(n, ast.Await):
            pass
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            out.append(put(n.type, "ZeroDivisionError", "handler never taken: " + ast.unparse(n.type)))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            pass
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                out.append(put(n.slice.lower, "(%s) + 1" % ast.unparse(n.slice.lower), "slice start + 1: " + ast.unparse(n)))
            if n.slice.upper is not None:
                out.append(put(n.slice.upper, "(%s) - 1" % ast.unparse(n.slice.upper), "slice end - 1: " + ast.unparse(n)))
    seen, res = set(), []
    for w, l, s in out:
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            continue
        res.append((w, l, s))
    return res


LOCK = threading.Lock()


def one(job):
    f, (what, line, src) = job
    tmp = tempfile.mkdtemp(prefix="ref-")
    wt = tmp + "/repo"
    t0 = time.time()
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        open(wt + "/" + f, "w").write(src)
        try:
            t = subprocess.run("timeout 90 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider tests 2>&1 | tail -1", cwd=wt, shell=True, capture_output=True, text=True, env=T.ENV).stdout.strip()
        except Exception as e:
            t = repr(e)
        if "46 passed" not in t or "failed" in t or "error" in t:
            res = "tests", ""
        else:
            res = None
            ids = T.depends([f])
            und = 0
            for i in ids:
                c = T.conc(wt, i, budget=3)
                if c:
                    res = "conc", str(c[0])[:150]
                    break
            if not res:
                for i in ids:
                    g = T.goals(wt, i)
                    r = [x for x in g if x[2] in ("refuted", "crash")]
                    und += len(g) - len(r)
                    if r:
                        res = "proof", str(r[0])[:150]
                        break
            if not res:
                for i in ids:
                    c = T.conc(wt, i, budget=12)
                    if c:
                        res = "conc", str(c[0])[:150]
                        break
            if not res:
                res = "SURVIVED", "undecided %d" % und
    except Exception as e:
        res = "error", repr(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    with LOCK:
        print("%-9s %s:%d  %s   [%s] %ds" % (res[0], f, line, what.replace("\n", " "), res[1], time.time() - t0), flush=True)


def main():
    n = int(ARGS[ARGS.index("--sample") + 1]) if "--sample" in ARGS else None
    seed = int(ARGS[ARGS.index("--seed") + 1]) if "--seed" in ARGS else 0
    files = [a for a in ARGS if a.endswith(".py")]
    jobs = []
    for f in files:
        jobs += [(f, m) for m in mutants(open("/repo/" + f).read())]
    print(len(jobs), "changes", flush=True)
    rng = random.Random(seed)
    rng.shuffle(jobs)
    if n:
        jobs = jobs[:n]
    if "--list" in ARGS:
        for f, m in jobs:
            print(f, m[1], m[0])
        return
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))


if __name__ == "__main__":
    main()
