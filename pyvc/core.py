"""pyvc core: values, path exploration, obligations.

Mathematical integers are exact for Python ints.  Every symbolic term is a z3
term over Int / Bool / uninterpreted sorts; no quantifier is ever handed to the
solver: universally quantified facts are instantiated at named indices.
"""
import time, subprocess, os, tempfile, itertools, contextlib
import z3

StrSort = z3.DeclareSort("PyStr")
ValSort = z3.DeclareSort("PyVal")
I = z3.IntVal


class Unsupported(Exception):
    """Outside the verified subset: the goal is undecided, never 'violated'."""


class Pruned(Exception):
    """This path is infeasible or covered elsewhere."""


class PyRaise(Exception):
    """A Python exception of the program under verification."""
    def __init__(self, exc):
        self.exc = exc


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class ReturnExc(Exception):
    def __init__(self, v):
        self.value = v


# ------------------------------------------------------------------ values
class SInt:
    __slots__ = ("e", "cls", "parts")

    def __init__(self, e, cls=None, parts=None):
        self.e, self.cls, self.parts = e, cls, parts

    def __repr__(self):
        return "SInt(%s)" % self.e


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SBool(%s)" % self.e


class SStr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SStr(%s)" % self.e


class SVal:
    """Opaque value: only equality / identity and truth are known."""
    __slots__ = ("e", "tag")

    def __init__(self, e, tag=None):
        self.e, self.tag = e, tag

    def __repr__(self):
        return "SVal(%s)" % self.e


class SFloat:
    """A float, as an exact real number."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SFloat(%s)" % self.e


class Lit:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return "Lit%r" % (self.vals,)


class Gen:
    """`n` elements, the k-th being at(k) (k a z3 Int term).  key identifies
    the elements as a function (base, start) for folds, or None."""
    __slots__ = ("n", "at", "key", "deps")

    def __init__(self, n, at, key=None, deps=()):
        self.n, self.at, self.key, self.deps = n, at, key, deps

    def __repr__(self):
        return "Gen(%s,%s)" % (self.n, self.key)


class SBytes:
    """Immutable bytes with symbolic content: tuple of segments."""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return "SBytes%r" % (self.segs,)


_serial = itertools.count(1)


class TDict(dict):
    """Dictionary that knows when it was created (loop analysis needs to tell
    objects of one iteration from those that existed before the loop)."""
    __slots__ = ("serial",)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.serial = next(_serial)


class Mut:
    """Base of mutable heap objects; every field store goes through the undo log."""
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.serial = next(_serial)
        return o


class SList(Mut):
    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __repr__(self):
        return "SList%r" % (self.segs,)


class SByteArray(SList):
    """A bytearray: mutable, every element 0..255."""

    def __repr__(self):
        return "SByteArray%r" % (self.segs,)


class SFixed:
    """zigpy FixedList instances (EUI64, ExtendedPanId, KeyData): immutable list."""
    __slots__ = ("cls", "segs")

    def __init__(self, cls, segs):
        self.cls, self.segs = cls, segs

    def __repr__(self):
        return "%s%r" % (self.cls, self.segs)


class SDict(Mut):
    def __init__(self, d=None):
        self.d = TDict(d or {})          # normalised key -> (key value, value)

    def __repr__(self):
        return "SDict%r" % ({k: v[1] for k, v in self.d.items()},)


class SSet(Mut):
    def __init__(self, items=()):
        self.items = list(items)


class Cell(Mut):
    """A local-variable scope (function frame or comprehension)."""
    def __init__(self, parent=None, vars_=(), local=()):
        self.vars = TDict(vars_)
        self.parent = parent
        self.local = local          # names that are local to the function, bound or not


class SObj(Mut):
    """Instance of an interpreted class."""
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = TDict(attrs or {})

    def __repr__(self):
        return "<%s obj>" % self.cls.name


class SClass:
    def __init__(self, name, bases, ns, qual):
        self.name, self.bases, self.ns, self.qual = name, bases, ns, qual

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if hasattr(b, "mro") else [b]):
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, SClass) and name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class EnumClass(SClass):
    def __init__(self, name, bases, ns, qual):
        super().__init__(name, bases, ns, qual)
        self.members = {}
        self.open = False      # zigpy enum16: unknown values become pseudo members

    def by_value(self, v):
        for m in self.members.values():
            if m.value == v:
                return m
        return None


class EnumMember:
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class SFunc:
    def __init__(self, node, mod, scope, defaults, kwdefaults, qual, cls=None):
        self.node, self.mod, self.scope = node, mod, scope
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls
        self.kind = None

    def __repr__(self):
        return "<func %s>" % self.qual


class ClassMethod:
    def __init__(self, f):
        self.f = f


class StaticMethod:
    def __init__(self, f):
        self.f = f


class Property:
    def __init__(self, f):
        self.f = f


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_

    def __repr__(self):
        return "<bound %r>" % (self.f,)


class Builtin:
    """Engine-side callable: fn(interp, args, kwargs)."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Ext:
    """Something of a library that is not interpreted, known by dotted path."""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class ExcClass(SClass):
    """Built-in or library exception class."""
    def __init__(self, name, bases):
        super().__init__(name, bases, {}, name)


class Coro(Mut):
    """Coroutine object: thunk run when awaited."""
    def __init__(self, desc, run, event=None):
        self.desc, self.run, self.event = desc, run, event
        self.used = False


class Mock(Mut):
    """Opaque collaborator supplied by a contract: attributes and methods are
    engine-side callables or values."""
    def __init__(self, name, **attrs):
        self.name = name
        self.attrs = TDict(attrs)

    def __repr__(self):
        return "<mock %s>" % self.name


class LazyGen:
    """Generator expression / generator-like: python iterator of values."""
    def __init__(self, it):
        self.it = it


class SMap(Mut):
    """Dictionary of arbitrary size int -> family object.  has: closure key->Bool;
    family: Fam.  Iteration order: KEY(0..n-1)."""
    def __init__(self, has, fam, n, keyf, idxf):
        self.has, self.fam, self.n, self.keyf, self.idxf = has, fam, n, keyf, idxf
        self.has_init = has


class Fam(Mut):
    """Family of objects indexed by an int key; field -> closure(key)->value."""
    def __init__(self, name, fields, cls=None):
        self.name, self.fields, self.cls = name, TDict(fields), cls


class FamObj:
    __slots__ = ("fam", "key")

    def __init__(self, fam, key):
        self.fam, self.key = fam, key

    def __repr__(self):
        return "%s[%s]" % (self.fam.name, self.key)


class Poison:
    def __init__(self, why):
        self.why = why


class LastIter:
    """Value a loop temporary has after i iterations (i may be 0)."""
    def __init__(self, i, before, at):
        self.i, self.before, self.at = i, before, at


class LazyChoice:
    """c if p else v0, decided when read."""
    def __init__(self, p, c, v0):
        self.p, self.c, self.v0 = p, c, v0


MISSING = object()


# ------------------------------------------------------------------ ghost trace
class Ev:
    """A ghost event: kind, plus data values."""
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return "%s%r" % (self.kind, self.args)


class LoopEv:
    """Events of a summarised loop: n iterations (z3 Int), for iteration j (z3
    var) exactly one of cases [(cond, [events])] holds and happens."""
    __slots__ = ("n", "j", "cases")
    kind = "loop"

    def __init__(self, n, j, cases):
        self.n, self.j, self.cases = n, j, cases

    def __repr__(self):
        return "LoopEv(%s,%s)" % (self.n, self.cases)


class CaseEv:
    """Exactly one of cases [(cond,[events])] happens."""
    __slots__ = ("cases",)
    kind = "case"

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return "CaseEv(%s)" % (self.cases,)


# ------------------------------------------------------------------ context
class Decisions:
    def __init__(self):
        self.seq = []      # [choice, n_alternatives]
        self.pos = 0

    def next_path(self):
        while self.seq:
            c, n = self.seq[-1]
            if c + 1 < n:
                self.seq[-1] = [c + 1, n]
                self.pos = 0
                return True
            self.seq.pop()
        return False


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.cvc5 = 0


class Obl:
    def __init__(self, goal, name, status, info=None, path=None):
        self.goal, self.name, self.status, self.info, self.path = goal, name, status, info, path


class _Gone:
    def __repr__(self):
        return "<nothing>"


GONE = _Gone()


def unchanged(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int, str, bytes, float, type(None))) and type(a) is type(b):
        return a == b
    if isinstance(a, (SInt, SBool, SStr)) and type(a) is type(b):
        return a.e.eq(b.e)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, Lit) and isinstance(b, Lit):
        return unchanged(tuple(a.vals), tuple(b.vals))
    return False


def containers(*roots):
    """ids of everything mutable that can be reached without passing through a mock."""
    ids, todo, alive = {}, list(roots), []
    while todo:
        v = todo.pop()
        if isinstance(v, (tuple, list)):
            todo.extend(v)
            continue
        if isinstance(v, Lit):
            todo.extend(v.vals)
            continue
        if isinstance(v, SClass):
            if id(v) not in ids:
                ids[id(v)] = v
                ids[id(v.ns)] = v.ns
                todo.extend(v.ns.values())
            continue
        if isinstance(v, (ClassMethod, StaticMethod, Property)):
            todo.append(v.f)
            continue
        if isinstance(v, SFunc):
            if id(v) not in ids:
                ids[id(v)] = v
                todo.extend(v.defaults)
                todo.extend(x for h, x in v.kwdefaults if h)
                c = v.scope
                while c is not None and id(c.vars) not in ids:
                    ids[id(c.vars)] = c.vars
                    todo.extend(c.vars.values())
                    c = c.parent
            continue
        if not isinstance(v, (SObj, SDict, SList, SSet)) or id(v) in ids:
            continue
        ids[id(v)] = v
        if isinstance(v, SObj):
            ids[id(v.attrs)] = v.attrs
            todo.extend(v.attrs.values())
        elif isinstance(v, SDict):
            ids[id(v.d)] = v.d
            todo.extend(x for _, x in v.d.values())
        elif isinstance(v, SList):
            todo.extend(v.segs)
        else:
            todo.extend(v.items)
    return ids


class Ctx:
    """One verification goal: explores all paths of goal.fn(ctx)."""
    TIMEOUT_MS = 8000

    def __init__(self, goal_name, stats=None, deadline=None, max_paths=4000):
        self.goal = goal_name
        self.stats = stats or Stats()
        self.obls = []
        self.paths = 0
        self.deadline = deadline
        self.max_paths = max_paths
        self.unsupported = []
        self.incomplete = []
        self.trusted = set()
        self.functions = set()
        self.dec = None
        self.dec_stack = []
        self.frozen_j = []
        self.reset()

    # -- one run
    def reset(self):
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", self.TIMEOUT_MS)
        self.counter = 0
        self.undo = []
        self.trace = []
        self.facts = []          # (lo, hi, fn(k)->Bool) universally quantified
        self.fact_done = set()
        self.inst_terms = {}    # index terms facts have been instantiated at
        self.pc = []             # path condition terms (for closures)
        self.approx = False
        self.idx_stack = []      # enclosing generic loop indices
        self.inputs = {}
        self.notes = []
        self.asserted = set()
        self.axiom_log = []
        self.frame_depth = 0
        self.contracts = {}
        self.shared = {}
        self.kept = []

    def explore(self, fn):
        """Run fn(self) over every feasible path."""
        self.dec = Decisions()
        while True:
            self.reset()
            self.dec.pos = 0
            self.paths += 1
            if self.paths > self.max_paths:
                self.unsupported.append("more than %d paths" % self.max_paths)
                return
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append("time budget of the goal used up")
                return
            try:
                fn(self)
            except Pruned:
                pass
            except Unsupported as e:
                self.unsupported.append(str(e))
                return
            finally:
                self.rollback(0)
            if not self.dec.next_path():
                return

    def sub_explore(self, fn):
        """Nested exploration from the current state; rolls the state back after
        each path.  Returns [(conds, outcome, extra)] with outcome = fn()."""
        outer = self.dec
        self.dec = Decisions()
        res = []
        try:
            while True:
                self.dec.pos = 0
                mark = len(self.undo)
                tl = len(self.trace)
                fl = len(self.facts)
                pcl = len(self.pc)
                axl = len(self.axiom_log)
                cnt = self.counter
                asserted = set(self.asserted)
                fd = set(self.fact_done)
                self.solver.push()
                ap = self.approx
                try:
                    out = fn()
                    res.append((list(self.pc[pcl:]), out, list(self.trace[tl:])))
                except Pruned:
                    pass
                finally:
                    self.solver.pop()
                    self.rollback(mark)
                    del self.trace[tl:]
                    del self.facts[fl:]
                    del self.pc[pcl:]
                    del self.axiom_log[axl:]
                    self.asserted = asserted
                    self.fact_done = fd
                self.counter = max(cnt, self.counter)
                if len(res) > 400:
                    raise Unsupported("too many paths in a loop body")
                if not self.dec.next_path():
                    break
        finally:
            self.dec = outer
        return res

    def rollback(self, mark):
        while len(self.undo) > mark:
            self.undo.pop()[0]()

    def changed(self, mark, serial):
        """Locations stored to since mark, of objects older than serial."""
        out = []
        for _, loc, _ in self.undo[mark:]:
            if loc is None:
                continue
            kind, o, f = loc
            if getattr(o, "serial", 0) < serial and not any(l[0] == kind and l[1] is o and l[2] == f for l in out):
                out.append(loc)
        return out

    # -- frames: what survives a call
    def keep(self, root, allowed=()):
        """From here on, the object `root` and what it holds may change in `allowed`
        attributes only: then what a goal shows of one call holds for every history of calls."""
        self.kept.append((len(self.undo), containers(root), root, tuple(allowed)))

    def lasting(self, mark, ids, root=None, allowed=()):
        """Locations in the containers `ids` whose value is another one than at `mark`."""
        first = {}
        for _, loc, old in self.undo[mark:]:
            if loc is not None and id(loc[1]) in ids:
                first.setdefault((id(loc[1]), loc[0], loc[2] if isinstance(loc[2], (str, int, tuple)) else id(loc[2])), (loc, old))
        out = []
        for (kind, o, f), old in first.values():
            if root is not None and (o is root.attrs and f in allowed or any(o is root.attrs.get(x) for x in allowed)):
                continue
            now = getattr(o, f) if kind == "attr" else o.get(f, GONE)
            if not unchanged(old, now):
                out.append((kind, o, f))
        return out

    def state_left(self):
        """Names of state that outlives the call under contract although the contract does not say so."""
        out = []
        for mark, ids, root, allowed in self.kept:
            out += ["%s of a %s" % (f, root.cls.name if isinstance(root, SObj) else root) for _, _, f in self.lasting(mark, ids, root, allowed)]
        return out

    @contextlib.contextmanager
    def named(self, prefix):
        """Obligations made inside are called prefix + name."""
        n = len(self.obls)
        try:
            yield
        finally:
            for o in self.obls[n:]:
                o.name = prefix + o.name

    # -- heap
    def set(self, obj, field, value):
        old = getattr(obj, field)
        self.undo.append((lambda: setattr(obj, field, old), ("attr", obj, field), old))
        setattr(obj, field, value)

    def setitem(self, d, k, v):
        if k in d:
            old = d[k]
            self.undo.append((lambda: d.__setitem__(k, old), ("item", d, k), old))
        else:
            self.undo.append((lambda: d.pop(k, None), ("item", d, k), GONE))
        d[k] = v

    def delitem(self, d, k):
        # keep ordering on rollback
        snap = dict(d)

        def back():
            d.clear()
            d.update(snap)
        self.undo.append((back, ("item", d, k), d[k]))
        del d[k]

    # -- symbols
    def fresh_name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def _fresh(self, base, sort):
        n = self.fresh_name(base)
        if self.idx_stack:
            f = z3.Function(n, *([z3.IntSort()] * len(self.idx_stack)), sort)
            return f(*self.idx_stack)
        return z3.Const(n, sort)

    def int(self, base="i", lo=None, hi=None, cls=None):
        e = self._fresh(base, z3.IntSort())
        if lo is not None:
            self.assume(e >= lo)
        if hi is not None:
            self.assume(e <= hi)
        return SInt(e, cls)

    def bool(self, base="b"):
        return SBool(self._fresh(base, z3.BoolSort()))

    def str(self, base="s"):
        return SStr(self._fresh(base, StrSort))

    def val(self, base="v", tag=None):
        return SVal(self._fresh(base, ValSort), tag)

    def func(self, base, *sorts):
        """Fresh function symbol (depends on the enclosing loop indices)."""
        n = self.fresh_name(base)
        st = list(self.idx_stack)
        f = z3.Function(n, *([z3.IntSort()] * len(st)), *sorts)
        return lambda *a: f(*st, *a), (n, tuple(s.sexpr() for s in st))

    def array(self, base, n, lo=0, hi=255):
        """n (z3 Int) symbolic integers in lo..hi; returns a Gen."""
        f, key = self.func(base, z3.IntSort(), z3.IntSort())

        def at(k, f=f):
            e = f(k)
            self.axiom(z3.And(e >= lo, e <= hi))
            return SInt(e)
        return Gen(n, at, (("arr",) + key, I(0)))

    def bytes(self, base="data", n=None, nmin=0, nmax=None):
        if n is None:
            n = self.int(base + "_len", nmin, nmax).e
        elif isinstance(n, int):
            n = I(n)
        elif isinstance(n, SInt):
            n = n.e
        g = self.array(base, n)
        return mk_bytes(norm_segs((g,)))

    # -- assertions
    def axiom(self, e):
        """A fact that is always true (kept out of the path condition)."""
        k = e.get_id()
        if k in self.asserted:
            return
        self.asserted.add(k)
        self.solver.add(e)
        self.axiom_log.append(e)
        self.stash(e)

    def stash(self, e):
        # keep the term alive: ids may be reused otherwise
        self._keep = getattr(self, "_keep", [])
        self._keep.append(e)

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise Pruned()
            return
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Pruned()
        self.solver.add(e)
        self.pc.append(e)

    @contextlib.contextmanager
    def scoped(self):
        """Assertions made inside are forgotten afterwards."""
        a, f, n = set(self.asserted), set(self.fact_done), len(self.facts)
        self.solver.push()
        try:
            yield
        finally:
            self.solver.pop()
            self.asserted, self.fact_done = a, f
            del self.facts[n:]

    def check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        return r

    def must(self, e):
        """Is e entailed by the path condition?"""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.check(z3.Not(e)) == z3.unsat

    def sat(self):
        return self.check() == z3.sat

    # -- decisions
    def _decide(self, n, feasible):
        """Choose one of n alternatives; feasible() -> list of allowed ones."""
        d = self.dec
        if d.pos < len(d.seq):
            c = d.seq[d.pos][0]
            d.pos += 1
            # stored choices index into the list computed then; store real value
            return self._choices_at(d.pos - 1)[c]
        opts = feasible()
        if not opts:
            raise Pruned()
        d.seq.append([0, len(opts)])
        if not hasattr(d, "opts"):
            d.opts = {}
        d.opts[d.pos] = opts
        d.pos += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the goal used up")
        return opts[0]

    def _choices_at(self, pos):
        return self.dec.opts[pos]

    def branch(self, c):
        """Truth of a condition, forking when both are possible."""
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.e
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False

        def feas():
            r1 = self.check(c)
            if r1 == z3.unsat:
                return [False]
            r2 = self.check(z3.Not(c))
            if r2 == z3.unsat:
                return [True]
            return [True, False]
        r = self._decide(2, feas)
        self.assume(c if r else z3.Not(c))
        return r

    def choose(self, n, what=""):
        return self._decide(n, lambda: list(range(n)))

    # -- universally quantified facts
    def add_fact(self, lo, hi, fn):
        self.facts.append((lo, hi, fn))

    def instantiate(self, k):
        self.inst_terms.setdefault(k.get_id() if not isinstance(k, int) else ("c", k), k)
        for i, (lo, hi, fn) in enumerate(list(self.facts)):
            kk = (i, k.get_id() if not isinstance(k, int) else ("c", k))
            if kk in self.fact_done:
                continue
            self.fact_done.add(kk)
            kt = I(k) if isinstance(k, int) else k
            self.stash(kt)
            body = fn(kt)
            self.solver.add(z3.Implies(z3.And(kt >= lo, kt < hi), body))

    # -- obligations
    def prove(self, name, f, info=None):
        """Obligation: f holds here."""
        if isinstance(f, SBool):
            f = f.e
        if not z3.is_expr(f):
            f = z3.BoolVal(bool(f))
        f = z3.simplify(f)
        if z3.is_true(f):
            # still an obligation: discharged by simplification
            self.obls.append(Obl(self.goal, name, "discharged", "simplified"))
            return True
        t = time.time()
        self.stats.queries += 1
        self.solver.push()
        self.solver.add(z3.Not(f))
        r = self.solver.check()
        model = None
        if r == z3.sat:
            model = self.solver.model()
        smt = None
        if r == z3.unknown:
            smt = self.solver.to_smt2()
        self.solver.pop()
        if r == z3.sat and self.facts and self.inst_terms:
            # facts that came up after an index term was looked at
            d = len(self.fact_done)
            for k in list(self.inst_terms.values()):
                self.instantiate(k)
            if len(self.fact_done) != d:
                self.solver.push()
                self.solver.add(z3.Not(f))
                r = self.solver.check()
                if r == z3.sat:
                    model = self.solver.model()
                if r == z3.unknown:
                    smt = self.solver.to_smt2()
                self.solver.pop()
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            r2 = run_cvc5(smt, 20)
            self.stats.cvc5 += 1
            if r2 == "unsat":
                self.obls.append(Obl(self.goal, name, "discharged", "cvc5"))
                return True
            self.obls.append(Obl(self.goal, name, "unknown", "solver: unknown"))
            return False
        if r == z3.unsat:
            self.obls.append(Obl(self.goal, name, "discharged", "z3"))
            return True
        from .conc import concretise
        inp = {}
        for k, v in self.inputs.items():
            try:
                inp[k] = concretise(v, model)
            except Exception as e:  # pragma: no cover - diagnostics only
                inp[k] = "<%s>" % e
        self.obls.append(Obl(self.goal, name, "unknown" if self.approx else "refuted",
                             {"model": inp, "formula": str(f)[:1500], "info": info,
                              "pc": [str(p)[:300] for p in self.pc[-12:]]}))
        return False

    def fail(self, name, info=None):
        """Obligation 'this point is unreachable'."""
        return self.prove(name, z3.BoolVal(False), info)

    def require_reachable(self, name):
        """Vacuity guard: the precondition must be satisfiable."""
        r = self.check()
        self.obls.append(Obl(self.goal, "reachable: " + name,
                             "cover" if r == z3.sat else ("vacuous" if r == z3.unsat else "cover")))

    def emit(self, ev):
        self.trace.append(ev)


def run_cvc5(smt, secs):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt)
            name = f.name
        try:
            out = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), name],
                                 capture_output=True, text=True, timeout=secs + 5).stdout
        finally:
            os.unlink(name)
        return out.strip().split("\n")[0]
    except Exception:
        return "unknown"


# ------------------------------------------------------------------ sequences
def zi(v):
    """z3 Int term of an integer value."""
    if isinstance(v, bool):
        return I(int(v))
    if isinstance(v, int):
        return I(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, EnumMember):
        return I(v.value)
    if isinstance(v, SBool):
        return z3.If(v.e, I(1), I(0))
    raise Unsupported("not an integer: %r" % (v,))


def zreal(v):
    if isinstance(v, SFloat):
        return v.e
    if isinstance(v, float):
        from fractions import Fraction
        f = Fraction(repr(v))
        return z3.RealVal(f.numerator) / z3.RealVal(f.denominator)
    if isinstance(v, int):
        return z3.RealVal(int(v))
    return z3.ToReal(zi(v))


def is_int(v):
    return isinstance(v, (int, SInt, SBool)) or (isinstance(v, EnumMember) and isinstance(v.value, int))


def mk_int(e, cls=None):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e, cls)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def cint(e):
    """Concrete int of a z3 term, or None."""
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None


def norm_segs(segs):
    out = []
    for s in segs:
        if isinstance(s, Lit):
            if not s.vals:
                continue
            if out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].vals + s.vals)
                continue
            out.append(s)
        else:
            n = cint(s.n)
            if n is not None:
                if n <= 0:
                    continue
                if n <= 64:
                    lit = Lit([s.at(I(k)) for k in range(n)])
                    if out and isinstance(out[-1], Lit):
                        out[-1] = Lit(out[-1].vals + lit.vals)
                    else:
                        out.append(lit)
                    continue
            out.append(s)
    return tuple(out)


def segs_of(v):
    """Segments of a sequence value."""
    if isinstance(v, (SBytes, SList, SFixed)):
        return v.segs
    if isinstance(v, (bytes, bytearray)):
        return (Lit(tuple(v)),) if v else ()
    if isinstance(v, tuple):
        return (Lit(v),) if v else ()
    if isinstance(v, str):
        return (Lit(tuple(v)),) if v else ()
    if isinstance(v, range):
        return (Lit(tuple(v)),) if len(v) else ()
    raise Unsupported("not a sequence: %r" % (v,))


def seg_len(s):
    return I(len(s.vals)) if isinstance(s, Lit) else s.n


def segs_len(segs):
    n = I(0)
    for s in segs:
        n = n + seg_len(s)
    return z3.simplify(n)


def mk_bytes(segs):
    segs = norm_segs(segs)
    if all(isinstance(s, Lit) and all(isinstance(x, int) for x in s.vals) for s in segs):
        out = b""
        for s in segs:
            out += bytes(s.vals)
        return out
    return SBytes(segs)


def like(v, segs):
    """A new sequence of the same kind as v."""
    if isinstance(v, (bytes, SBytes)):
        return mk_bytes(segs)
    if isinstance(v, SByteArray):
        return SByteArray(norm_segs(segs))
    if isinstance(v, (SList, SFixed)):
        return SList(norm_segs(segs))
    if isinstance(v, (tuple, str)):
        segs = norm_segs(segs)
        if not segs:
            return () if isinstance(v, tuple) else ""
        if len(segs) == 1 and isinstance(segs[0], Lit):
            return segs[0].vals if isinstance(v, tuple) else "".join(segs[0].vals)
    raise Unsupported("sequence kind %r" % (v,))


def slice_segs(ctx, segs, a, b):
    """Elements a..b-1 with 0<=a<=b<=len already established; forks as needed."""
    out = []
    pos = I(0)
    for s in segs:
        n = seg_len(s)
        end = z3.simplify(pos + n)
        # part of [pos,end) inside [a,b)
        if ctx.branch(z3.Or(b <= pos, a >= end)):
            pos = end
            continue
        lo = z3.simplify(a - pos)
        if cint(lo) is None or cint(lo) < 0:
            if not ctx.must(a >= pos):
                lo = I(0) if ctx.branch(a <= pos) else lo
        hi = z3.simplify(b - pos)
        if not hi.eq(n) and not ctx.must(b <= end):
            hi = n if ctx.branch(b >= end) else hi
        if isinstance(s, Lit):
            cl, ch = cint(lo), cint(hi)
            if cl is None:
                for k in range(len(s.vals)):
                    if ctx.branch(lo == k):
                        cl = k
                        break
                else:
                    raise Pruned()
            if ch is None:
                for k in range(len(s.vals) + 1):
                    if ctx.branch(hi == k):
                        ch = k
                        break
                else:
                    raise Pruned()
            out.append(Lit(s.vals[cl:ch]))
        else:
            if cint(lo) == 0 and z3.simplify(hi - n).eq(I(0)):
                out.append(s)
            else:
                at = s.at
                key = (s.key[0], z3.simplify(s.key[1] + lo)) if s.key else None
                out.append(Gen(z3.simplify(hi - lo), (lambda k, at=at, lo=lo: at(z3.simplify(lo + k))), key))
        pos = end
    return norm_segs(out)


def index_segs(ctx, segs, i):
    """Element at i, 0<=i<len established."""
    pos = I(0)
    for s in segs:
        end = z3.simplify(pos + seg_len(s))
        if ctx.branch(i < end):
            off = z3.simplify(i - pos)
            if isinstance(s, Lit):
                c = cint(off)
                if c is not None:
                    return s.vals[c]
                if all(is_int(x) for x in s.vals):
                    e = zi(s.vals[-1])
                    for k in range(len(s.vals) - 2, -1, -1):
                        e = z3.If(off == k, zi(s.vals[k]), e)
                    return SInt(e)
                for k in range(len(s.vals)):
                    if ctx.branch(off == k):
                        return s.vals[k]
                raise Pruned()
            ctx.instantiate(off)
            return s.at(off)
        pos = end
    raise Pruned()


def at_formula(ctx, segs, k):
    """Integer element at k as one term, without forking."""
    pos = I(0)
    parts = []
    for s in segs:
        n = seg_len(s)
        end = z3.simplify(pos + n)
        off = z3.simplify(k - pos)
        if isinstance(s, Lit):
            e = zi(s.vals[-1])
            for q in range(len(s.vals) - 2, -1, -1):
                e = z3.If(off == q, zi(s.vals[q]), e)
        else:
            e = zi(s.at(off))
        parts.append((end, e))
        pos = end
    if not parts:
        return I(0)
    e = parts[-1][1]
    for end, x in reversed(parts[:-1]):
        e = z3.If(k < end, x, e)
    return e


_bxor = z3.Function("bxor", z3.IntSort(), z3.IntSort(), z3.IntSort())


def xor_operands(e):
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().eq(_bxor):
        return xor_operands(e.arg(0)) + xor_operands(e.arg(1))
    return [e]


def xor_cancel(ops):
    """Constant part and remaining operands after pairwise cancellation."""
    const = 0
    cnt = {}
    for o in ops:
        c = cint(o)
        if c is not None:
            const ^= c
            continue
        k = o.sexpr()
        if k in cnt:
            del cnt[k]
        else:
            cnt[k] = o
    return const, [cnt[k] for k in sorted(cnt)]


def xor_canon(ctx, t):
    """An operand already used on this path that is provably equal to t, or t."""
    if cint(t) is not None:
        return t
    reg = ctx.shared.setdefault("xorops", [])
    for r in reg:
        if r.eq(t):
            return r
    for r in reg:
        if z3.is_app(r) and z3.is_app(t) and r.decl().kind() == t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not ctx.idx_stack:
            if r.decl().eq(t.decl()) is False:
                continue
        if ctx.must(r == t):
            return r
    if not ctx.idx_stack:
        reg.append(t)
    return t


def bxor(ctx, a, b):
    """XOR of two integers in 0..255 (others: only when concrete)."""
    const, terms = xor_cancel([xor_canon(ctx, t) for t in xor_operands(a) + xor_operands(b)])
    if not terms:
        return I(const)
    if const or len(terms) == 1:
        if const == 0:
            return terms[0]
        terms.append(I(const))
    for t in terms:
        if cint(t) is None and not ctx.must(z3.And(t >= 0, t <= 255)):
            raise Unsupported("xor of integers not known to be bytes")
    e = terms[0]
    for t in terms[1:]:
        n = _bxor(e, t)
        ctx.axiom(z3.And(n >= 0, n <= 255, z3.Implies(e == 0, n == t), z3.Implies(t == 0, n == e), (n == 0) == (e == t)))
        e = n
    return e


_folds = {}


def fold_sym(key):
    """Uninterpreted fold over (start, n) of the sequence function `key`."""
    if key not in _folds:
        _folds[key] = z3.Function("fold!%d" % len(_folds), z3.IntSort(), z3.IntSort(), z3.IntSort())
    return _folds[key]


def xor_fold(ctx, acc, segs):
    """Specification fold: XOR of all elements, as a canonical term."""
    e = acc
    for s in segs:
        if isinstance(s, Lit):
            for v in s.vals:
                e = bxor(ctx, e, zi(v))
        else:
            if s.key is None:
                raise Unsupported("xor over a computed sequence")
            t = fold_sym(("xor", s.key[0]))(s.key[1], s.n)
            ctx.axiom(z3.And(t >= 0, t <= 255, z3.Implies(s.n == 0, t == 0)))
            e = bxor(ctx, e, t)
    return e


# ------------------------------------------------------------------ equality
def dkey(v):
    """Normalised dict key of a concrete value, or None if symbolic."""
    if isinstance(v, EnumMember):
        return v.value if isinstance(v.value, int) else ("enum", v.cls.name, v.name)
    if isinstance(v, (str, int, bytes, float)) or v is None:
        return v
    if isinstance(v, tuple):
        ks = [dkey(x) for x in v]
        return tuple(ks) if all(k is not None for k in ks) else None
    if isinstance(v, (SClass, Ext, SObj, Mock)):
        return ("id", id(v))
    if isinstance(v, SFixed):
        vals = []
        for s in v.segs:
            if not isinstance(s, Lit):
                return None
            vals += s.vals
        ks = [dkey(x) for x in vals]
        return ("fixed",) + tuple(ks) if all(isinstance(k, int) for k in ks) else None
    return None


class _NotEq(Exception):
    pass


def veq(ctx, a, b):
    """Python == as a z3 Bool (exact; Unsupported when it cannot be expressed)."""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (Poison, LastIter)) or isinstance(b, (Poison, LastIter)):
        raise Unsupported("value of a loop temporary compared")
    if isinstance(a, SVal) or isinstance(b, SVal):
        if isinstance(a, SVal) and isinstance(b, SVal):
            return a.e == b.e
        raise Unsupported("opaque value compared with %r / %r" % (a, b))
    if is_int(a) and is_int(b):
        return zi(a) == zi(b)
    if isinstance(a, (float, SFloat)) or isinstance(b, (float, SFloat)):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return z3.BoolVal(a == b)
        num = lambda x: is_int(x) or isinstance(x, (float, SFloat))
        if num(a) and num(b):
            return zreal(a) == zreal(b)
        return z3.BoolVal(False)
    if isinstance(a, EnumMember) and isinstance(b, EnumMember):
        return z3.BoolVal(a.cls is b.cls and a.name == b.name)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and isinstance(b, str):
            return z3.BoolVal(a == b)
        return str_term(ctx, a) == str_term(ctx, b)
    if a is None or b is None:
        return z3.BoolVal(False)
    bl = (bytes, SBytes, SByteArray)
    ll = (SList, SFixed)
    if isinstance(a, SByteArray) != isinstance(b, SByteArray) and not (isinstance(a, bl) and isinstance(b, bl)):
        return z3.BoolVal(False)
    if isinstance(a, bl) and isinstance(b, bl):
        return seq_eq(ctx, segs_of(a), segs_of(b))
    if isinstance(a, ll) and isinstance(b, ll):
        return seq_eq(ctx, segs_of(a), segs_of(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [veq(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, SDict) and isinstance(b, SDict):
        if set(a.d) != set(b.d):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [veq(ctx, a.d[k][1], b.d[k][1]) for k in a.d])
    if isinstance(a, FamObj) and isinstance(b, FamObj):
        return (a.key == b.key) if a.fam is b.fam else z3.BoolVal(False)
    ident = (SObj, SClass, Ext, Mock, SFunc, Builtin, Coro)
    if isinstance(a, ident) and isinstance(b, ident):
        if isinstance(a, SObj) and isinstance(a.cls, SClass) and a.cls.lookup("__eq__")[0] is not None:
            raise Unsupported("user defined __eq__")
        return z3.BoolVal(a == b if isinstance(a, Ext) else a is b)
    kinds = [(int, SInt, SBool), (str, SStr), bl, ll, (tuple,), (SDict,), ident, (EnumMember,), (FamObj,), (SSet,)]

    def kind(x):
        for i, ks in enumerate(kinds):
            if isinstance(x, ks):
                return i
        raise Unsupported("comparison of %r" % (x,))
    if kind(a) != kind(b):
        return z3.BoolVal(False)
    raise Unsupported("comparison of %r and %r" % (a, b))


_strs = {}


def str_term(ctx, s):
    if isinstance(s, SStr):
        return s.e
    if s not in _strs:
        _strs[s] = z3.Const("str:" + s, StrSort)
    t = _strs[s]
    known = ctx.shared.setdefault("strs", {})
    if s not in known:
        for o in known.values():
            ctx.axiom(t != o)
        known[s] = t
    return t


_strcat = z3.Function("strcat", StrSort, StrSort, StrSort)


def concat_str(ctx, parts):
    """Concatenation of str / SStr pieces (right nested, literals merged)."""
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "" or not isinstance(p, str):
            out.append(p)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    e = str_term(ctx, out[-1])
    for p in reversed(out[:-1]):
        e = _strcat(str_term(ctx, p), e)
    return SStr(e)


def str_prefix(e):
    """(literal prefix, rest term) of a concatenation, or None."""
    if z3.is_app(e) and e.decl().eq(_strcat) and z3.is_const(e.arg(0)) and str(e.arg(0).decl().name()).startswith("str:"):
        return str(e.arg(0).decl().name())[4:], e.arg(1)
    return None


def known_len(segs):
    """The elements of a sequence of concrete length."""
    out = []
    for s in segs:
        if isinstance(s, Lit):
            out += s.vals
        else:
            n = cint(seg_len(s))
            if n is None:
                raise Unsupported("elements of a sequence of unknown length")
            out += [s.at(I(k)) for k in range(n)]
    return out


def seq_eq(ctx, A, B):
    """Equality of two sequences: exact when used positively in a proof
    (Skolem index), and exact both ways for concrete lengths."""
    la, lb = segs_len(A), segs_len(B)
    ca, cb = cint(la), cint(lb)
    if ca is not None and cb is not None:
        if ca != cb:
            return z3.BoolVal(False)
        if len(A) == len(B) and all(same_seg(x, y) for x, y in zip(A, B)):
            return z3.BoolVal(True)
        va, vb = known_len(A), known_len(B)
        return z3.And([z3.BoolVal(True)] + [veq(ctx, x, y) for x, y in zip(va, vb)])
    # identical structure
    if len(A) == len(B) and all(same_seg(x, y) for x, y in zip(A, B)):
        return z3.BoolVal(True)
    if (ca is None) != (cb is None):
        # one side has concrete length: expand the other under that length
        n, C, S = (ca, A, B) if ca is not None else (cb, B, A)
        vals = known_len(C)
        if all(is_int(v) for v in vals):
            ls = la if ca is None else lb
            return z3.And([ls == n] + [at_formula(ctx, S, I(k)) == zi(v) for k, v in enumerate(vals)])
    # symbolic length on both sides: the equation is an unknown proposition,
    # tied to its meaning lazily (see prove_seq_eq for goals)
    p = ctx._fresh("seqeq", z3.BoolSort())
    reg = ctx.shared.setdefault("seqeqs", [])
    reg.append((p, A, B))
    # p -> equal lengths and pointwise equality (instantiated as a fact);
    # not p -> a witness differs
    ctx.axiom(z3.Implies(p, la == lb))
    k = ctx._fresh("diff", z3.IntSort())
    try:
        ctx.axiom(z3.Implies(z3.And(z3.Not(p), la == lb),
                             z3.And(k >= 0, k < la, at_formula(ctx, A, k) != at_formula(ctx, B, k))))
        ctx.add_fact(I(0), la, lambda q, p=p: z3.Implies(p, at_formula(ctx, A, q) == at_formula(ctx, B, q)))
    except Unsupported:
        pass
    return p


def same_seg(x, y):
    if x is y:
        return True
    if isinstance(x, Gen) and isinstance(y, Gen):
        return (x.key is not None and y.key is not None and x.key[0] == y.key[0]
                and z3.simplify(x.key[1] - y.key[1]).eq(I(0)) and z3.simplify(x.n - y.n).eq(I(0)))
    if isinstance(x, Lit) and isinstance(y, Lit):
        return len(x.vals) == len(y.vals) and all(same_val(a, b) for a, b in zip(x.vals, y.vals))
    return False


def same_val(a, b):
    if a is b:
        return True
    if is_int(a) and is_int(b):
        return z3.simplify(zi(a) - zi(b)).eq(I(0))
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b
    return False


def prove_seq_eq(ctx, name, a, b, info=None):
    """Obligation: two sequence values are equal (element kinds included)."""
    kinds = lambda v: "bytes" if isinstance(v, (bytes, SBytes, SByteArray)) else "list" if isinstance(v, (SList, SFixed)) else "tuple" if isinstance(v, tuple) else None
    if kinds(a) is None or kinds(a) != kinds(b):
        return ctx.prove(name, False, info or ("%r vs %r" % (a, b))[:300])
    A, B = norm_segs(segs_of(a)), norm_segs(segs_of(b))
    if len(A) == len(B) and all(same_seg(x, y) for x, y in zip(A, B)):
        return ctx.prove(name, True)
    la, lb = segs_len(A), segs_len(B)
    # try segment by segment
    if len(A) == len(B) and all(type(x) is type(y) for x, y in zip(A, B)) and \
            all(ctx.must(seg_len(x) == seg_len(y)) for x, y in zip(A, B)):
        ok = True
        for x, y in zip(A, B):
            if same_seg(x, y):
                continue
            if isinstance(x, Lit):
                for p, q in zip(x.vals, y.vals):
                    ok &= prove_eq(ctx, name, p, q, info)
            else:
                k = ctx._fresh("k", z3.IntSort())
                with ctx.scoped():
                    ctx.solver.add(z3.And(k >= 0, k < x.n))
                    ctx.instantiate(k)
                    ok &= prove_eq(ctx, name, x.at(k), y.at(k), info)
        if ok:
            return ctx.prove(name, True)
        return ok
    ok = ctx.prove(name + " (length)", la == lb, info)
    if not ok:
        return False
    k = ctx._fresh("k", z3.IntSort())
    with ctx.scoped():
        ctx.solver.add(z3.And(k >= 0, k < la))
        ctx.instantiate(k)
        return ctx.prove(name, at_formula(ctx, A, k) == at_formula(ctx, B, k), info)


def prove_eq(ctx, name, a, b, info=None):
    """Obligation: a == b, structurally (dicts, lists, bytes, ints, enums)."""
    if isinstance(a, LastIter) or isinstance(b, LastIter):
        raise Unsupported("loop temporary in a postcondition")
    seq = (bytes, SBytes, SList, SFixed, tuple)
    if isinstance(a, seq) and isinstance(b, seq):
        return prove_seq_eq(ctx, name, a, b, info)
    if isinstance(a, SDict) and isinstance(b, SDict):
        if set(a.d) != set(b.d):
            return ctx.prove(name + " (keys)", False, "%s vs %s" % (sorted(map(str, a.d)), sorted(map(str, b.d))))
        ok = True
        for k in a.d:
            ok &= prove_eq(ctx, "%s[%s]" % (name, k), a.d[k][1], b.d[k][1], info)
        return ok
    return ctx.prove(name, veq(ctx, a, b), info or ("%r == %r" % (a, b))[:300])
