"""Loops: concrete ones are unrolled; loops over sequences of unknown length and
`while` loops are summarised by an inferred invariant (closed forms of every
location the loop changes) whose preservation is proved for a generic iteration."""
import ast
import z3
from .core import *
from . import core


class LoopDone(Exception):
    """The condition of a `while` loop is false."""


# ------------------------------------------------------------------ substitution
def sub_e(e, j, t):
    return z3.substitute(e, (j, t if z3.is_expr(t) else I(t)))


def sub_v(v, j, t):
    """The value v of iteration j, taken at iteration t."""
    if v is None or isinstance(v, (int, str, bytes, float, EnumMember, SClass, Ext, SFunc, Builtin, Mock, SMap, SSet, Bound)):
        return v
    if isinstance(v, SInt):
        r = SInt(z3.simplify(sub_e(v.e, j, t)), v.cls, None)
        if v.parts is not None:
            r.parts = tuple(sub_v(p, j, t) for p in v.parts)
        return r
    if isinstance(v, SBool):
        return mk_bool(sub_e(v.e, j, t))
    if isinstance(v, SStr):
        return SStr(sub_e(v.e, j, t))
    if isinstance(v, SVal):
        return SVal(sub_e(v.e, j, t), v.tag)
    if isinstance(v, SBytes):
        return SBytes(tuple(sub_seg(s, j, t) for s in v.segs))
    if isinstance(v, SFixed):
        return SFixed(v.cls, tuple(sub_seg(s, j, t) for s in v.segs))
    if isinstance(v, SList):
        return type(v)(tuple(sub_seg(s, j, t) for s in v.segs))
    if isinstance(v, tuple):
        return tuple(sub_v(x, j, t) for x in v)
    if isinstance(v, SDict):
        return SDict({k: (kv, sub_v(vv, j, t)) for k, (kv, vv) in v.d.items()})
    if isinstance(v, SObj):
        return SObj(v.cls, {k: sub_v(x, j, t) for k, x in v.attrs.items()})
    if isinstance(v, FamObj):
        return FamObj(v.fam, z3.simplify(sub_e(v.key, j, t)))
    raise Unsupported("substitution in %r" % (v,))


def sub_seg(s, j, t):
    if isinstance(s, Lit):
        return Lit([sub_v(x, j, t) for x in s.vals])
    at = s.at
    key = None
    if s.key is not None:
        key = (s.key[0], z3.simplify(sub_e(s.key[1], j, t)))
        if any(str(j) in str(p) for p in s.key[0][1:]):
            key = None
    return Gen(z3.simplify(sub_e(s.n, j, t)), lambda k: sub_v(at(k), j, t), key)


def mentions(e, c):
    """Does the term e contain the constant c?"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        st.extend(x.children())
    return False


# ------------------------------------------------------------------ map / family views inside a loop
class HasLoop:
    """`has` of a map at the start of iteration j (keys of earlier iterations:
    unknown here) or after the loop (removed keys known)."""
    def __init__(self, ctx, old, m, j, cond=None, jj=None):
        self.ctx, self.old, self.m, self.j, self.cond, self.jj = ctx, old, m, j, cond, jj

    def __call__(self, q):
        m = self.m
        k = m.idxf(q)
        inr = z3.And(k >= 0, k < m.n)
        self.ctx.axiom(z3.Implies(m.has_init(q), z3.And(inr, m.keyf(k) == q)))
        self.ctx.axiom(z3.Implies(z3.And(inr, m.keyf(k) == q), m.has_init(q)))
        earlier = z3.And(m.has_init(q), k >= 0, k < self.j)
        if self.cond is None:
            f = z3.Function("has?%d" % id(self), z3.IntSort(), z3.BoolSort())
            return z3.If(earlier, f(q), self.old(q))
        return z3.And(self.old(q), z3.Not(z3.And(earlier, sub_e(self.cond, self.jj, k))))


class FieldLoop:
    """A field of a family at the start of iteration j / after i iterations."""
    def __init__(self, old, m, j, cases=None, jj=None):
        self.old, self.m, self.j, self.cases, self.jj = old, m, j, cases, jj

    def read(self, it, key, rd):
        ctx, m = it.ctx, self.m
        k = m.idxf(key)
        ctx.axiom(z3.Implies(m.has_init(key), z3.And(k >= 0, k < m.n, m.keyf(k) == key)))
        earlier = z3.And(m.has_init(key), k >= 0, k < self.j)
        if self.cases is None:
            if ctx.must(z3.Not(earlier)):
                return rd(self.old, key)
            raise Unsupported("field of another iteration's object")
        if not ctx.branch(earlier):
            return rd(self.old, key)
        ctx.instantiate(k)
        for cond, val in self.cases:
            if ctx.branch(sub_e(cond, self.jj, k)):
                return sub_v(val, self.jj, k)
        return rd(self.old, key)


# ------------------------------------------------------------------ locations
def loc_get(loc):
    kind, o, f = loc
    if kind == "attr":
        return getattr(o, f)
    return o.get(f, MISSING)


def loc_set(ctx, loc, v):
    kind, o, f = loc
    if kind == "attr":
        if isinstance(v, (Poison, LastIter, LazyChoice)):
            raise Unsupported("loop leaves %s.%s without a closed form" % (type(o).__name__, f))
        ctx.set(o, f, v)
    elif v is MISSING:
        if f in o:
            ctx.delitem(o, f)
    else:
        ctx.setitem(o, f, v)


def loc_id(loc):
    return (loc[0], id(loc[1]), loc[2])


def freeze(v, serial, memo):
    """A copy of v in which objects created after `serial` keep the contents they
    have now (the undo log would take them back)."""
    if v is None or isinstance(v, (int, str, bytes, float, SInt, SBool, SStr, SVal, EnumMember)):
        return v
    if isinstance(v, tuple):
        return tuple(freeze(x, serial, memo) for x in v)
    if isinstance(v, Lit):
        return Lit([freeze(x, serial, memo) for x in v.vals])
    if isinstance(v, SFixed):
        return SFixed(v.cls, freeze(tuple(v.segs), serial, memo))
    if isinstance(v, Ev):
        return Ev(v.kind, *[freeze(x, serial, memo) for x in v.args])
    if isinstance(v, (CaseEv, LoopEv)):
        cases = [(c, [freeze(e, serial, memo) for e in es]) for c, es in v.cases]
        return CaseEv(cases) if isinstance(v, CaseEv) else LoopEv(v.n, v.j, cases)
    if getattr(v, "serial", 0) <= serial:
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, SDict):
        o = SDict({})
        memo[id(v)] = (v, o)
        for k, (a, b) in v.d.items():
            o.d[k] = (freeze(a, serial, memo), freeze(b, serial, memo))
        return o
    if isinstance(v, SList):
        o = type(v)()
        memo[id(v)] = (v, o)
        o.segs = freeze(tuple(v.segs), serial, memo)
        return o
    if isinstance(v, SObj):
        o = SObj(v.cls)
        memo[id(v)] = (v, o)
        for k, x in v.attrs.items():
            o.attrs[k] = freeze(x, serial, memo)
        return o
    return v


# ------------------------------------------------------------------ closed forms
class Guess:
    kind = "poison"

    def __init__(self, v0):
        self.v0 = v0

    def start(self, ctx, j):
        return Poison("value carried over a loop iteration")

    def final(self, ctx, i, lp):
        """Value after i iterations."""
        vals = [p[1].get(self.lid, (None, None))[1] for p in lp.cont]
        same = len(vals) >= 1 and all(v is not None for v in vals) and \
            all(v is vals[0] or same_val(v, vals[0]) for v in vals[1:])
        if same and not isinstance(vals[0], (Poison, LastIter)):
            val = vals[0]
            return LastIter(i, self.v0, lambda t: (ctx.instantiate(t), sub_v(val, lp.j, t))[1])
        return Poison("loop temporary with several possible values")


class Linear(Guess):
    kind = "linear"

    def __init__(self, v0, c=None):
        self.v0, self.c = v0, c

    def start(self, ctx, j):
        return mk_int(zi(self.v0) + zi(self.c) * j)

    def final(self, ctx, i, lp):
        return mk_int(zi(self.v0) + zi(self.c) * i)


class Xor(Guess):
    kind = "xor fold"

    def __init__(self, v0, key, start0):
        self.v0, self.key, self.start0 = v0, key, start0

    def start(self, ctx, j):
        return self.final(ctx, j, None)

    def final(self, ctx, i, lp):
        t = fold_sym(("xor", self.key))(self.start0, z3.simplify(i) if z3.is_expr(i) else I(i))
        ctx.axiom(z3.And(t >= 0, t <= 255, z3.Implies((i if z3.is_expr(i) else I(i)) == 0, t == 0)))
        return mk_int(bxor(ctx, zi(self.v0), t))


def divmod_exact(k, w):
    """(k / w, k mod w) of an integer term; multiples of w are taken out exactly."""
    if not z3.is_expr(k):
        return I(k // w), I(k % w)
    k = z3.simplify(k, som=True)
    terms = k.children() if z3.is_add(k) else [k]
    c, q, rest = 0, [], []
    for t in terms:
        if z3.is_int_value(t):
            c += t.as_long()
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % w == 0:
            q.append(I(t.arg(0).as_long() // w) * t.arg(1))
        else:
            rest.append(t)
    if not rest:
        return z3.simplify(z3.Sum([I(c // w)] + q)), I(c % w)
    r = z3.Sum([I(c)] + rest)
    return z3.simplify(z3.Sum([r / I(w)] + q)), z3.simplify(r % I(w))


class Append(Guess):
    """A sequence to which every iteration appends w elements."""
    kind = "append"

    def __init__(self, v0, elems, j, w):
        self.v0, self.elems, self.j0, self.w = v0, elems, j, w

    def grown(self, ctx, i):
        els, j0, w = self.elems, self.j0, self.w

        def at(k):
            if w == 1:
                ctx.instantiate(k)
                return sub_v(els[0], j0, k)
            q, r = divmod_exact(k, w)
            ctx.instantiate(q)
            c = cint(r)
            vals = [sub_v(x, j0, q) for x in els]
            if c is not None:
                return vals[c]
            e = zi(vals[-1])
            for x in range(w - 2, -1, -1):
                e = z3.If(r == x, zi(vals[x]), e)
            return SInt(e)
        key = None
        if w == 1 and getattr(self, "src", None) is not None:
            key = self.src
        return Gen(z3.simplify((i if z3.is_expr(i) else I(i)) * w), at, key)

    def value(self, ctx, i):
        g = self.grown(ctx, i)
        if isinstance(self.v0, tuple):                 # segs of a list
            return norm_segs(self.v0 + (g,))
        return mk_bytes(segs_of(self.v0) + (g,))

    def start(self, ctx, j):
        return self.value(ctx, j)

    def final(self, ctx, i, lp):
        return self.value(ctx, i)


class Flag(Guess):
    """Either left alone or set to one constant."""
    kind = "flag"

    def __init__(self, v0, c, cond, j):
        self.v0, self.c, self.cond, self.j0 = v0, c, cond, j

    def start(self, ctx, j):
        return Poison("flag read inside the loop that sets it")

    def final(self, ctx, i, lp):
        p = ctx._fresh("flag", z3.BoolSort())
        w = ctx._fresh("wit", z3.IntSort())
        ctx.axiom(z3.Implies(p, z3.And(w >= 0, w < i, sub_e(self.cond, self.j0, w))))
        ctx.add_fact(I(0), i, lambda q: z3.Implies(sub_e(self.cond, self.j0, q), p))
        ctx.instantiate(w)
        c, v0 = self.c, self.v0
        if isinstance(c, bool) and isinstance(v0, bool):
            return mk_bool(p if c else z3.Not(p)) if c != v0 else c
        return LazyChoice(p, c, v0)


class HasGuess(Guess):
    kind = "keys removed by their own iteration"

    def __init__(self, v0, m):
        self.v0, self.m = v0, m

    def start(self, ctx, j):
        return HasLoop(ctx, self.v0, self.m, j)

    def final(self, ctx, i, lp):
        conds = []
        for conds_p, ends, _, _ in lp.cont:
            if self.lid in ends:
                conds.append(z3.And([z3.BoolVal(True)] + conds_p))
        return HasLoop(ctx, self.v0, self.m, i, z3.Or([z3.BoolVal(False)] + conds), lp.j)


class FieldGuess(Guess):
    kind = "fields written by their own iteration"

    def __init__(self, v0, m):
        self.v0, self.m = v0, m

    def start(self, ctx, j):
        return FieldLoop(self.v0, self.m, j)

    def final(self, ctx, i, lp):
        cases = []
        for conds_p, ends, _, _ in lp.cont:
            if self.lid in ends:
                cases.append((z3.And([z3.BoolVal(True)] + conds_p), ends[self.lid][1].val))
        return FieldLoop(self.v0, self.m, i, cases, lp.j)


class Summary:
    pass


def run_once(body, j):
    try:
        body(j)
        return ("cont", None)
    except ContinueExc:
        return ("cont", None)
    except BreakExc:
        return ("break", None)
    except LoopDone:
        return ("done", None)
    except ReturnExc as r:
        return ("return", r.value)
    except PyRaise as e:
        return ("raise", e.exc)


def summarise(it, n, body, where, the_map=None):
    """n: number of iterations (z3 Int) or None (no bound).  Leaves the state
    after the loop; returns normally on completion, raises on break/return/raise
    (BreakExc for break, LoopDone when a while condition became false)."""
    ctx = it.ctx
    ctx.loop_no = getattr(ctx, "loop_no", 0) + 1
    jname = ctx.fresh_name("j")
    j = z3.Const(jname, z3.IntSort())
    serial = next(core._serial)
    lp = Summary()
    lp.j = j
    guesses = {}         # lid -> (loc, guess)
    banned = set()
    tries = {}
    for round_ in range(12):
        changed_new = False

        def generic():
            ctx.idx_stack.append(j)
            try:
                ctx.assume(j >= 0)
                if n is not None:
                    ctx.assume(j < n)
                ctx.instantiate(j)
                base_pc = len(ctx.pc)
                ax0 = len(ctx.axiom_log)
                starts = {}
                for lid, (loc, g) in guesses.items():
                    v = g.start(ctx, j)
                    starts[lid] = v
                    loc_set(ctx, loc, v)
                mark = len(ctx.undo)
                trl = len(ctx.trace)
                out = run_once(body, j)
                locs = ctx.changed(mark, serial)
                memo = {}
                ends = {loc_id(l): (l, freeze(loc_get(l), serial, memo)) for l in locs}
                tr = [freeze(e, serial, memo) for e in ctx.trace[trl:]]
                # inductive step
                bad = []
                if out[0] == "cont":
                    for lid, (loc, g) in guesses.items():
                        if lid in ends and not check_step(it, g, ends[lid][1], starts[lid], j, lp):
                            bad.append(lid)
                        elif lid not in ends and not check_same(it, g, j):
                            bad.append(lid)
                return out, ends, starts, bad, list(ctx.axiom_log[ax0:]), list(ctx.pc[base_pc:]), tr
            finally:
                ctx.idx_stack.pop()
        res = ctx.sub_explore(generic)
        cont = [(pc, ends, ax, ev) for _, (out, ends, st, bad, ax, pc, ev), _ in res if out[0] == "cont"]
        exits = sorted({out[0] for _, (out, *_), _ in res if out[0] != "cont"})
        sts = [st for _, (out, ends, st, bad, ax, pc, ev), _ in res if out[0] == "cont"]
        bads = {b for _, (out, e, s, bad, *_), _ in res for b in bad}
        for b in bads:
            loc, g = guesses[b]
            if g.kind == "poison":
                continue
            tries[(b, g.kind)] = tries.get((b, g.kind), 0) + 1
            again = None
            if g.kind == "append" and tries[(b, g.kind)] < 4:
                again = mk_append(it, lp, b, g.v0, cont, [st.get(b) for st in sts])
            if again is None:
                banned.add((b, g.kind))
                again = mk_guess(it, lp, b, loc, g.v0, cont, banned, the_map, None)
            guesses[b] = (loc, again)
            changed_new = True
        if not changed_new:
            for lid in [l for p in cont for l in p[1]]:
                loc = next(p[1][lid][0] for p in cont if lid in p[1])
                if lid in guesses:
                    continue
                v0 = loc_get(loc)
                g = mk_guess(it, lp, lid, loc, v0, cont, banned, the_map, None)
                guesses[lid] = (loc, g)
                changed_new = True
        if not changed_new:
            break
    else:
        raise Unsupported("no loop invariant found (%s)" % where)
    lp.cont = cont
    for lid, (loc, g) in guesses.items():
        g.lid = lid
        if g.kind != "poison":
            ctx.obls.append(Obl(ctx.goal, "loop invariant at %s: %s of %s preserved" % (where, g.kind, loc[2]), "discharged", "z3"))
    cont_f = z3.Or([z3.BoolVal(False)] + [z3.And([z3.BoolVal(True)] + pc) for pc, _, _, _ in cont])
    ax_f = z3.And([z3.BoolVal(True)] + [a for _, _, ax, _ in cont for a in ax if mentions(a, j)])
    allf = z3.simplify(z3.And(cont_f, ax_f))
    events = [(z3.And([z3.BoolVal(True)] + pc), ev) for pc, _, _, ev in cont]
    has_ev = any(ev for _, ev in events)

    def state(i):
        """Adopt the state after i iterations."""
        if not z3.is_true(allf):
            ctx.add_fact(I(0), i, lambda q: sub_e(allf, j, q))
            ctx.instantiate(z3.simplify(i - 1))
        for lid, (loc, g) in guesses.items():
            loc_set(ctx, loc, g.final(ctx, i, lp))
        if has_ev:
            ctx.emit(LoopEv(i, j, events))

    alts = (["normal"] if n is not None else []) + (["exit"] if exits else [])
    if not alts:
        raise Pruned()          # the loop never ends: partial correctness
    alt = alts[ctx.choose(len(alts))] if len(alts) > 1 else alts[0]
    if alt == "normal":
        state(z3.simplify(n))
        return
    i = ctx._fresh("i", z3.IntSort())
    ctx.assume(i >= 0)
    if n is not None:
        ctx.assume(i < n)
    state(i)
    ctx.instantiate(i)
    out = run_once(body, i)
    if out[0] == "cont":
        raise Pruned()
    if out[0] == "break":
        raise BreakExc()
    if out[0] == "done":
        raise LoopDone()
    if out[0] == "return":
        raise ReturnExc(out[1])
    raise PyRaise(out[1])


def mk_guess(it, lp, lid, loc, v0, cont, banned, the_map, start):
    """Choose a closed form for a location the loop changes."""
    ctx = it.ctx
    kind, o, f = loc
    ends = [p[1][lid][1] if lid in p[1] else v0 for p in cont]
    conds = [z3.And([z3.BoolVal(True)] + p[0]) for p in cont]
    j = lp.j

    def ok(k):
        return (lid, k) not in banned
    # map / family
    if isinstance(o, SMap) and f == "has":
        if the_map is o and ok("keys removed by their own iteration"):
            return _lid(HasGuess(v0, o), lid)
        raise Unsupported("loop changes a map it does not iterate over")
    from .interp import FamUpd
    if any(isinstance(e, FamUpd) for e in ends):
        if the_map is not None and ok("fields written by their own iteration"):
            return _lid(FieldGuess(v0, the_map), lid)
        raise Unsupported("loop changes objects of a family")
    if v0 is MISSING:
        return _lid(Guess(v0), lid)
    if is_int(v0) and not isinstance(v0, (bool, SBool)) and all(is_int(e) and not isinstance(e, (bool, SBool)) for e in ends):
        x0 = zi(v0)
        if ok("linear"):
            c = z3.simplify(zi(ends[0]) - x0)
            # only meaningful when the guess started from v0 itself (j-independent)
            if not mentions(c, j) and all(z3.simplify(zi(e) - x0 - c).eq(I(0)) for e in ends):
                return _lid(Linear(v0, mk_int(c)), lid)
        if ok("xor fold") and len(ends) == 1:
            const, rest = core.xor_cancel(core.xor_operands(zi(ends[0])) + core.xor_operands(x0))
            if const == 0 and len(rest) == 1 and ctx.must(z3.And(x0 >= 0, x0 <= 255)):
                t = rest[0]
                src = getattr(lp, "elem_key", None)
                el = getattr(lp, "elem", None)
                if src is not None and el is not None and z3.simplify(zi(el(j)) - t).eq(I(0)):
                    return _lid(Xor(v0, src[0], src[1]), lid)
    seqs = (bytes, SBytes)
    if ok("append") and (isinstance(v0, seqs) and all(isinstance(e, seqs) for e in ends)
                         or kind == "attr" and f == "segs" and isinstance(o, SList)):
        g = mk_append(it, lp, lid, v0, cont, [v0] * len(cont))
        if g is not None:
            return g
    if ok("flag"):
        sets = [(c, e) for c, e, p in zip(conds, ends, cont) if lid in p[1]]
        if sets and all(isinstance(e, (bool, int, str, EnumMember)) or e is None for _, e in sets) \
                and all(e is sets[0][1] or (type(e) is type(sets[0][1]) and e == sets[0][1]) for _, e in sets) \
                and len(sets) < len(cont):
            return _lid(Flag(v0, sets[0][1], z3.Or([c for c, _ in sets]), j), lid)
    return _lid(Guess(v0), lid)


def mk_append(it, lp, lid, v0, cont, starts):
    """Every iteration appends the same number of elements to what it started from."""
    ctx = it.ctx
    conds = [z3.And([z3.BoolVal(True)] + p[0]) for p in cont]
    j = lp.j
    tails = []
    for p, st in zip(cont, starts):
        if lid not in p[1] or st is None:
            return None
        e = p[1][lid][1]
        A = norm_segs(st if isinstance(st, tuple) else segs_of(st))
        B = norm_segs(e if isinstance(e, tuple) else segs_of(e))
        t = strip_prefix(A, B)
        if t is None:
            return None
        tails.append(t)
    if not tails:
        return None
    w = len(tails[0])
    if not w or not all(len(t) == w for t in tails):
        return None
    els = merge(ctx, conds, tails)
    if els is None:
        return None
    g = Append(v0, els, j, w)
    el = getattr(lp, "elem", None)
    if w == 1 and el is not None and getattr(lp, "elem_key", None) is not None and is_int(els[0]) and is_int(el(j)) \
            and z3.simplify(zi(els[0]) - zi(el(j))).eq(I(0)):
        g.src = lp.elem_key
    return _lid(g, lid)


def _lid(g, lid):
    g.lid = lid
    return g


def strip_prefix(A, B):
    """Elements B has after the prefix A, or None."""
    a = list(A)
    b = list(B)
    while a:
        if not b:
            return None
        x, y = a[0], b[0]
        if isinstance(x, Lit) and isinstance(y, Lit):
            n = len(x.vals)
            if len(y.vals) < n or not all(p is q or same_val(p, q) for p, q in zip(x.vals, y.vals)):
                return None
            a.pop(0)
            if len(y.vals) > n:
                b[0] = Lit(y.vals[n:])
            else:
                b.pop(0)
        elif x is y or same_seg(x, y):
            a.pop(0)
            b.pop(0)
        else:
            return None
    out = []
    for s in b:
        if not isinstance(s, Lit):
            return None
        out += s.vals
    return out


def merge(ctx, conds, tails):
    if len(tails) == 1:
        return tails[0]
    out = []
    for k in range(len(tails[0])):
        vs = [t[k] for t in tails]
        if all(same_deep(v, vs[0]) for v in vs[1:]):
            out.append(vs[0])
        elif all(is_int(v) for v in vs):
            e = zi(vs[-1])
            for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                e = z3.If(c, zi(v), e)
            out.append(SInt(e))
        else:
            return None
    return out


def same_deep(x, y):
    if x is y or same_val(x, y):
        return True
    if isinstance(x, SDict) and isinstance(y, SDict):
        return list(x.d) == list(y.d) and all(same_deep(x.d[k][1], y.d[k][1]) for k in x.d)
    if isinstance(x, SFixed) and isinstance(y, SFixed) or isinstance(x, SList) and isinstance(y, SList) and type(x) is type(y) or \
            isinstance(x, SBytes) and isinstance(y, SBytes):
        a, b = norm_segs(x.segs), norm_segs(y.segs)
        return len(a) == len(b) and all(
            same_seg(p, q) or isinstance(p, Lit) and isinstance(q, Lit) and len(p.vals) == len(q.vals)
            and all(same_deep(u, v) for u, v in zip(p.vals, q.vals)) for p, q in zip(a, b))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_deep(p, q) for p, q in zip(x, y))
    return False


def check_same(it, g, j):
    """The location is not changed on this path: does the closed form allow it?"""
    if g.kind == "linear":
        return cint(zi(g.c)) == 0
    if g.kind in ("xor fold", "append"):
        return False
    return True


def check_step(it, g, end, start, j, lp):
    """Value at the end of iteration j == closed form at j+1?"""
    ctx = it.ctx
    if g.kind == "poison":
        return True
    if isinstance(end, (Poison, LastIter)):
        return False
    if g.kind == "linear":
        return is_int(end) and ctx.must(zi(end) == zi(g.v0) + zi(g.c) * (j + 1))
    if g.kind == "xor fold":
        # definition of the fold: F(s, j+1) = F(s, j) xor elem(s + j)
        el = lp.elem(j)
        want = bxor(ctx, zi(start), zi(el))
        return is_int(end) and (z3.simplify(zi(end) - want).eq(I(0)) or ctx.must(zi(end) == want))
    if g.kind == "append":
        A = norm_segs(start if isinstance(start, tuple) else segs_of(start))
        B = norm_segs(end if isinstance(end, tuple) else segs_of(end))
        t = strip_prefix(A, B)
        if t is None or len(t) != g.w:
            return False
        for x, y in zip(t, g.elems):
            if x is y or same_val(x, y):
                continue
            try:
                if not ctx.must(veq(ctx, x, y)):
                    return False
            except Unsupported:
                if not struct_same(ctx, x, y):
                    return False
        return True
    if g.kind == "flag":
        return type(end) is type(g.c) and end == g.c
    if g.kind == "keys removed by their own iteration":
        from .builtins_ import SmapRem
        m = g.m
        if not isinstance(end, SmapRem) or end.old is not start:
            return False
        return ctx.must(end.key == m.keyf(j))
    if g.kind == "fields written by their own iteration":
        from .interp import FamUpd
        if not isinstance(end, FamUpd) or end.old is not start:
            return False
        return ctx.must(end.key == g.m.keyf(j))
    return False


def struct_same(ctx, x, y):
    if isinstance(x, SDict) and isinstance(y, SDict):
        return set(x.d) == set(y.d) and all(struct_same(ctx, x.d[k][1], y.d[k][1]) for k in x.d)
    if isinstance(x, (SFixed, SList)) and isinstance(y, (SFixed, SList)):
        a, b = norm_segs(x.segs), norm_segs(y.segs)
        return len(a) == len(b) and all(isinstance(p, Lit) and isinstance(q, Lit) and len(p.vals) == len(q.vals) and
                                        all(struct_same(ctx, u, v) for u, v in zip(p.vals, q.vals)) for p, q in zip(a, b))
    if x is y or same_val(x, y):
        return True
    try:
        return ctx.must(veq(ctx, x, y))
    except Unsupported:
        return False


# ------------------------------------------------------------------ statements
def run_for(it, s, fr):
    ctx = it.ctx
    v = it.eval(s.iter, fr)
    where = "%s:%d" % (fr.mod.name, s.lineno)

    def one(x):
        it.assign(s.target, x, fr)
        it.block(s.body, fr)
    try:
        if isinstance(v, LazyGen):
            for x in v.it:
                try:
                    one(x)
                except ContinueExc:
                    pass
        else:
            iterate(it, v, one, where, fr)
    except BreakExc:
        return
    it.block(s.orelse, fr)


def iterate(it, v, one, where, fr=None):
    """Run one(x) for every element; BreakExc etc. propagate."""
    ctx = it.ctx
    v = it.as_iterable(v)
    the_map = getattr(v, "of_map", None)
    segs = norm_segs(segs_of(v))
    for sg in segs:
        if isinstance(sg, Lit):
            cut = len(sg.vals) > 6
            for x in sg.vals:
                if cut and merged_step(it, one, x, where):
                    continue
                try:
                    one(x)
                except ContinueExc:
                    pass
        else:
            sum_segment(it, sg, one, where, the_map)


def sum_segment(it, sg, one, where, the_map):
    ctx = it.ctx

    def body(j):
        one(sg.at(j))
    body.sg = sg
    _summarise_seg(it, sg, body, where, the_map)


def _summarise_seg(it, sg, body, where, the_map):
    # make the element function and its key available to mk_guess
    global Summary

    class S:
        elem = staticmethod(sg.at)
        elem_key = sg.key
    old = Summary
    Summary = S
    try:
        summarise(it, sg.n, body, where, the_map)
    finally:
        Summary = old


def merged_step(it, one, x, where):
    """One iteration of a long concrete loop whose paths only differ in the
    events they produce: keep them as one guarded event instead of forking."""
    ctx = it.ctx
    serial = next(core._serial)

    def probe():
        mark = len(ctx.undo)
        trl = len(ctx.trace)
        out = run_once(one, x)
        memo = {}
        ends = {loc_id(l): (l, freeze(loc_get(l), serial, memo)) for l in ctx.changed(mark, serial)}
        return out, ends, [freeze(e, serial, memo) for e in ctx.trace[trl:]]
    res = ctx.sub_explore(probe)
    if len(res) <= 1:
        return False
    cont = [(pc, o[1], o[2]) for pc, o, _ in res if o[0][0] == "cont"]
    exits = [o for _, o, _ in res if o[0][0] != "cont"]
    if len(cont) < 2:
        return False
    lids = {}
    for _, ends, _ in cont:
        for lid, (l, v) in ends.items():
            lids.setdefault(lid, l)
    new = {}
    for lid, l in lids.items():
        vals = [ends[lid][1] if lid in ends else loc_get(l) for _, ends, _ in cont]
        if all(v is vals[0] or same_val(v, vals[0]) for v in vals[1:]):
            new[lid] = (l, vals[0])
        else:
            return False
    if not any(ev for _, _, ev in cont):
        return False
    alts = ["cont"] + (["exit"] if exits else [])
    alt = alts[ctx.choose(len(alts))] if len(alts) > 1 else "cont"
    if alt == "exit":
        out = run_once(one, x)
        if out[0] == "cont":
            raise Pruned()
        reraise(out)
    ctx.assume(z3.Or([z3.And([z3.BoolVal(True)] + pc) for pc, _, _ in cont]))
    for lid, (l, v) in new.items():
        loc_set(ctx, l, v)
    if any(ev for _, _, ev in cont):
        ctx.emit(CaseEv([(z3.And([z3.BoolVal(True)] + pc), ev) for pc, _, ev in cont]))
    return True


def reraise(out):
    if out[0] == "break":
        raise BreakExc()
    if out[0] == "done":
        raise LoopDone()
    if out[0] == "return":
        raise ReturnExc(out[1])
    raise PyRaise(out[1])


def run_while(it, s, fr):
    ctx = it.ctx
    where = "%s:%d" % (fr.mod.name, s.lineno)

    def body(j):
        if not it.truth(it.eval(s.test, fr)):
            raise LoopDone()
        it.block(s.body, fr)
    # a few concrete rounds first when nothing is symbolic about the condition
    try:
        try:
            conc = ctx.shared.get("unroll_while", 0)
            for _ in range(conc):
                try:
                    body(None)
                except ContinueExc:
                    pass
            summarise(it, None, body, where)
        except LoopDone:
            it.block(s.orelse, fr)
    except BreakExc:
        return


# ------------------------------------------------------------------ comprehensions
def _sub_frame(it, fr):
    from .interp import Frame
    f2 = Frame(fr.func, fr.mod, Cell(fr.cell if fr.func is not None or isinstance(fr.cls, str) else None), cls=None)
    if fr.func is None and not isinstance(fr.cls, str):
        # module level: names resolve through the module namespace
        f2.cell = Cell(fr.cell)
    return f2


def _gen_values(it, gens, i, fr, elt):
    """Python generator of elt() over concrete comprehension clauses."""
    if i == len(gens):
        yield elt()
        return
    g = gens[i]
    if g.is_async:
        raise Unsupported("async comprehension")
    v = it.eval(g.iter, fr)
    src = v.it if isinstance(v, LazyGen) else it.concrete_iter(v)
    for x in src:
        it.assign(g.target, x, fr)
        ok = True
        for c in g.ifs:
            if not it.truth(it.eval(c, fr)):
                ok = False
                break
        if ok:
            yield from _gen_values(it, gens, i + 1, fr, elt)


def _symbolic_source(it, e, fr):
    """(segs, first iterable value) when the only clause runs over a sequence of unknown length."""
    v = it.eval(e.generators[0].iter, fr)
    if isinstance(v, LazyGen):
        return v, False
    v = it.as_iterable(v)
    sym = any(not isinstance(s, Lit) for s in norm_segs(segs_of(v)))
    return v, sym


def _map_symbolic(it, e, v, fr):
    ctx = it.ctx
    if len(e.generators) != 1 or e.generators[0].ifs:
        raise Unsupported("filtered comprehension over a sequence of unknown length")
    g = e.generators[0]
    out = []

    def elt(x):
        f2 = _sub_frame(it, fr)
        it.assign(g.target, x, f2)
        return it.eval(e.elt, f2)
    for s in norm_segs(segs_of(v)):
        if isinstance(s, Lit):
            out.append(Lit([elt(x) for x in s.vals]))
            continue
        j = z3.Const(ctx.fresh_name("j"), z3.IntSort())

        def probe(s=s, j=j):
            ctx.idx_stack.append(j)
            try:
                ctx.assume(z3.And(j >= 0, j < s.n))
                ctx.instantiate(j)
                ax0 = len(ctx.axiom_log)
                m = len(ctx.undo)
                r = elt(s.at(j))
                if ctx.changed(m, 0):
                    raise Unsupported("comprehension with side effects")
                return r, list(ctx.axiom_log[ax0:])
            finally:
                ctx.idx_stack.pop()
        try:
            res = ctx.sub_explore(probe)
        except PyRaise:
            raise Unsupported("comprehension element may raise")
        if len(res) != 1:
            raise Unsupported("comprehension element with several cases")
        val, axs = res[0][1]
        axs = [a for a in axs if mentions(a, j)]

        def at(k, val=val, axs=axs, j=j):
            kt = k if z3.is_expr(k) else I(k)
            for a in axs:
                ctx.axiom(sub_e(a, j, kt))
            return sub_v(val, j, kt)
        key = s.key if is_int(val) and is_int(s.at(j)) and z3.simplify(zi(val) - zi(s.at(j))).eq(I(0)) else None
        out.append(Gen(s.n, at, key))
    return SList(norm_segs(out))


def comprehension(it, e, fr, kind):
    v, sym = _symbolic_source(it, e, fr)
    if sym:
        return _map_symbolic(it, e, v, fr)
    f2 = _sub_frame(it, fr)
    vals = list(_first(it, e, v, f2, lambda: it.eval(e.elt, f2)))
    return SList(norm_segs([Lit(vals)]))


def _first(it, e, v, f2, elt):
    g = e.generators[0]
    src = v.it if isinstance(v, LazyGen) else it.concrete_iter(v)
    for x in src:
        it.assign(g.target, x, f2)
        if all(it.truth(it.eval(c, f2)) for c in g.ifs):
            yield from _gen_values(it, e.generators, 1, f2, elt)


def genexp(it, e, fr):
    v, sym = _symbolic_source(it, e, fr)
    if sym:
        return _map_symbolic(it, e, v, fr)
    f2 = _sub_frame(it, fr)
    return LazyGen(_first(it, e, v, f2, lambda: it.eval(e.elt, f2)))


def dictcomp(it, e, fr):
    v, sym = _symbolic_source(it, e, fr)
    if sym:
        raise Unsupported("dict comprehension over a sequence of unknown length")
    f2 = _sub_frame(it, fr)
    d = SDict({})
    for kv, vv in _first(it, e, v, f2, lambda: (it.eval(e.key, f2), it.eval(e.value, f2))):
        dk = dkey(kv)
        if dk is None and kv is not None:
            raise Unsupported("symbolic key in a dict comprehension")
        d.d[dk] = (kv, vv)
    return d


def reduce_(it, a):
    f, seq = a[0], a[1]
    cell = Cell()
    if len(a) > 2:
        cell.vars["acc"] = a[2]
    else:
        vals = segs_of(it.as_iterable(seq))
        if not vals or not isinstance(vals[0], Lit):
            raise Unsupported("reduce without initial value over a sequence of unknown length")
        cell.vars["acc"] = vals[0].vals[0]
        seq = SList(norm_segs((Lit(vals[0].vals[1:]),) + tuple(vals[1:])))

    def one(x):
        it.ctx.setitem(cell.vars, "acc", it.call(f, [cell.vars["acc"], x], {}))
    iterate(it, seq, one, "functools.reduce")
    return cell.vars["acc"]
