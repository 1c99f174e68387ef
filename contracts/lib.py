"""Shared pieces of the contracts."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import z3
from pyvc.core import *
from pyvc import core, interp, builtins_ as B, ext as X, loops
from pyvc.goal import Goal, run_goal, describe_exc


class Out:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.raised = exc is not None

    def is_a(self, it, *names):
        return self.raised and any(it.exc_matches(self.exc, interp.EXC[n]) for n in names)


def outcome(it, fn):
    """Run fn, catching an exception of the program."""
    try:
        return Out(fn())
    except PyRaise as e:
        return Out(exc=e.exc)


def run(it, coro):
    """Await a coroutine to its end."""
    return outcome(it, lambda: it.await_(coro))


def enum_sym(ctx, cls, name):
    e = ctx.int(name)
    ctx.assume(z3.Or([e.e == m.value for m in cls.members.values()]))
    return SInt(e.e, cls)


def blen(v):
    return segs_len(segs_of(v))


def transport(ctx, it):
    def write(i, a, k):
        i.ctx.emit(Ev("write", a[0]))
    return Mock("transport", write=Builtin("write", write), close=Builtin("close", lambda i, a, k: i.ctx.emit(Ev("close"))))


def new_obj(it, dotted, **attrs):
    return SObj(it.w.get(dotted), attrs)


def only(obj, *names):
    """The state the contract describes is all the state there is."""
    more = sorted(set(obj.attrs) - set(names))
    if more:
        raise Unsupported("%s has state the contract does not describe: %s" % (obj.cls.name, ", ".join(more)))
    return obj


API_STATE = ("_config", "_lock", "_waiter_id", "_waiters", "_app", "_proto_ver", "_uart")
GATEWAY_STATE = ("_parser", "_connected_future", "_api", "_transport", "_open")


def gateway(ctx, it, api=None):
    tr = transport(ctx, it)
    gw = it.call(it.w.get("zigpy_cc.uart:Gateway"), [api, None], {})
    it.call(it.getattr(gw, "connection_made"), [tr], {})
    ctx.keep(only(gw, *GATEWAY_STATE))
    return gw, tr


def new_api(ctx, it):
    """An API, whose table of waits and wait counter are all that changes."""
    api = only(it.call(it.w.get("zigpy_cc.api:API"), [SDict({})], {}), *API_STATE)
    return api


def enum(it, dotted):
    """zigpy_cc.types:CommandType.SREQ"""
    mod, _, path = dotted.partition(":")
    v = it.w.load(mod).ns
    cls, mem = path.split(".")
    return v[cls].members[mem]


def attr(it, obj, name):
    """An attribute the contract speaks about; gone -> outside the contract, not violated."""
    v = it.getattr(obj, name, None) if not isinstance(obj, SObj) else obj.attrs.get(name, MISSING)
    if v is MISSING:
        raise Unsupported("the contract's attribute %s is gone" % name)
    return v


def empty_bytes(ctx, name, v):
    if not isinstance(v, (bytes, SBytes, SByteArray)):
        raise Unsupported("not bytes: %r" % (v,))
    return ctx.prove(name, blen(v) == 0)


def unchanged(ctx, name, v, old):
    return prove_eq(ctx, name, v, old)


def sub_gen(g, start, n):
    """Elements start..start+n-1 of the Gen g."""
    at = g.at
    return Gen(z3.simplify(n), (lambda k, at=at, s=start: at(z3.simplify(s + k))), (g.key[0], z3.simplify(g.key[1] + start)))


def frame_array(ctx, n):
    """The bytes of a received frame with n payload bytes: start byte and length right, the rest arbitrary."""
    N = z3.simplify(n + 5)
    g = ctx.array("F", N)
    ctx.assume(zi(g.at(I(0))) == 0xFE)
    ctx.assume(zi(g.at(I(1))) == n)
    return g, N


SUBSYSTEMS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21)


def good_header(g):
    b = zi(g.at(I(2)))
    return z3.And(b / 32 <= 3, z3.Or([b % 32 == s for s in SUBSYSTEMS]))


def checksum(ctx, g, n):
    return xor_fold(ctx, I(0), (sub_gen(g, I(1), z3.simplify(n + 3)),))


# ------------------------------------------------------------------ pending waits of any number
PENDING, DONE, CANCELLED = 0, 1, 2


class Waits:
    """An arbitrary table of pending waits: identity -> Waiter with arbitrary contents."""

    def __init__(self, ctx, it, all_pending=False):
        self.ctx, self.it = ctx, it
        Z, B_ = z3.IntSort(), z3.BoolSort()
        f = lambda n, *s: ctx.func("w." + n, *s)[0]
        self.hasf, self.keyf, self.idxf = f("has", Z, B_), f("key", Z, Z), f("idx", Z, Z)
        self.ct, self.ss, self.cmd = f("ct", Z, Z), f("ss", Z, Z), f("cmd", Z, StrSort)
        self.shape, self.v1, self.v2 = f("shape", Z, Z), f("v1", Z, ValSort), f("v2", Z, ValSort)
        self.seq, self.seqd = f("seq", Z, Z), f("hasseq", Z, B_)
        self.st0 = f("state", Z, Z)
        self.n = ctx.int("waits", 0).e
        types = it.w.load("zigpy_cc.types").ns
        CT, SS = types["CommandType"], types["Subsystem"]

        def enumv(fn, cls):
            def rd(i, k):
                e = fn(k)
                ctx.axiom(z3.Or([e == m.value for m in cls.members.values()]))
                return SInt(e, cls)
            return rd

        def pay(i, k):
            s = self.shape(k)
            ctx.axiom(z3.And(s >= 0, s <= 3))
            if ctx.branch(s == 0):
                return None
            if ctx.branch(s == 1):
                return SDict({})
            d = {"a": ("a", SVal(self.v1(k)))}
            if not ctx.branch(s == 2):
                d["b"] = ("b", SVal(self.v2(k)))
            return SDict(d)
        mcls = it.w.get("zigpy_cc.api:Matcher")
        self.matchers = Fam("matcher", {"command_type": enumv(self.ct, CT), "subsystem": enumv(self.ss, SS),
                                        "command": lambda i, k: SStr(self.cmd(k)), "payload": pay}, mcls)

        def state(i, k):
            e = self.st0(k)
            ctx.axiom(z3.And(e >= 0, e <= 2))
            if all_pending:
                ctx.axiom(e == 0)
            return SInt(e)
        self.futures = Fam("future", {"state": state}, None)
        ff = self.futures.fields

        def st(k):
            return B.fam_read(it, self.futures, "state", k)

        def setres(i, k):
            def go(i2, a, kw):
                if not ctx.branch(zi(st(k)) == PENDING):
                    i.raise_(X.EX("asyncio.InvalidStateError"), "invalid state")
                it.setattr(FamObj(self.futures, k), "state", DONE)
                ctx.emit(Ev("complete", SInt(k), a[0]))
            return Builtin("set_result", go)

        def cancel(i, k):
            def go(i2, a, kw):
                if not ctx.branch(zi(st(k)) == PENDING):
                    return False
                it.setattr(FamObj(self.futures, k), "state", CANCELLED)
                ctx.emit(Ev("cancelled", SInt(k)))
                return True
            return Builtin("cancel", go)

        def setexc(i, k):
            def go(i2, a, kw):
                if not ctx.branch(zi(st(k)) == PENDING):
                    i.raise_(X.EX("asyncio.InvalidStateError"), "invalid state")
                it.setattr(FamObj(self.futures, k), "state", DONE)
                ctx.emit(Ev("failed", SInt(k), a[0]))
            return Builtin("set_exception", go)
        ff["done"] = lambda i, k: Builtin("done", lambda i2, a, kw: mk_bool(zi(st(k)) != PENDING))
        ff["cancelled"] = lambda i, k: Builtin("cancelled", lambda i2, a, kw: mk_bool(zi(st(k)) == CANCELLED))
        ff["set_result"], ff["cancel"], ff["set_exception"] = setres, cancel, setexc

        def seq(i, k):
            if not ctx.branch(self.seqd(k)):
                return None
            e = self.seq(k)
            ctx.axiom(z3.And(e >= 0, e <= 255))
            return SInt(e)
        self.fam = Fam("waiter", {"id": lambda i, k: SInt(k), "matcher": lambda i, k: FamObj(self.matchers, k),
                                  "future": lambda i, k: FamObj(self.futures, k), "timeout": 10000, "sequence": seq},
                       it.w.get("zigpy_cc.api:Waiter"))
        self.map = SMap(self.hasf, self.fam, self.n, self.keyf, self.idxf)

    def install(self, api):
        attr(self.it, api, "_waiters")
        api.attrs["_waiters"] = self.map
        return self

    def present(self, q):
        """q is a pending wait at the start (with its place in the order)."""
        i = self.idxf(q)
        self.ctx.axiom(self.hasf(q) == z3.And(i >= 0, i < self.n, self.keyf(i) == q))
        self.ctx.axiom(z3.Implies(self.hasf(q), q >= 0))
        return self.hasf(q)

    def match(self, q, obj):
        p = {k: v[1] for k, v in obj.attrs["payload"].d.items()}
        sh = self.shape(q)
        return z3.And(self.ct(q) == zi(obj.attrs["command_type"]), self.ss(q) == zi(obj.attrs["subsystem"]),
                      self.cmd(q) == str_term(self.ctx, obj.attrs["command"]),
                      z3.Implies(sh >= 2, self.v1(q) == p["a"].e), z3.Implies(sh >= 3, self.v2(q) == p["b"].e))

    def state(self, q):
        return zi(B.fam_read(self.it, self.futures, "state", q))

    def state0(self, q):
        e = self.st0(q)
        self.ctx.axiom(z3.And(e >= 0, e <= 2))
        return e


def message(ctx, it, sequence=None):
    """A decoded message with arbitrary header and opaque parameters a, b, c."""
    T = it.w.load("zigpy_cc.types").ns
    o = new_obj(it, "zigpy_cc.zpi_object:ZpiObject", command_type=enum_sym(ctx, T["CommandType"], "ct"),
                subsystem=enum_sym(ctx, T["Subsystem"], "ss"), command=ctx.str("command"), command_id=ctx.int("cid", 0, 255),
                payload=SDict({k: (k, ctx.val("p." + k)) for k in "abc"}), parameters=None, sequence=sequence)
    return o


def events(ctx, trace, kinds=None):
    """(event, guard, scope) of every event, inside loops too; guard holds when it happens."""
    for e in trace:
        if isinstance(e, (LoopEv, CaseEv)):
            for cond, evs in e.cases:
                g = cond if isinstance(e, CaseEv) else z3.And(e.j >= 0, e.j < e.n, cond)
                for x, g2 in events(ctx, evs, kinds):
                    yield x, z3.And(g, g2)
        elif kinds is None or e.kind in kinds:
            yield e, z3.BoolVal(True)


def under(ctx, guard):
    class S:
        def __enter__(s):
            s.c = ctx.scoped()
            s.c.__enter__()
            ctx.solver.add(guard)
            return ctx.sat()

        def __exit__(s, *a):
            return s.c.__exit__(*a)
    return S()


def feasible(ctx, g):
    with under(ctx, g) as ok:
        return ok


def calls(ctx, kind):
    """Arguments of the events of this kind that can happen on this path."""
    return [e.args for e, g in events(ctx, ctx.trace, (kind,)) if feasible(ctx, g)]
