"""ControllerApplication.handle_znp for every message the stick can send."""
from contracts.codec import *
from contracts.app import *

AF_IN = ("incomingMsg", "incomingMsgExt")
REPLY = {"nodeDescRsp": 0x8002, "simpleDescRsp": 0x8004, "activeEpRsp": 0x8005, "bindRsp": 0x8021, "mgmtLqiRsp": 0x8031, "mgmtPermitJoinRsp": 0x8036}
ANNOUNCE = "endDeviceAnnceInd"


def mtype(it, n):
    return enum(it, "zigpy_cc.types:CommandType." + n)


def made_of_values(ctx, it, ss, cmd, ct="AREQ", sequence=None):
    """A decoded message with arbitrary parameter values (what C05 says decoding gives)."""
    vals = values(ctx, params(get(cmd, "request")))
    o = it.call(it.w.get("zigpy_cc.zpi_object:ZpiObject"),
                [mtype(it, ct), ss, get(cmd, "name"), get(cmd, "ID"), payload(vals), get(cmd, "request")], {})
    o.attrs["sequence"] = sequence
    ctx.inputs.update({"subsystem": ss.name, "command": get(cmd, "name"), "sequence": sequence, **{"v:" + k: v for k, v in vals.items()}})
    return o, vals


def received(ctx, it, ss, cmd, sequence=None):
    """A message decoded by the code from arbitrary received bytes that are exactly as long as the layout needs."""
    N = ctx.int("len", 0).e
    g0 = ctx.array("D", N)
    if get(cmd, "name") == "mgmtLqiRsp":
        # reserved bits of neighbour entries are 0
        at0 = g0.at

        def at(k):
            v = at0(k)
            q = (k - 6) % 22
            ctx.axiom(z3.Implies(z3.And(k >= 6, q == 18), zi(v) < 128))
            ctx.axiom(z3.Implies(z3.And(k >= 6, q == 19), zi(v) < 4))
            return v
        g = Gen(g0.n, at, g0.key)
    else:
        g = g0
    data = mk_bytes((g,))
    ps = params(get(cmd, "request"))
    st, want, end = reference(ctx, g, N, ps)
    if st != "ok":
        raise Skip()
    ctx.assume(end == N)
    f = it.call(it.w.get("zigpy_cc.uart:UnpiFrame"), [mtype(it, "AREQ"), ss, get(cmd, "ID"), data], {})
    d = outcome(it, lambda: it.call(it.getattr(it.w.get("zigpy_cc.zpi_object:ZpiObject"), "from_unpi_frame"), [f], {}))
    if d.raised:
        raise Skip()            # C05
    it.setattr(d.value, "sequence", sequence)
    ctx.inputs.update({"subsystem": ss.name, "command": get(cmd, "name"), "sequence": sequence, "data": data})
    return d.value, want, g, N


class Skip(Exception):
    pass


def handle(A, o):
    """Deliver o; tasks that were started are run to their end."""
    A.cut()
    A.reply = None
    ctx, it = A.ctx, A.it
    if ctx.shared.get("when"):
        return handle_during(A, o, *ctx.shared["when"])
    r = outcome(it, lambda: it.call(it.getattr(A.app, "handle_znp"), [o], {}))
    ctx.prove("no exception", not r.raised, r.raised and describe_exc(r.exc))
    return r


WHEN = [(how, at) for how in ("start", "reconnect") for at in ("ping", "forming", "getDeviceInfo", "after") if (how, at) != ("start", "forming")]


def during(fn):
    """Goals for a message that comes in the middle of another start-up, or of a reconnection, or right after it."""
    def at(when):
        def go(ctx, it):
            ctx.shared["when"] = when
            fn(ctx, it)
        return go
    return [("%s: %s" % w, at(w)) for w in WHEN]


def handle_during(A, o, how, at):
    """Deliver o while the application, once started, is being started again on a new connection."""
    ctx, it = A.ctx, A.it
    ctx.kept[:] = [k for k in ctx.kept if k[2] is not A.app]       # a start-up changes the application
    box = Mock("message")
    box.attrs["out"] = None

    def stale(i, a, k):
        ctx.emit(Ev("stale", a, k))
        i.raise_("AttributeError", "closed")
    for n in ("request", "request_raw"):
        ctx.setitem(A.api.attrs, n, Builtin(n, stale))
    A.api = A.make_api()

    def now(x):
        if x == at and box.attrs["out"] is None:
            A.cut()
            ctx.setitem(box.attrs, "out", outcome(it, lambda: it.call(it.getattr(A.app, "handle_znp"), [o], {})))
            A.stop()

    def reply(i, b):
        now(b["command"])
        return A.starting(i, b)
    A.reply = reply
    FORM = APPCLS + ".form_network"
    it.w.get(FORM)
    ctx.contracts[FORM] = lambda i, a, k: Coro("form_network", lambda: now("forming"))
    ctx.shared["unroll_while"] = 2
    if how == "start":
        if ctx.choose(2):
            A.coro("shutdown")
        r = A.startup(False)
    else:
        it.call(it.getattr(A.app, "connection_lost"), [], {})
        tasks = [c for c, m in A.calls("task") if isinstance(c, Coro)]
        if len(tasks) != 1:
            raise Unsupported("no task reconnects")         # C25
        ctx.set(tasks[0], "used", False)
        r = outcome(it, lambda: it.await_(tasks[0]))
    if r.raised:
        raise Unsupported("starting on a healthy stick fails: %s" % describe_exc(r.exc))
    del ctx.contracts[FORM]
    A.reply = None
    now("after")
    out = box.attrs["out"]
    if out is None:
        raise Unsupported("%s does not get to %s" % (how, at))
    ctx.prove("no exception", not out.raised, out.raised and describe_exc(out.exc))
    return out


HM = ["sender", "profile", "cluster", "src_ep", "dst_ep", "message"]
HJ = ["nwk", "ieee", "parent_nwk"]


def messages(A):
    return [bound(HM, a, k) for a, k in A.calls("handle_message")]


def joins(A):
    return [bound(HJ, a, k) for a, k in A.calls("handle_join")]


def known(A):
    k = A.calls("known")
    return k[-1][0] if k else None


def lookups(A):
    return A.calls("get_device")


def looked_up(ctx, A, nwk=None, ieee=None):
    """The sender is looked up by the address it has."""
    L = lookups(A)
    if ctx.prove("the sender is looked up", len(L) == 1):
        i, n = L[0]
        if ieee is not None:
            return ctx.prove("by its long address", i is not None) and prove_eq(ctx, "by the long address of the message", i, ieee)
        return ctx.prove("by its short address", i is None and n is not None) and prove_eq(ctx, "by the short address of the message", n, nwk)
    return False


def int_of(it, v):
    return it.call(B.REG["int"], [v], {})


def commands(w):
    return [(ss, cmd) for ss, cmd, kind, ps in table(w) if kind == "request" and decodable(ps)]


def own(ss, cmd):
    n = get(cmd, "name")
    return (ss.name == "AF" and n in AF_IN) or (ss.name == "ZDO" and (n in REPLY or n == ANNOUNCE))


def led_requests(A):
    """LED commands started by the message: the tasks run to their end."""
    it, ctx = A.it, A.ctx
    tasks = list(A.calls("task"))
    before = A.calls("request")
    A.cut()
    for c, m in tasks:
        if isinstance(c, Coro):
            ctx.set(c, "used", False)
            outcome(it, lambda: it.await_(c))
    ctx.prove("nothing goes to a connection that is closed", not A.calls("stale"))
    return [b for b, h in before + A.calls("request")]
