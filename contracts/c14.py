"""C14: sending reports its true outcome and frees its slot.

request, mrequest, broadcast, permit_ncp with every outcome of the request handed to the
API (accepted, refused with any status, any other error, cancelled) and cancellation at
every other suspension point; the semaphore counts are those the application's own startup set."""
from contracts.app import *

MODULES = ["zigpy_cc.zigbee.application", "zigpy_cc.zpi_object"]
ASSUMES = ["asyncio.Semaphore(n) lets at most n tasks in at once and takes a place back on release", "a refusal has a status other than 0 (C10)"]

KINDS = ("unicast", "device management", "group", "broadcast", "permit")
TEXT = (str, SStr)


def made(ctx, it):
    """from_cluster gives an arbitrary command (C13 says which)."""
    q = "zigpy_cc.zpi_object:ZpiObject.from_cluster"
    it.w.get(q)

    def fc(i, a, k):
        o = message(ctx, i)
        o.attrs["sequence"] = ctx.int("object sequence", 0, 255)
        return o
    ctx.contracts[q] = fc


def send(A, ctx, it, kind):
    dev = Mock("device", nwk=SInt(ctx.int("nwk", 0, 65535).e, "zigpy.types.NWK"), ieee=SFixed("zigpy.types.EUI64", (ctx.array("ieee", I(8)),)))
    data = ctx.bytes("data")
    p, c, s, d, q = ctx.int("profile", 0, 65535), ctx.int("cluster", 0, 65535), ctx.int("src", 0, 255), ctx.int("dst", 0, 255), ctx.int("seq", 0, 255)
    ctx.inputs.update(profile=p, cluster=c, src_ep=s, dst_ep=d, seq=q)
    kw = {}
    if kind == "unicast":
        made(ctx, it)
        if ctx.choose(2):
            kw = {"expect_reply": bool(ctx.choose(2)), "use_ieee": bool(ctx.choose(2))}
        return A.coro("request", dev, p, c, s, d, q, data, **kw)
    if kind == "device management":
        return A.coro("request", dev, 0, 2, 0, 0, q, mk_bytes((Lit([1, 2, 3]),)))
    if kind == "group":
        made(ctx, it)
        if ctx.choose(2):
            kw = {"hops": ctx.int("hops", 0, 255), "non_member_radius": ctx.int("nmr", 0, 7)}
        return A.coro("mrequest", SInt(ctx.int("group", 0, 65535).e, "zigpy.types.Group"), p, c, None if ctx.choose(2) else s, q, data, **kw)
    if kind == "broadcast":
        made(ctx, it)
        BA = it.w.ext["zigpy.types.BroadcastAddress"]
        x = ctx.choose(3)
        a = [SInt(ctx.int("to", 0, 65535).e, BA)] if x == 1 else [ctx.int("to", 0, 65535)] if x == 2 else []
        ctx.inputs["to"] = a[0] if a else 0xFFFD
        return A.coro("broadcast", p, c, s, d, ctx.int("grpid", 0, 65535), ctx.int("radius", 0, 255), q, data, *a)
    if ctx.choose(2):
        return A.coro("permit_ncp")
    return A.coro("permit_ncp", ctx.int("time", 0, 254))


def goal(kind):
    def fn(ctx, it):
        A = started(ctx, it)
        st = ctx.int("status", 1, 255)
        ctx.inputs.update(kind=kind, product=A.product, status=st)
        seen = {}

        def outcome_(i, b):
            L = [m for m in A.locks() if m.attrs["held"]]
            ctx.emit(Ev("slots", tuple(m.attrs["held"] for m in L), tuple(m.attrs["count"] for m in L)))
            c = ("ok", "refused", "error", "timeout", "cancel")[ctx.choose(5)]
            ctx.emit(Ev("outcome", c))
            if c == "refused":
                command_error(i, st)
            if c == "error":
                i.raise_("OSError", "port gone")
            if c == "timeout":
                i.raise_(X.EX("asyncio.TimeoutError"))
            if c == "cancel":
                i.raise_(X.EX("asyncio.CancelledError"))
            return Mock("response")
        A.raw = A.reply = outcome_

        def suspend(i, what):
            if ctx.choose(2):
                ctx.emit(Ev("cancelled_at", what[0]))
                i.raise_(X.EX("asyncio.CancelledError"))
        ctx.shared["suspend"] = suspend
        A.cut()
        r = send(A, ctx, it, kind)
        sent = A.calls("raw") + A.calls("request")
        oc = [x[0] for x in A.calls("outcome")]
        cancelled = A.calls("cancelled_at")
        ctx.prove("the message is sent at most once", len(sent) <= 1)
        ctx.prove("the place in the limit is given back", A.held() == 0 and all(m.attrs["held"] == 0 for m in A.locks()))
        for hs, cs in A.calls("slots"):
            if ctx.prove("the message takes one place in the limit", hs == (1,)):
                prove_eq(ctx, "the limit is that of the stick", cs[0], SInt(z3.If(zi(A.product) == 1, I(16), I(2))))
        if not cancelled:
            ctx.prove("the message is sent", len(sent) == 1)
        if len(sent) != 1:
            ctx.prove("without sending there is no success", r.raised)
            return
        o = oc[0]
        if kind == "permit":
            ctx.prove("an error is not hidden", o == "ok" or r.raised)
            if not cancelled:
                ctx.prove("no error of its own", o != "ok" or not r.raised)
            return
        if r.raised:
            ctx.prove("accepted and refused messages give a status", bool(cancelled) or o not in ("ok", "refused"))
            return
        v = r.value
        if not ctx.prove("a status and a text are given", isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], TEXT)):
            return
        ctx.prove("status 0 exactly when the stick accepted the message", (zi(v[0]) == 0) == z3.BoolVal(o == "ok"))
        if o == "refused":
            prove_eq(ctx, "the stick's status is given", v[0], st)
        ctx.prove("a message with no answer gives no status", o in ("ok", "refused"))
    return fn


GOALS = [Goal(k, again(goal(k))) for k in KINDS]
