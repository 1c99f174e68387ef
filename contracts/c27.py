"""C27: permitting joins tells all routers, for the time asked for; the LED follows.

permit_ncp with any integer; handle_znp on every message of the command table, on every
firmware, and before the firmware is known."""
from contracts.incoming import *

MODULES = ["zigpy_cc.zigbee.application"]
ASSUMES = ["assertions are enabled (python without -O)"]


def g_permit(ctx, it):
    A = started(ctx, it)
    t = ctx.int("time")
    ctx.inputs["time"] = t
    A.cut()
    dflt = ctx.choose(2)
    r = A.coro("permit_ncp") if dflt else A.coro("permit_ncp", t)
    reqs = [b for b, h in A.calls("request")]
    other = A.calls("raw")
    ctx.prove("nothing else is sent", not other and not A.calls("task"))
    if dflt:
        t = SInt(I(60))
    ok = z3.And(zi(t) >= 0, zi(t) <= 254)
    if r.raised:
        ctx.prove("only a time out of range is refused", z3.Not(ok))
        ctx.prove("a refused request sends nothing", not reqs)
        return
    ctx.prove("a time out of range is refused", ok)
    if not ctx.prove("one request is sent", len(reqs) == 1):
        return
    b = reqs[0]
    prove_eq(ctx, "it is a device management command", b["subsystem"], enum(it, "zigpy_cc.types:Subsystem.ZDO"))
    prove_eq(ctx, "it permits joining", b["command"], "mgmtPermitJoinReq")
    p = b["payload"]
    if ctx.prove("it has the parameters of the command", isinstance(p, SDict) and set(p.d) == {"addrmode", "dstaddr", "duration", "tcsignificance"}):
        prove_eq(ctx, "sent as a broadcast", int_of(it, p.d["addrmode"][1]), 15)
        prove_eq(ctx, "to all routers and the coordinator", int_of(it, p.d["dstaddr"][1]), 0xFFFC)
        prove_eq(ctx, "for the time asked for", p.d["duration"][1], t)


def is_led(ctx, it, b):
    return isinstance(b["command"], str) and b["command"] == "ledControl"


def led(ctx, it, A, name, on):
    """One LED request with this mode."""
    reqs = led_requests(A)
    if not ctx.prove(name + ": one LED command", len(reqs) == 1):
        return
    b = reqs[0]
    prove_eq(ctx, name + ": LED command", b["command"], "ledControl")
    prove_eq(ctx, name + ": of the UTIL subsystem", b["subsystem"], enum(it, "zigpy_cc.types:Subsystem.UTIL"))
    p = b["payload"]
    if ctx.prove(name + ": LED parameters", isinstance(p, SDict) and set(p.d) == {"ledid", "mode"}):
        prove_eq(ctx, name, int_of(it, p.d["mode"][1]), SInt(z3.If(on, I(1), I(0))))


def g_led(ss, cmd):
    n = get(cmd, "name")

    def fn(ctx, it):
        A = started(ctx, it)
        seq = ctx.int("sequence", 0, 255) if n.endswith("Rsp") and ctx.choose(2) else None
        o, v = made_of_values(ctx, it, ss, cmd, "AREQ", seq)
        ctx.inputs["product"] = A.product
        has = ctx.branch(zi(A.product) != 1)
        handle(A, o)
        if ss.name == "ZDO" and n in ("permitJoinInd", "mgmtPermitJoinRsp") and has:
            if n == "permitJoinInd":
                led(ctx, it, A, "the LED is on while joining is open", zi(v["duration"]) != 0)
            else:
                led(ctx, it, A, "the LED is on when joining was opened", z3.BoolVal(True))
            return
        reqs = led_requests(A)
        ctx.prove("without LED control the LED is not touched" if not has else "no other message touches the LED", not any(is_led(ctx, it, b) for b in reqs))
        ctx.prove("nothing is sent", not reqs and not A.calls("raw"))
    return fn


def g_early(ctx, it):
    """Before start-up has read the version."""
    A = App(ctx, it, start=False)
    A.ctx.setitem(A.app.attrs, "_api", A.api)
    E = {get(c, "name"): (s, c) for s, c in commands(it.w) if s.name == "ZDO"}
    n = ("permitJoinInd", "mgmtPermitJoinRsp")[ctx.choose(2)]
    o, v = made_of_values(ctx, it, *E[n])
    handle(A, o)
    ctx.prove("the LED is not touched before the firmware is known", not led_requests(A))


def g_form(ctx, it):
    """Forming the network closes joining: the LED goes off."""
    it.w.get("zigpy_cc.zigbee.start_znp:start_znp")

    def start(i, a, k):
        return Coro("start_znp", lambda: ctx.str("status"))
    ctx.contracts["zigpy_cc.zigbee.start_znp:start_znp"] = start
    it.w.get("zigpy_cc.types:NetworkOptions")
    ctx.contracts["zigpy_cc.types:NetworkOptions.__init__"] = lambda i, a, k: None
    A = started(ctx, it)
    has = ctx.branch(zi(A.product) != 1)
    A.cut()
    r = A.coro("form_network")
    ctx.prove("no exception", not r.raised, r.raised and describe_exc(r.exc))
    if has:
        led(ctx, it, A, "the LED is off after forming the network", z3.BoolVal(False))
    else:
        ctx.prove("without LED control the LED is not touched", not led_requests(A))


def g_failed(ctx, it):
    """A forming that failed changes nothing: the LED still follows."""
    it.w.get("zigpy_cc.zigbee.start_znp:start_znp")

    def start(i, a, k):
        def go():
            i.raise_(X.EX("asyncio.TimeoutError" if ctx.choose(2) else "asyncio.CancelledError"))
        return Coro("start_znp", go)
    ctx.contracts["zigpy_cc.zigbee.start_znp:start_znp"] = start
    it.w.get("zigpy_cc.types:NetworkOptions")
    ctx.contracts["zigpy_cc.types:NetworkOptions.__init__"] = lambda i, a, k: None
    A = started(ctx, it)
    has = ctx.branch(zi(A.product) != 1)
    A.cut()
    r = A.coro("form_network")
    ctx.prove("the failure is reported", r.raised)
    ctx.prove("nothing was formed, the LED is not touched", not led_requests(A))
    ctx.kept[:] = [k for k in ctx.kept if k[2] is not A.app]
    A.cut()
    E = {get(c, "name"): (s, c) for s, c in commands(it.w) if s.name == "ZDO"}
    o, v = made_of_values(ctx, it, *E["permitJoinInd"])
    handle(A, o)
    if has:
        led(ctx, it, A, "the LED is on while joining is open, also after a forming that failed", zi(v["duration"]) != 0)
    else:
        ctx.prove("without LED control the LED is not touched", not led_requests(A))


def GOALS(w):
    out = [Goal("after a failed forming", g_failed), Goal("permit", again(g_permit)), Goal("permit, others meanwhile", crossed(g_permit)), Goal("before the firmware is known", g_early), Goal("after forming the network", again(g_form))]
    for ss, cmd in commands(w):
        if ss.name == "ZDO" and get(cmd, "name") in ("permitJoinInd", "mgmtPermitJoinRsp"):
            out += [Goal("LED: ZDO.%s, %s" % (get(cmd, "name"), x), f) for x, f in during(g_led(ss, cmd))]
    return out + [Goal("LED: %s.%s" % (ss.name, get(cmd, "name")), again(g_led(ss, cmd))) for ss, cmd in commands(w)]
