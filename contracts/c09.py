"""C09: at most one synchronous request is in flight.

API.request_raw / _request_raw for any object, with every outcome of encoding, writing
and waiting: the port is written once, only while the one lock of the connection is held,
after the wait for the response is registered; the lock stays held until the wait is over
and is free on every way out."""
from contracts.lib import *
from contracts.req import Env

ASSUMES = ["asyncio.Lock: at most one task holds it, async with releases it on every exit",
           "asyncio.wait_for ends with the result of the wait, TimeoutError or CancelledError"]


def under_(b):
    return b.e if isinstance(b, SBool) else z3.BoolVal(bool(b))


def outgoing(ct):
    def fn(ctx, it):
        env = Env(ctx, it)
        obj = env.obj(ct)
        sub, cmd = obj.attrs["subsystem"], obj.attrs["command"]
        f = env.follow()
        ctx.inputs["ct"] = ct
        ctx.require_reachable("any request")
        ctx.prove("a connection has one lock for its requests", len(env.locks) >= 1)
        r = env.request(obj, f)
        t = list(ctx.trace)
        sends = [e for e in t if e.kind == "send"]
        if not ctx.prove("a request is written at most once", len(sends) <= 1):
            return
        for e in sends:
            ctx.prove("a request is written only while the lock is held", e.args[1] == 1)
            ctx.prove("what is written is the encoded request", e.args[0] is env.frame)
        for e in t:
            if e.kind in ("await", "answer", "timeout", "cancel"):
                ctx.prove("the lock stays held until the response arrived or the request failed", e.args[-1] == 1)
        ctx.prove("the way is free again when the request is over", env.held() == 0)
        waits = [e for e in t if e.kind == "await"]
        ctx.prove("a request waits at most once", len(waits) <= 1)
        if waits:
            ctx.prove("a request waits only for something it has written", bool(sends) and t.index(sends[0]) < t.index(waits[0]))
        if ct == "SREQ" and sends:
            reg = [v for _, v in sends[0].args[2]]
            if ctx.prove("the wait for the response is registered before the request is written", len(reg) == 1):
                m = reg[0].attrs["matcher"].attrs
                T = enum(it, "zigpy_cc.types:CommandType.SRSP")
                prove_eq(ctx, "the wait is for a synchronous response", m["command_type"], T)
                prove_eq(ctx, "the wait is for the subsystem of the request", m["subsystem"], sub)
                prove_eq(ctx, "the wait is for the command of the request", m["command"], cmd)
                ctx.prove("any response to the command is accepted", not it.truth(m["payload"]))
                if waits:
                    ctx.prove("the request waits for its response", waits[0].args[0] is reg[0].attrs["future"])
        if ct == "AREQ" and sends:
            ss = lambda n: under_(it.compare("Eq", sub, enum(it, "zigpy_cc.types:Subsystem." + n)))
            is_cmd = lambda n: under_(it.compare("Eq", cmd, n))
            reset = z3.Or(z3.And(ss("SYS"), is_cmd("resetReq")), z3.And(ss("SAPI"), is_cmd("systemReset")))
            if waits:
                ctx.prove("an asynchronous request is over once it is written", reset)
                reg = [v for _, v in sends[0].args[2]]
                if ctx.prove("the wait for the reset is registered before it is written", len(reg) == 1 and waits[0].args[0] is reg[0].attrs["future"]):
                    m = reg[0].attrs["matcher"].attrs
                    prove_eq(ctx, "a reset is over with the stick's indication", m["command_type"], enum(it, "zigpy_cc.types:CommandType.AREQ"))
                    prove_eq(ctx, "a reset is over with an indication of the system", m["subsystem"], enum(it, "zigpy_cc.types:Subsystem.SYS"))
                    prove_eq(ctx, "a reset is over with the indication of a reset", m["command"], "resetInd")
            elif not r.raised:
                ctx.prove("a reset is in flight until the stick reports it", z3.Not(reset))
        if ct == "SREQ" and not r.raised:
            ctx.prove("a synchronous request ends normally only with its response", any(e.kind == "answer" for e in t))
    return fn


def no_write(ctx, it):
    """The other parts of the API never write to the port."""
    env = Env(ctx, it)
    def request_raw(i, a, k):
        o = Coro("request_raw", lambda: ctx.emit(Ev("raw", a)) or Mock("rsp", payload=SDict({})))
        return o
    it.w.get("zigpy_cc.api:API.request_raw")
    ctx.contracts["zigpy_cc.api:API.request_raw"] = request_raw
    obj = Mock("obj")
    ctx.contracts["zigpy_cc.zpi_object:ZpiObject.from_command"] = lambda i, a, k: obj
    it.w.get("zigpy_cc.zpi_object:ZpiObject.from_command")
    which = ctx.choose(3)
    ctx.require_reachable("other parts of the API")
    ss = enum(it, "zigpy_cc.types:Subsystem.SYS")
    got = lambda: [x[0] for x in calls(ctx, "raw")]
    if which == 0:
        r = run(it, it.call(it.getattr(env.api, "request"), [ss, "ping", SDict({}), 5, SList(())], {}))
        ctx.prove("request goes through request_raw once", len(got()) == 1 and len(got()[0]) >= 2 and got()[0][1] is obj)
    elif which == 1:
        r = run(it, it.call(it.getattr(env.api, "version"), [], {}))
        ctx.prove("version goes through request_raw once", len(got()) == 1)
    else:
        r = outcome(it, lambda: it.call(it.getattr(env.api, "wait_for"), [enum(it, "zigpy_cc.types:CommandType.AREQ"), ss, "resetInd"], {}))
    ctx.prove("nothing is written outside request_raw", not any(e.kind == "send" for e in ctx.trace))
    ctx.prove("no exception", not r.raised)


def left_alone(ctx, it):
    """What else happens on a connection while a request is in flight leaves the lock with it."""
    env = Env(ctx, it)
    obj = message(ctx, it)
    it.w.get("zigpy_cc.zpi_object:ZpiObject.from_unpi_frame")

    def parse(i, a, k):
        if ctx.choose(2):
            i.raise_("KeyError" if ctx.choose(2) else "ValueError", "cannot be parsed")
        return obj
    ctx.contracts["zigpy_cc.zpi_object:ZpiObject.from_unpi_frame"] = parse
    it.w.get("zigpy_cc.api:Waiter.match")
    ctx.contracts["zigpy_cc.api:Waiter.match"] = lambda i, a, k: SBool(env.W.match(a[0].key, a[1])) \
        if isinstance(a[0], FamObj) and len(a) == 2 and a[1] is obj else NotImplemented
    app = Mock("app")

    def handle(i, a, k):
        if ctx.choose(2):
            i.raise_("RuntimeError", "of the application")
    app.attrs.update(handle_znp=Builtin("handle_znp", handle), connection_lost=Builtin("connection_lost", lambda i, a, k: ctx.emit(Ev("lost"))))
    it.call(it.getattr(env.api, "set_application"), [app], {})
    ctx.kept[:] = [k for k in ctx.kept if k[2] is not env.api]
    ctx.keep(env.api, ("_waiters", "_waiter_id", "_uart", "_proto_ver"))
    if not ctx.prove("a connection has one lock for its requests", len(env.locks) >= 1):
        return
    where = [(n, v) for n, v in env.api.attrs.items() if any(v is m for m in env.locks)]
    n = ctx.choose(2)
    for m in env.locks:
        ctx.setitem(m.attrs, "held", n)
    which = ctx.choose(4)
    ctx.inputs.update(held=n, event=("message", "application lost", "wait made", "response wait made")[which])
    ctx.require_reachable("a connection whose lock is held or free")
    f = lambda name, *a: outcome(it, lambda: it.call(it.getattr(env.api, name), list(a), {}))
    if which == 0:
        f("data_received", Mock("frame"))
    elif which == 1:
        f("connection_lost")
    elif which == 2:
        f("wait_for", enum(it, "zigpy_cc.types:CommandType.AREQ"), enum(it, "zigpy_cc.types:Subsystem.SYS"), "resetInd")
    else:
        w = f("wait_for", enum(it, "zigpy_cc.types:CommandType.SRSP"), enum(it, "zigpy_cc.types:Subsystem.SYS"), "ping")
        for t in [e for e in ctx.trace if e.kind == "timer"]:
            outcome(it, lambda: it.call(t.args[1], list(t.args[2]) if len(t.args) > 2 else [], {}))
    ctx.prove("whoever is in flight keeps the lock, and nothing takes it away", all(m.attrs["held"] == n for m in env.locks))
    ctx.prove("the connection keeps its lock", all(env.api.attrs.get(k) is v for k, v in where))
    ctx.prove("nothing is written", not any(e.kind == "send" for e in ctx.trace))


GOALS = [Goal("messages, losses and waits leave the lock alone", left_alone)] + [Goal("request: " + c, outgoing(c)) for c in ("SREQ", "AREQ", "POLL", "SRSP")] + [Goal("nothing else writes", no_write)]
