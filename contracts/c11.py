"""C11: waits are unique, end once, and are always removed.

wait_for on an arbitrary table; the timer's callback in every state of the wait;
Waiter.wait and set_result; API.data_received removes and completes every matching wait;
the times of synchronous requests, resets and others."""
from contracts.lib import *
from contracts.req import Env
from contracts.c08 import receive

ASSUMES = ["loop.call_later(d, f) calls f once, d seconds later; asyncio.wait_for(f, t) gives up t seconds later and cancels f",
           "the correlating fields of a wait are parameters of the awaited command"]


def env_(ctx, it):
    env = Env(ctx, it, False, False, False, False)
    # class invariant: identities in the table were given out before, and no wait in it is done
    env.inv = lambda q: (ctx.axiom(z3.Implies(env.W.present(q), z3.And(q < env.top, env.W.state0(q) != DONE))), env.W.present(q))[1]
    return env


def register(ctx, it, env, named=True):
    T = it.w.load("zigpy_cc.types").ns
    ct, ss, cmd = enum_sym(ctx, T["CommandType"], "ct"), enum_sym(ctx, T["Subsystem"], "ss"), ctx.str("cmd")
    tmo = ctx.int("timeout", 1)
    seq = None if ctx.choose(2) else ctx.int("seq", 0, 255)
    pay = (None, SDict({}), SDict({"a": ("a", ctx.val("want"))}))[ctx.choose(3)]
    kw = {"payload": pay, "sequence": seq}
    dflt = ctx.choose(2)
    if not dflt:
        kw["timeout"] = tmo
    ctx.inputs.update(timeout=tmo, default=bool(dflt))
    w = it.call(it.getattr(env.api, "wait_for"), [ct, ss, cmd], kw)
    return w, (ct, ss, cmd, pay, seq), (10000 if dflt else tmo)


def g_register(ctx, it):
    env = env_(ctx, it)
    ctx.require_reachable("any table of waits")
    w, (ct, ss, cmd, pay, seq), tmo = register(ctx, it, env)
    i = zi(it.getattr(w, "id"))
    mp = attr(it, env.api, "_waiters")
    new = zi(attr(it, env.api, "_waiter_id"))
    ctx.prove("an identity that was never given out", i >= env.top)
    ctx.prove("an identity that is never given out again", new > i)
    ctx.prove("the wait is in the table", mp.has(i))
    st = [v for _, v in env.registered()]
    ctx.prove("under its identity", len(st) == 1 and st[0] is w)
    q = ctx.int("other").e
    with under(ctx, q != i) as ok:
        if ok:
            ctx.prove("other waits stay", mp.has(q) == env.W.map.has_init(q))
            ctx.prove("other waits are not touched", env.W.state(q) == env.W.state0(q))
    fut = w.attrs.get("future")
    ctx.prove("the wait is pending", isinstance(fut, Mock) and fut.attrs.get("state") == "pending")
    m = it.getattr(w, "matcher")
    for n, v in (("command_type", ct), ("subsystem", ss), ("command", cmd), ("payload", pay)):
        x = it.getattr(m, n)
        ctx.prove("the wait is for what was asked", x is v or z3.is_true(z3.simplify(veq(ctx, x, v))))
    s = it.getattr(w, "sequence")
    ctx.prove("the wait carries the number given", s is seq)
    timers = [e for e in ctx.trace if e.kind == "timer"]
    if ctx.prove("one timer is started", len(timers) == 1):
        d = zreal(timers[0].args[0]) * 1000
        t = z3.ToReal(zi(tmo))
        ctx.prove("the timer does not fire before the time is up", d >= t)
        ctx.prove("the timer fires shortly after the time is up", d <= t + 1000)


def g_expire(ctx, it):
    env = env_(ctx, it)
    w, _, _ = register(ctx, it, env)
    i = zi(it.getattr(w, "id"))
    timers = [e for e in ctx.trace if e.kind == "timer"]
    if len(timers) != 1:
        return
    fut = w.attrs["future"]
    # what may have happened since: the wait was completed or released (and removed), cancelled, or neither
    fut_state = ("pending", "done", "cancelled")[ctx.choose(3)]
    ctx.setitem(fut.attrs, "state", fut_state)
    mp = attr(it, env.api, "_waiters")
    removed = fut_state == "done" or ctx.choose(2)
    if removed:
        it.call(it.getattr(mp, "pop"), [SInt(i)], {})
    had = mp.has
    ctx.inputs.update(state=fut_state, removed=removed)
    ctx.require_reachable("wait %s%s when its timer fires" % (fut_state, ", removed" if removed else ""))
    del ctx.trace[:]
    r = outcome(it, lambda: it.call(timers[0].args[1], list(timers[0].args[2]), {}))
    ctx.prove("the timer never fails", not r.raised)
    ctx.prove("an expired wait is removed", z3.Not(mp.has(i)))
    q = ctx.int("other").e
    with under(ctx, q != i) as ok:
        if ok:
            ctx.prove("other waits stay", mp.has(q) == had(q))
            ctx.prove("other waits are not touched", env.W.state(q) == env.W.state0(q))
    if fut_state == "done":
        ctx.prove("a completed wait keeps its result", fut.attrs["state"] == "done")


def g_wait(ctx, it):
    T = it.w.load("zigpy_cc.types").ns
    tmo = ctx.int("timeout", 1)
    ctx.inputs["timeout"] = tmo
    w = it.call(it.w.get("zigpy_cc.api:Waiter"), [3, enum_sym(ctx, T["CommandType"], "ct"), enum_sym(ctx, T["Subsystem"], "ss"), ctx.str("cmd"), None, tmo, None], {})
    seen = []
    res = Mock("result")
    how = ctx.choose(3)

    def hook(i, aw, t):
        seen.append((aw, t))
        if how == 0:
            return res
        i.raise_(X.EX("asyncio.TimeoutError" if how == 1 else "asyncio.CancelledError"))
    ctx.shared["wait_for"] = hook
    r = run(it, it.call(it.getattr(w, "wait"), [], {}))
    if not ctx.prove("waiting has a time limit", len(seen) == 1):
        return
    ctx.prove("the wait's own future is awaited", seen[0][0] is w.attrs.get("future"))
    ctx.prove("the limit is the wait's time", seen[0][1] is not None and zreal(seen[0][1]) * 1000 == z3.ToReal(zi(tmo)))
    if how == 0:
        ctx.prove("waiting gives the result", not r.raised and r.value is res)
    else:
        ctx.prove("waiting fails when the time is up or the waiter is cancelled",
                  r.raised and r.exc.cls is X.EX("asyncio.TimeoutError" if how == 1 else "asyncio.CancelledError"))


def g_complete(ctx, it):
    T = it.w.load("zigpy_cc.types").ns
    w = it.call(it.w.get("zigpy_cc.api:Waiter"), [3, enum_sym(ctx, T["CommandType"], "ct"), enum_sym(ctx, T["Subsystem"], "ss"), ctx.str("cmd"), None, 10000, None], {})
    fut = w.attrs["future"]
    ctx.prove("a wait starts pending", fut.attrs["state"] == "pending")
    st = ("pending", "done", "cancelled")[ctx.choose(3)]
    old = Mock("old")
    ctx.setitem(fut.attrs, "state", st)
    ctx.setitem(fut.attrs, "value", old if st == "done" else None)
    res = Mock("result")
    ctx.inputs["state"] = st
    r = outcome(it, lambda: it.call(it.getattr(w, "set_result"), [res], {}))
    ctx.prove("a late or repeated completion is harmless", not r.raised)
    if st == "pending":
        ctx.prove("a pending wait gets the result", fut.attrs["state"] == "done" and fut.attrs["value"] is res)
    else:
        ctx.prove("a wait that is over is not changed", fut.attrs["state"] == st and fut.attrs["value"] is (old if st == "done" else None))


def g_received(ctx, it):
    """Every pending wait the message matches is over (waits that number replies: C12)."""
    api, W, obj, r = receive(ctx, it)
    mp = attr(it, api, "_waiters")
    ctx.prove("no exception", not r.raised)
    q = ctx.int("q").e
    ctx.instantiate(W.idxf(q))
    with ctx.scoped():
        ctx.solver.add(W.present(q))
        ctx.solver.add(W.match(q, obj))
        ctx.solver.add(z3.Not(W.seqd(q)))
        # no numbered wait takes the message
        if obj.attrs["sequence"] is None and ctx.sat():
            ctx.prove("a wait the message matches is removed", z3.Not(mp.has(q)))
            ctx.prove("a pending wait the message matches is completed", z3.Implies(W.state0(q) == PENDING, W.state(q) == DONE))
            ctx.prove("a wait that is already over is not changed", z3.Implies(W.state0(q) != PENDING, W.state(q) == W.state0(q)))


def g_times(kind):
    def fn(ctx, it):
        env = Env(ctx, it, False, False, False, False)
        if kind == "reset":
            which = ctx.choose(2)
            o = env.obj("AREQ", ("resetReq", "systemReset")[which])
            o.attrs["subsystem"] = enum(it, "zigpy_cc.types:Subsystem." + ("SYS", "SAPI")[which])
            want = 30000
        else:
            o = env.obj("SREQ", kind)
            want = 20000 if kind in ("bdbStartCommissioning", "startupFromApp") else 6000
            if kind is None:
                for n in ("bdbStartCommissioning", "startupFromApp"):
                    ctx.assume(o.attrs["command"].e != str_term(ctx, n))
        ctx.require_reachable("request")
        r = env.request(o)
        sends = [e for e in ctx.trace if e.kind == "send"]
        if not ctx.prove("the request is written", len(sends) == 1):
            return
        reg = [v for _, v in sends[0].args[2]]
        if not ctx.prove("the wait is registered before the request is written", len(reg) == 1):
            return
        if kind == "reset":
            m = reg[0].attrs["matcher"].attrs
            prove_eq(ctx, "a reset waits for the reset indication", m["command"], "resetInd")
            prove_eq(ctx, "of the system subsystem", m["subsystem"], enum(it, "zigpy_cc.types:Subsystem.SYS"))
            prove_eq(ctx, "which is asynchronous", m["command_type"], enum(it, "zigpy_cc.types:CommandType.AREQ"))
        aw = [e for e in ctx.trace if e.kind == "await"]
        tm = [e for e in ctx.trace if e.kind == "timer"]
        if ctx.prove("it waits once", len(aw) == 1 and len(tm) == 1):
            ctx.prove("for what was registered", aw[0].args[0] is reg[0].attrs["future"])
            prove_eq(ctx, "for the time laid down", aw[0].args[1], want / 1000)
            d = zreal(tm[0].args[0]) * 1000
            ctx.prove("and is removed shortly after", z3.And(d >= want, d <= want + 1000))
    return fn


GOALS = [Goal("wait_for", g_register), Goal("timer", g_expire), Goal("wait", g_wait), Goal("completion", g_complete),
         Goal("a message against all pending waits", g_received)] + \
        [Goal("times: " + str(k), g_times(k)) for k in ("bdbStartCommissioning", "startupFromApp", None, "reset")]
