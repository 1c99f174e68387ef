"""C08: a pending request is completed only by its own response.

Waiter.match for any wait and message; API.data_received over an arbitrary table of
pending waits (any number, any contents) and any decoded message."""
from contracts.lib import *

ASSUMES = ["the correlating fields of a wait are parameters of the awaited command (waits with up to two correlating fields are modelled)"]


def receive(ctx, it, app=True, seq=False):
    """API.data_received on an arbitrary table of waits -> (api, waits, obj, outcome)"""
    api = new_api(ctx, it)
    W = Waits(ctx, it).install(api)
    obj = message(ctx, it)
    ctx.contracts["zigpy_cc.zpi_object:ZpiObject.from_unpi_frame"] = lambda i, a, k: obj
    # the callee's contract, discharged by the match goals
    ctx.contracts["zigpy_cc.api:Waiter.match"] = lambda i, a, k: SBool(W.match(a[0].key, a[1])) \
        if isinstance(a[0], FamObj) and len(a) == 2 and a[1] is obj else NotImplemented
    if app:
        m = Mock("app", handle_znp=Builtin("handle_znp", lambda i, a, k: ctx.emit(Ev("handle", a[0], a[0].attrs.get("sequence")))))
        it.call(it.getattr(api, "set_application"), [m], {})
    ctx.keep(api, ("_waiters",))
    r = outcome(it, lambda: it.call(it.getattr(api, "data_received"), [Mock("frame")], {}))
    return api, W, obj, r


def match_goal(k):
    def fn(ctx, it):
        T = it.w.load("zigpy_cc.types").ns
        names = ["a", "b", "c"][:max(k, 0)]
        vals = {n: ctx.val("want." + n) for n in names}
        pay = SDict({n: (n, v) for n, v in vals.items()}) if k >= 0 else None
        ct, ss, cmd = enum_sym(ctx, T["CommandType"], "wct"), enum_sym(ctx, T["Subsystem"], "wss"), ctx.str("wcmd")
        seq = None if ctx.choose(2) == 0 else ctx.int("seq", 0, 255)
        w = it.call(it.w.get("zigpy_cc.api:Waiter"), [7, ct, ss, cmd, pay, 10000, seq], {})
        obj = message(ctx, it)
        a = obj.attrs
        ctx.inputs.update({"fields": k, "w_ct": ct, "w_ss": ss, "ct": a["command_type"], "ss": a["subsystem"],
                           "same_cmd": SBool(cmd.e == a["command"].e), "same": [SBool(v.e == a["payload"].d[n][1].e) for n, v in vals.items()]})
        ctx.require_reachable("any wait and message")
        r = it.call(it.getattr(w, "match"), [obj], {})
        same = z3.And([ct.e == a["command_type"].e, ss.e == a["subsystem"].e, cmd.e == a["command"].e]
                      + [v.e == a["payload"].d[n][1].e for n, v in vals.items()])
        if it.truth(r):
            ctx.prove("a match has equal type, subsystem, command and correlating fields", same)
        else:
            ctx.prove("equal type, subsystem, command and correlating fields match", z3.Not(same))
    return fn


def table_goal(ctx, it):
    api, W, obj, r = receive(ctx, it)
    mp = attr(it, api, "_waiters")
    trace = list(ctx.trace)
    # every completion belongs to a matching wait and carries exactly the message
    for e, g in events(ctx, trace, ("complete", "failed", "cancelled")):
        with under(ctx, g) as ok:
            if not ok:
                continue
            q = zi(e.args[0])
            ctx.prove("a completed wait was pending", W.present(q))
            ctx.prove("a completed wait matches the message", W.match(q, obj))
            ctx.prove("a wait is completed with a result", e.kind == "complete")
            if e.kind == "complete":
                ctx.prove("the wait gets exactly that message", e.args[1] is obj)
    # waits that do not match stay pending and unchanged
    q = ctx.int("other").e
    ctx.instantiate(W.idxf(q))
    with ctx.scoped():
        ctx.solver.add(W.present(q))
        ctx.solver.add(z3.Not(W.match(q, obj)))
        if ctx.sat():
            ctx.prove("a wait that does not match stays pending", mp.has(q))
            ctx.prove("a wait that does not match is not touched", W.state(q) == W.state0(q))
    p = ctx.int("absent").e
    with ctx.scoped():
        ctx.solver.add(z3.Not(W.present(p)))
        ctx.prove("no wait appears", z3.Not(mp.has(p)))


GOALS = [Goal("match with %s correlating fields" % ("no (None)" if k < 0 else k), match_goal(k)) for k in (-1, 0, 1, 2, 3)] + \
        [Goal("a message against all pending waits", table_goal)]
