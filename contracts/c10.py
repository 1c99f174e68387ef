"""C10: an unexpected status is always raised to the caller."""
from contracts.lib import *
from contracts.req import Env


def sreq(mode):
    def fn(ctx, it):
        env = Env(ctx, it, encode_fails=False, write_fails=False, cancels=False, timeouts=False)
        obj = env.obj("SREQ")
        f = env.follow()
        P = None
        if mode == "default":
            exp = None
            allowed = lambda s: s == 0
        elif mode == "any container":
            P, _ = ctx.func("expected", z3.IntSort(), z3.BoolSort())
            exp = Mock("expected", __contains__=Builtin("contains", lambda i, a, k: mk_bool(P(zi(a[0])))))
            exp.attrs["__bool__"] = Builtin("bool", lambda i, a, k: ctx.bool("container is true"))
            allowed = lambda s: P(s)
        else:
            xs = [ctx.int("e%d" % i, 0, 255) for i in range(mode)]
            exp = SList(norm_segs([Lit(xs)])) if xs else SList(())
            allowed = lambda s: z3.Or([z3.BoolVal(False)] + [s == x.e for x in xs])
            ctx.inputs["expected"] = xs
        ctx.inputs["follow"] = f is not None
        r = env.request(obj, f, exp)
        m = env.response
        if not ctx.prove("a synchronous request ends with its response", m is not None):
            return
        st = m.attrs["payload"].d.get("status")
        done = list(events(ctx, ctx.trace, ("complete", "failed", "cancelled")))
        bad = z3.BoolVal(False) if st is None else z3.Not(allowed(zi(st[1])))
        if not r.raised:
            ctx.prove("without an error the status is expected", z3.Not(bad))
            ctx.prove("the caller gets the response itself", r.value is m)
            ctx.prove("no wait is touched", not done)
            return
        if not ctx.prove("the only error is a command error", isinstance(r.exc, SObj) and
                         it.w.get("zigpy_cc.exception:CommandError") in r.exc.cls.mro()):
            return
        ctx.prove("an error means the status was unexpected", bad)
        if st is None:
            return
        prove_eq(ctx, "the error carries the status", it.getattr(r.exc, "status"), st[1])
        W2 = env.W2
        mp = attr(it, env.api, "_waiters")
        if f is None:
            ctx.prove("no wait is touched", not done)
            return
        here = W2.present(f.e)
        ctx.prove("the follow-up wait is gone", z3.Not(mp.has(f.e)))
        with under(ctx, z3.And(here, W2.state0(f.e) == 0)) as ok:
            if ok:
                if ctx.prove("the follow-up wait is released", len(done) == 1 and done[0][0].kind == "complete"):
                    ctx.prove("it is the follow-up wait that is released", zi(done[0][0].args[0]) == f.e)
                    ctx.prove("it is released with the response", done[0][0].args[1] is m)
        with under(ctx, z3.Not(here)) as ok:
            if ok:
                ctx.prove("without a follow-up wait none is touched", not done)
        q = ctx.int("other").e
        with under(ctx, q != f.e) as ok:
            if ok:
                ctx.prove("other waits stay", mp.has(q) == W2.map.has_init(q))
                ctx.prove("other waits are not touched", W2.state(q) == W2.state0(q))
    return fn


def command_error(ctx, it):
    s = ctx.int("status", 0, 255)
    msg = ctx.str("msg")
    e = it.call(it.w.get("zigpy_cc.exception:CommandError"), [s, msg], {})
    prove_eq(ctx, "the error carries the status it was made with", it.getattr(e, "status"), s)


def via_request(ctx, it):
    """request: what request_raw gives or raises, with the caller's arguments."""
    env = Env(ctx, it)
    obj, res, exp = Mock("obj"), Mock("result"), SList(norm_segs([Lit([0, 9])]))
    fail = ctx.choose(2)
    it.w.get("zigpy_cc.api:API.request_raw")

    def raw(i, a, k):
        def go():
            b = dict(zip(["self", "obj", "waiter_id", "expected_status"], a))
            b.update(k)
            ctx.emit(Ev("raw", b))
            if fail:
                i.raise_("Exception", "failed")
            return res
        return Coro("request_raw", go)
    ctx.contracts["zigpy_cc.api:API.request_raw"] = raw
    it.w.get("zigpy_cc.zpi_object:ZpiObject.from_command")
    ctx.contracts["zigpy_cc.zpi_object:ZpiObject.from_command"] = lambda i, a, k: (ctx.emit(Ev("made", a, k)), obj)[1]
    pay = SDict({})
    wid = ctx.int("wid", 0)
    ss = enum_sym(ctx, it.w.load("zigpy_cc.types").ns["Subsystem"], "ss")
    cmd = ctx.str("cmd")
    r = run(it, it.call(it.getattr(env.api, "request"), [ss, cmd, pay, wid, exp], {}))
    seen, made = [x[0] for x in calls(ctx, "raw")], calls(ctx, "made")
    if not ctx.prove("one object is made and requested once", len(seen) == 1 and len(made) == 1):
        return
    a = [x for x in made[0][0] if not isinstance(x, SClass)] + list(made[0][1].values())
    ctx.prove("the object is made from the arguments", len(a) == 3 and a[0] is ss and a[1] is cmd and a[2] is pay)
    b = seen[0]
    ctx.prove("the object is requested", b.get("obj") is obj)
    ctx.prove("the follow-up wait is passed on", b.get("waiter_id") is wid)
    ctx.prove("the expected statuses are passed on", b.get("expected_status") is exp)
    ctx.prove("the result or error is passed on", r.raised if fail else (not r.raised and r.value is res))


from contracts.c12 import g_app
GOALS = [Goal("the follow-up wait of the application's requests", g_app)] + [Goal("response: expected %s" % m, sreq(m)) for m in ("default", "any container", 0, 1, 3)] + \
        [Goal("command error", command_error), Goal("request", via_request)]
