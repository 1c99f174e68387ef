"""C12: a device management reply gets its own request's number.

create_response_waiter for every command of the table; API.data_received over an
arbitrary table of waits: the first matching wait that carries a number, in the order the
waits were made, gives the message its number and is the only numbered one used up."""
from contracts.lib import *
from contracts.req import Env
from contracts.app import App
from contracts.c08 import receive

ASSUMES = ["dictionaries iterate in insertion order (Python 3.7+)"]


def g_received(ctx, it):
    api, W, obj, r = receive(ctx, it)
    ctx.prove("no exception", not r.raised)
    mp = attr(it, api, "_waiters")
    seq = obj.attrs.get("sequence")
    hs = [e for e in ctx.trace if e.kind == "handle"]
    if ctx.prove("the message is handed on once", len(hs) == 1):
        ctx.prove("it is the message received", hs[0].args[0] is obj)
        ctx.prove("its number is set before it is handed on", hs[0].args[1] is seq or (seq is not None and z3.is_true(z3.simplify(veq(ctx, hs[0].args[1], seq)))))
    q = ctx.int("q").e
    p = ctx.int("p").e
    ctx.instantiate(W.idxf(q))
    ctx.instantiate(W.idxf(p))
    numbered = lambda k: z3.And(W.present(k), W.match(k, obj), W.seqd(k))
    if seq is None:
        with under(ctx, numbered(q)) as ok:
            if ok:
                ctx.prove("with such a request pending the reply carries a number", False)
        return
    # seq is set: q is a numbered match that no numbered match precedes
    with ctx.scoped():
        ctx.solver.add(z3.And(numbered(q), z3.Not(mp.has(q))))
        if ctx.sat():
            ctx.axiom(z3.And(W.seq(q) >= 0, W.seq(q) <= 255))
            ctx.prove("the number is that of the request used up", zi(seq) == W.seq(q))
            ctx.prove("the request used up is completed", z3.Implies(W.state0(q) == PENDING, W.state(q) == DONE))
            with under(ctx, z3.And(numbered(p), W.idxf(p) < W.idxf(q))) as ok:
                if ok:
                    ctx.prove("it is the oldest one", False)
            with under(ctx, z3.And(numbered(p), p != q)) as ok:
                if ok:
                    ctx.prove("younger requests stay pending", mp.has(p))
                    ctx.prove("younger requests are not touched", W.state(p) == W.state0(p))
    # witness: the wait the number was taken from
    ks = apps(z3.simplify(zi(seq)), W.seq)
    for k in ks:
        ctx.instantiate(W.idxf(k))
    ctx.prove("the number is that of a pending request for the reply, which is used up",
              z3.Or([z3.BoolVal(False)] + [z3.And(zi(seq) == W.seq(k), numbered(k), z3.Not(mp.has(k))) for k in ks]))


def apps(e, f, out=None):
    out = [] if out is None else out
    if z3.is_app(e):
        if e.decl().eq(f(I(0)).decl()):
            out.append(e.arg(0))
        for c in e.children():
            apps(c, f, out)
    return out


def req_goal(sub, name, params, rsp, rsp_params):
    def fn(ctx, it):
        env = Env(ctx, it)
        T = it.w.load("zigpy_cc.types").ns
        S = T["Subsystem"]
        ss = S.members[sub]
        pay = SDict({n: (n, ctx.int("p." + n, 0)) for n in params})
        o = new_obj(it, "zigpy_cc.zpi_object:ZpiObject", command_type=enum(it, "zigpy_cc.types:CommandType.SREQ"), subsystem=ss,
                    command=name, command_id=0, payload=pay, parameters=SList(()), sequence=None)
        seq = ctx.int("sequence", 0, 255)
        it.w.get("zigpy_cc.api:API.wait_for")
        W = Mock("waiter", id=77)

        def wf(i, a, k):
            b = dict(zip(["self", "command_type", "subsystem", "command", "payload", "timeout", "sequence"], a))
            b.update(k)
            ctx.emit(Ev("wait_for", b))
            return W
        ctx.contracts["zigpy_cc.api:API.wait_for"] = wf
        ctx.inputs.update(sub=sub, cmd=name, sequence=seq)
        r = outcome(it, lambda: it.call(it.getattr(env.api, "create_response_waiter"), [o, seq], {}))
        if not ctx.prove("no exception", not r.raised):
            return
        calls = [e.args[0] for e, g in events(ctx, ctx.trace, ("wait_for",)) if feasible(ctx, g)]
        nums = [b for b in calls if b.get("sequence") is not None]
        ctx.prove("at most one wait is made", len(calls) <= 1)
        if rsp is None or "dstaddr" not in params:
            ctx.prove("no numbered wait without a reply from a device", not nums)
            return
        if not ctx.prove("a numbered wait is made for the reply", len(nums) == 1):
            return
        b = nums[0]
        ctx.prove("with the number of the request", b["sequence"] is seq)
        prove_eq(ctx, "for an asynchronous message", b["command_type"], enum(it, "zigpy_cc.types:CommandType.AREQ"))
        prove_eq(ctx, "of the device object subsystem", b["subsystem"], S.members["ZDO"])
        prove_eq(ctx, "with the name of the reply", b["command"], rsp)
        pd = b.get("payload")
        if ctx.prove("from one sender", isinstance(pd, SDict) and set(pd.d) == {"srcaddr"}):
            prove_eq(ctx, "the device the request is for", pd.d["srcaddr"][1], pay.d["dstaddr"][1])
        ctx.prove("the reply names its sender", "srcaddr" in rsp_params)
        ctx.prove("the wait is given back", r.value is W)
    return fn


ZDO_REQUESTS = {0x0002: 2, 0x0005: 2, 0x0004: 3, 0x0021: 21, 0x0031: 1}  # bytes after the number


def g_app(ctx, it):
    """The application asks for the reply before it sends, with the message's number, and
    only if it expects a reply; the wait is passed on with the request (C10)."""
    A = App(ctx, it)
    cl = sorted(ZDO_REQUESTS)[ctx.choose(len(ZDO_REQUESTS))]
    seq = ctx.int("sequence", 0, 255)
    dev = Mock("device", nwk=ctx.int("nwk", 0, 65535), ieee=SFixed("zigpy.types.EUI64", (ctx.array("ieee", I(8)),)))
    data = mk_bytes(norm_segs([Lit([seq])] + ([Lit([ctx.int("d%d" % k, 0, 255) for k in range(ZDO_REQUESTS[cl])])])))
    if cl == 0x0021:
        b = it.getitem(data, 12)
        ctx.assume(z3.Or(zi(b) == 1, zi(b) == 3))     # the modes a binding may have
    ctx.inputs.update(cluster=cl, sequence=seq, dst=dev.attrs["nwk"], data=data)
    kw = {}
    c = ctx.choose(3)
    if c:
        kw = {"expect_reply": c == 1}
    A.cut()
    r = A.coro("request", dev, 0, cl, 0, 0, seq, data, **kw)
    tr = [(e.kind, e.args) for e, g in events(ctx, ctx.trace[A.mark:], ("create", "created", "raw")) if feasible(ctx, g)]
    raws = [a for k, a in tr if k == "raw"]
    made = [a[0] for k, a in tr if k == "create"]
    if not ctx.prove("the request is sent once", len(raws) == 1 and not r.raised):
        return
    if c == 2:
        ctx.prove("no reply is asked for when none is expected", not made)
        return
    if not ctx.prove("the reply is asked for once, before the request is sent", [k for k, _ in tr if k != "created"] == ["create", "raw"]):
        return
    ctx.prove("for the request that is sent", made[0]["obj"] is raws[0][0]["obj"])
    ctx.prove("with the number of the request", made[0]["sequence"] is not None)
    if made[0]["sequence"] is not None:
        prove_eq(ctx, "which is the message's", made[0]["sequence"], seq)
    w = [a[0] for k, a in tr if k == "created"]
    wid = raws[0][0]["waiter_id"]
    if w:
        ctx.prove("the wait is passed on", wid is not None)
        if wid is not None:
            prove_eq(ctx, "the wait passed on is the one made", wid, w[0].attrs["id"])
    else:
        ctx.prove("no wait is passed on without one", wid is None)


def GOALS(w):
    out = [Goal("a reply against all pending waits", g_received), Goal("the application's requests", g_app)]
    import json, os
    mt = json.load(open(os.path.join(os.path.dirname(__file__), "..", "spec", "mt.json")))
    for c in mt["ZDO"]:
        if c["type"] != 2 or not c.get("request"):
            pass
        n = c["name"]
        ps = [p[0] for p in (c.get("request") or [])]
        rsp = None
        if n.endswith("Req"):
            m = [x for x in mt["ZDO"] if x["name"] == n.replace("Req", "Rsp")]
            rsp = m[0] if m else None
        out.append(Goal("request ZDO %s" % n, req_goal("ZDO", n, ps, rsp and rsp["name"], [p[0] for p in (rsp or {}).get("request") or []])))
    return out
