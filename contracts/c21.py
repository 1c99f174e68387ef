"""C21: start-up ends with a running, fully registered coordinator.

start_znp on every firmware: arbitrary device state, every subset of the endpoint table
(and any other endpoint) already registered, group membership either way, any one command
refused, unanswered or interrupted."""
from contracts.znp import *

MODULES = ["zigpy_cc.zigbee.start_znp"]
ASSUMES = ["an endpoint list reported by the stick has no wrong length"]
GREEN, GROUP = 242, 0x0B84
TAB = sorted(ENDPOINTS.items())


def int1(x):
    return x.value if isinstance(x, EnumMember) else x


def world(ctx, it, version, fault=None, present=None, group=None, net=None):
    """A stick with the configured network, an arbitrary device state, these endpoints."""
    net = net or Network(ctx, it, concrete=True)
    z = Znp(ctx, it, version, fault=fault)
    state = ctx.int("state", 0, 255)
    ctx.inputs.update(version=version, state=state)
    z.answers[("UTIL", "getDeviceInfo")] = lambda i, r, exp: z.result(status=0, devicestate=state)
    have = [e for e, p in TAB] if present is None else present
    ctx.inputs["endpoints"] = [e for e in have if isinstance(e, int)]
    z.answers[("wait", "activeEpRsp")] = lambda i, b: Mock("active", payload=SDict({k: (k, v) for k, v in (
        ("srcaddr", 0), ("status", 0), ("nwkaddr", 0), ("activeepcount", len(have)), ("activeeplist", mk_list(have)))}))
    g = {"in": group}

    def find(i, r, exp):
        data_is(ctx, "membership of the Green Power endpoint in its group is looked up", r, [Lit([GREEN]), Lit([GROUP & 255, GROUP >> 8])])
        if g["in"] is None:
            ctx.setitem(g, "in", bool(ctx.choose(2)))
        ctx.inputs["group"] = g["in"]
        return z.status(0 if g["in"] else 1, exp, groupid=GROUP, namelen=0, groupname=b"")
    z.answers[("ZDO", "extFindGroup")] = find
    return z, net, state, have, g


def run_tasks(ctx, it):
    """Tasks started on the way run to their end."""
    for a in evs(ctx, "task"):
        c = a[0]
        if isinstance(c, Coro):
            ctx.set(c, "used", False)
            outcome(it, lambda: it.await_(c))


def check_end(ctx, it, z, state, have, g, r, skip_endpoints=False):
    """What must have happened when start-up succeeded."""
    L = log(ctx)
    told = None
    waits = {}
    up = False
    asked = False
    groups = []
    reg = []
    booting = False
    for n, (kind, a) in enumerate(L):
        if kind == "wait":
            waits[id(a[1])] = n
        elif kind == "waited":
            b, m, f = a
            if wait_matches(it, b, "AREQ", "ZDO", "stateChangeInd", {"state": 9}) and f is None and told is not None and waits[id(m)] < told:
                up = True
        else:
            x = a[0]
            if x.name == "getDeviceInfo":
                asked = asked or x.out == "ok"
            if x.name == "startupFromApp" and x.out == "ok":
                told = n
                ctx.prove("a coordinator that is running is not told to start", state.e != 9)
            if (x.ss, x.name) == ("AF", "register") and x.out == "ok":
                reg.append(x)
            if x.name == "extAddGroup" and x.out == "ok":
                groups.append(x)
    ctx.prove("the state of the stick is asked", asked)
    ctx.prove("the stick is or gets in the coordinator state", z3.Or(state.e == 9, z3.BoolVal(up)))
    if not skip_endpoints:
        registered(ctx, reg, have)
    if ctx.prove("the group membership is asked", g["in"] is not None):
        if ctx.prove("the Green Power endpoint is added to its group exactly when it is not in it", len(groups) == (0 if g["in"] else 1)) and groups:
            data_is(ctx, "the Green Power endpoint is added to its group", groups[0], [Lit([GREEN, GROUP & 255, GROUP >> 8, 0])])


def registered(ctx, reg, have):
    nums = []
    for x in reg:
        v = segs_of(x.data)[0].vals
        nums.append(v[0])
        if ctx.prove("endpoint %r is one of the table" % (v[0],), isinstance(v[0], int) and v[0] in ENDPOINTS):
            prof = ENDPOINTS[v[0]]
            prove_seq_eq(ctx, "endpoint %d has its profile" % v[0], mk_bytes(norm_segs([Lit(list(v[1:3]))])), prof.to_bytes(2, "little"))
    ctx.prove("the endpoints the stick does not have are registered, each once", sorted(nums) == sorted(e for e, p in TAB if e not in have), (sorted(nums), have))


def g_boot(version, kind):
    def fn(ctx, it):
        f = faults(ctx, (kind,), skip=("osalNvRead", "readConfiguration")) if kind else None
        z, net, state, have, g = world(ctx, it, version, fault=f, present=[1, 12])
        configured(z, net, version)
        r = start(ctx, it, z, net, version)
        run_tasks(ctx, it)
        if r.raised:
            ctx.prove("start-up fails only if something went wrong", kind is not None and f.state["done"] is not None, describe_exc(r.exc))
            return
        if kind:
            # the query for endpoints may fail as long as the list arrives
            d = f.state["done"]
            ctx.prove("start-up does not succeed when a command failed", d is None or d[2] == "activeEpReq", d)
        prove_eq(ctx, "nothing was needed: resumed", r.value, "resumed")
        check_end(ctx, it, z, state, have, g, r)
    return fn


def g_any_list(ctx, it):
    """Any list of endpoints, of any length."""
    n = ctx.int("count", 0, 255)
    lst = ctx.bytes("endpoints", n)
    ctx.inputs["endpoints"] = lst
    z, net, state, have, g = world(ctx, it, V30X, group=True)
    act = SList(segs_of(lst))
    z.answers[("wait", "activeEpRsp")] = lambda i, b: Mock("active", payload=SDict({k: (k, v) for k, v in (
        ("srcaddr", 0), ("status", 0), ("nwkaddr", 0), ("activeepcount", n), ("activeeplist", act))}))
    ctx.assume(state.e == 9)
    configured(z, net, V30X)
    r = start(ctx, it, z, net, V30X)
    run_tasks(ctx, it)
    if not ctx.prove("start-up succeeds", not r.raised, r.raised and describe_exc(r.exc)):
        return
    regs = {}
    for e, gd in events(ctx, ctx.trace, ("req",)):
        x = e.args[0]
        if x.name == "register" and feasible(ctx, gd):
            with under(ctx, gd):
                num = segs_of(x.data)[0].vals[0]
                if ctx.prove("endpoint %r is one of the table" % (num,), isinstance(num, int) and num in ENDPOINTS):
                    prove_seq_eq(ctx, "endpoint %d has its profile" % num, mk_bytes(norm_segs([Lit(list(segs_of(x.data)[0].vals[1:3]))])), ENDPOINTS[num].to_bytes(2, "little"))
                    regs.setdefault(num, []).append(gd)
        elif x.name == "activeEpReq":
            data_is(ctx, "the stick's own endpoints are asked for", x, [Lit([0, 0, 0, 0])])
            regs.setdefault("asked", []).append(gd)
    ctx.prove("the stick's own endpoints are asked for", len(regs.get("asked", [])) == 1)
    for e in ENDPOINTS:
        there = zb(it.contains(act, e))
        gs = regs.get(e, [])
        ctx.prove("endpoint %d is registered exactly if the stick does not have it" % e, z3.Or(gs + [z3.BoolVal(False)]) == z3.Not(there))
        for i in range(len(gs)):
            for j in range(i):
                ctx.prove("endpoint %d is registered once" % e, z3.Not(z3.And(gs[i], gs[j])))


def g_list(have):
    """These endpoints already registered."""
    def fn(ctx, it):
        z, net, state, h, g = world(ctx, it, V30X, present=list(have), group=True)
        ctx.assume(state.e == 9)
        configured(z, net, V30X)
        r = start(ctx, it, z, net, V30X)
        run_tasks(ctx, it)
        if not ctx.prove("start-up succeeds", not r.raised, r.raised and describe_exc(r.exc)):
            return
        registered(ctx, [x for x in requests(ctx) if x.name == "register"], have)
        q = [x for x in requests(ctx) if x.name == "activeEpReq"]
        if ctx.prove("the stick's own endpoints are asked for", len(q) == 1):
            data_is(ctx, "the stick's own endpoints are asked for", q[0], [Lit([0, 0, 0, 0])])
    return fn


def g_result(version):
    """The result, for any contents of the memory."""
    def fn(ctx, it):
        net = Network(ctx, it)
        z, net, state, have, g = world(ctx, it, version, group=True, net=net)
        ctx.assume(state.e == 9)
        m = marker(version)
        z.absent = lambda item: item == m and bool(ctx.choose(2))
        r = start(ctx, it, z, net, version)
        run_tasks(ctx, it)
        if not ctx.prove("start-up succeeds", not r.raised, r.raised and describe_exc(r.exc)):
            return
        init = any(x.name == "resetReq" for x in requests(ctx))
        mark = z.initial.get(m)
        conf = z3.BoolVal(False) if mark is None else zb(it.compare("Eq", mark, b"\x55"))
        v = r.value
        if not isinstance(v, str):
            raise Unsupported("result %r" % (v,))
        if not init:
            ctx.prove("nothing was needed: resumed", v == "resumed", v)
        elif version != V12:
            ctx.prove("initialised: reset", v == "reset", v)
        else:
            ctx.prove("initialised: reset, or restored if it was not marked as configured", z3.And(v in ("reset", "restored"), z3.BoolVal(v == "restored") == z3.Not(conf)), v)
    return fn


def GOALS(w):
    out = []
    for v in (V12, V3X0, V30X):
        for k in (None, "refuse", "timeout", "cancel"):
            out.append(Goal("running coordinator, firmware %d, %s" % (v, k or "healthy"), g_boot(v, k)))
        out.append(Goal("result, firmware %d" % v, g_result(v)))
    nums = [e for e, p in TAB]
    out.append(Goal("endpoints, any list", g_any_list))
    out += [Goal("endpoints %r" % (h,), g_list(h)) for h in [[], [77], nums, nums + [77], nums[::2], nums[1::2], nums[::-1]]]
    out += [Goal("endpoint %d missing" % e, g_list([x for x in nums if x != e])) for e in nums]
    return out
