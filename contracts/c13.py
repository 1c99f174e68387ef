"""C13: outgoing messages carry exactly what the caller asked for.

request, mrequest, broadcast with arbitrary arguments on a mocked API: the command handed
to request_raw, its parameters and the payload bytes it is encoded to."""
from contracts.codec import *
from contracts.app import *

MODULES = ["zigpy_cc.zigbee.application", "zigpy_cc.zpi_object", "zigpy_cc.buffalo"]


def args(ctx, profile=None):
    """What the application asks for."""
    v = {"profile": profile if profile is not None else ctx.int("profile", 1, 65535), "cluster": ctx.int("cluster", 0, 65535),
         "src_ep": ctx.int("src_ep", 0, 255), "dst_ep": ctx.int("dst_ep", 0, 255), "sequence": ctx.int("sequence", 0, 255),
         "data": ctx.bytes("data")}
    ctx.inputs.update(v)
    return v


def one_command(ctx, it, A, r):
    raws = A.calls("raw")
    if not ctx.prove("the message is handed to the stick once", len(raws) == 1 and not r.raised):
        return None
    b = raws[0][0]
    prove_eq(ctx, "with the success status expected", b["expected_status"] if b["expected_status"] is not None else SList(norm_segs([Lit([0])])), SList(norm_segs([Lit([0])])))
    return b["obj"]


def is_command(ctx, it, obj, ss, name, cid, ct="SREQ"):
    ok = prove_eq(ctx, "the command is of subsystem " + ss, attr(it, obj, "subsystem"), enum(it, "zigpy_cc.types:Subsystem." + ss))
    ok &= prove_eq(ctx, "the command is " + name, attr(it, obj, "command"), name)
    ok &= prove_eq(ctx, "the command number is right", attr(it, obj, "command_id"), cid)
    ok &= prove_eq(ctx, "the command type is right", attr(it, obj, "command_type"), enum(it, "zigpy_cc.types:CommandType." + ct))
    return ok


def param(obj, n):
    d = obj.attrs.get("payload")
    if not isinstance(d, SDict):
        raise Unsupported("parameters are not a dict")
    return d.d[n][1] if n in d.d else MISSING


def same(ctx, it, obj, want):
    ok = True
    for n, v in want.items():
        x = param(obj, n)
        if ctx.prove("parameter %s is given" % n, x is not MISSING):
            ok &= prove_eq(ctx, "parameter %s is what was asked for" % n, it.call(B.REG["int"], [x], {}) if isinstance(v, (SInt, int)) and not isinstance(x, (SInt, int)) else x, v)
        else:
            ok = False
    return ok


def wire(ctx, it, obj, want):
    """The bytes of the command, for lengths that fit in the field."""
    r = outcome(it, lambda: it.call(it.getattr(obj, "to_unpi_frame"), [], {}))
    if not ctx.prove("the command can be encoded", not r.raised):
        return
    prove_seq_eq(ctx, "the bytes handed to the stick", it.getattr(r.value, "data"), mk_bytes(norm_segs(want)))


def le2(v):
    return [SInt(z3.simplify(zi(v) % 256)), SInt(z3.simplify(zi(v) / 256))]


def g_unicast(ctx, it):
    A = started(ctx, it, product=0)
    v = args(ctx)
    dev = Mock("device", nwk=SInt(ctx.int("nwk", 0, 65535).e, "zigpy.types.NWK"), ieee=SFixed("zigpy.types.EUI64", (ctx.array("ieee", I(8)),)))
    ctx.inputs["dst"] = dev.attrs["nwk"]
    A.cut()
    kw = {}
    if ctx.choose(2):
        kw = {"expect_reply": bool(ctx.choose(2))}
    r = A.coro("request", dev, v["profile"], v["cluster"], v["src_ep"], v["dst_ep"], v["sequence"], v["data"], **kw)
    o = one_command(ctx, it, A, r)
    if o is None or not is_command(ctx, it, o, "AF", "dataRequest", 1):
        return
    n = blen(v["data"])
    if same(ctx, it, o, {"dstaddr": dev.attrs["nwk"], "destendpoint": v["dst_ep"], "srcendpoint": v["src_ep"], "clusterid": v["cluster"],
                         "transid": v["sequence"], "len": SInt(n), "data": v["data"]}):
        opt, rad = param(o, "options"), param(o, "radius")
        ctx.prove("options and radius are given", opt is not MISSING and rad is not MISSING)
        with under(ctx, n <= 255) as ok:
            if ok:
                wire(ctx, it, o, [Lit(le2(dev.attrs["nwk"]) + [v["dst_ep"], v["src_ep"]] + le2(v["cluster"]) + [v["sequence"], opt, rad, SInt(n)])] + list(segs_of(v["data"])))


def ext(ctx, it, o, v, mode, dst, radius, src_ep):
    n = blen(v["data"])
    if not is_command(ctx, it, o, "AF", "dataRequestExt", 2):
        return
    if same(ctx, it, o, {"dstaddrmode": mode, "dstaddr": dst, "destendpoint": v["dst_ep"], "srcendpoint": src_ep, "clusterid": v["cluster"],
                         "transid": v["sequence"], "radius": radius, "len": SInt(n), "data": v["data"]}):
        opt, pan = param(o, "options"), param(o, "dstpanid")
        ctx.prove("options and destination network are given", opt is not MISSING and pan is not MISSING)
        with under(ctx, n <= 65535) as ok:
            if ok:
                wire(ctx, it, o, [Lit([mode] + le2(dst) + [0] * 6 + [v["dst_ep"]] + le2(pan) + [src_ep] + le2(v["cluster"]) +
                                      [v["sequence"], opt, radius] + le2(SInt(n)))] + list(segs_of(v["data"])))


def g_group(ctx, it):
    A = started(ctx, it, product=0)
    v = args(ctx)
    v["dst_ep"] = 255
    gid = SInt(ctx.int("group", 0, 65535).e, "zigpy.types.Group")
    ctx.inputs["dst"] = gid
    kw, hops = {}, 0
    if ctx.choose(2):
        hops = ctx.int("hops", 0, 255)
        kw = {"hops": hops, "non_member_radius": ctx.int("nmr", 0, 7)}
        ctx.inputs["hops"] = hops
    if ctx.choose(2):
        src, want = None, 1
    else:
        ctx.assume(v["src_ep"].e >= 1)
        src = want = v["src_ep"]
    A.cut()
    r = A.coro("mrequest", gid, v["profile"], v["cluster"], src, v["sequence"], v["data"], **kw)
    o = one_command(ctx, it, A, r)
    if o is not None:
        ext(ctx, it, o, v, 1, gid, SInt(z3.If(zi(hops) == 0, I(30), zi(hops))), want)


def g_broadcast(ctx, it):
    A = started(ctx, it, product=0)
    v = args(ctx)
    BA = it.w.ext["zigpy.types.BroadcastAddress"]
    rad = ctx.int("radius", 0, 255)
    ctx.inputs["radius"] = rad
    a = [v["profile"], v["cluster"], v["src_ep"], v["dst_ep"], ctx.int("grpid", 0, 65535), rad, v["sequence"], v["data"]]
    c = ctx.choose(3)
    if c == 0:
        dst = BA.members["RX_ON_WHEN_IDLE"]
    elif c == 1:
        dst = SInt(ctx.int("dst", 0, 65535).e, BA)
        a.append(dst)
    else:
        dst = ctx.int("dst", 0, 65535)
        a.append(dst)
    ctx.inputs["dst"] = dst
    A.cut()
    r = A.coro("broadcast", *a)
    o = one_command(ctx, it, A, r)
    if o is not None:
        ext(ctx, it, o, v, 2, dst, rad, v["src_ep"])


def g_from_cluster(ctx, it):
    """Any destination, any address mode."""
    v = args(ctx)
    AM = it.w.load("zigpy_cc.types").ns["AddressMode"]
    Z = it.w.get("zigpy_cc.zpi_object:ZpiObject")
    dst, rad = ctx.int("dst", 0, 65535), ctx.int("radius", 0, 255)
    mode = None if ctx.choose(2) else enum_sym(ctx, AM, "mode")
    ctx.inputs.update(dst=dst, radius=rad, mode=mode)
    r = outcome(it, lambda: it.call(it.getattr(Z, "from_cluster"), [dst, v["profile"], v["cluster"], v["src_ep"], v["dst_ep"], v["sequence"], v["data"]],
                                    {"radius": rad, "addr_mode": mode}))
    if not ctx.prove("no exception", not r.raised):
        return
    if mode is None:
        if is_command(ctx, it, r.value, "AF", "dataRequest", 1):
            same(ctx, it, r.value, {"dstaddr": dst, "destendpoint": v["dst_ep"], "srcendpoint": v["src_ep"], "clusterid": v["cluster"],
                                    "transid": v["sequence"], "radius": rad, "len": SInt(blen(v["data"])), "data": v["data"]})
    else:
        ext(ctx, it, r.value, v, SInt(mode.e), dst, rad, v["src_ep"])


def zdo(ss, cmd, how):
    """Profile 0: the device management command of the number of the cluster."""
    name, cid = get(cmd, "name"), get(cmd, "ID")
    ps = params(get(cmd, "request"))

    def fn(ctx, it):
        A = started(ctx, it, product=0)
        N = ctx.int("len", 1).e
        g = ctx.array("data", N)
        data = mk_bytes((g,))
        dst = ctx.int("dst", 0, 65535)
        v = {"src_ep": ctx.int("src_ep", 0, 255), "dst_ep": ctx.int("dst_ep", 0, 255), "sequence": ctx.int("sequence", 0, 255)}
        ctx.inputs.update(v, cluster=cid, data=data, dst=dst, profile=0)
        own = [p for p in ps if not (p[0] == "dstaddr" and p[1] == "UINT16" or (name == "mgmtPermitJoinReq" and p[0] == "addrmode"))]
        st, want, _ = reference(ctx, g, N, own, I(1))
        A.cut()
        if how == "request":
            r = A.coro("request", Mock("device", nwk=SInt(dst.e, "zigpy.types.NWK")), 0, cid, v["src_ep"], v["dst_ep"], v["sequence"], data)
        else:
            BA = it.w.ext["zigpy.types.BroadcastAddress"]
            r = A.coro("broadcast", 0, cid, v["src_ep"], v["dst_ep"], 0, 0, v["sequence"], data, SInt(dst.e, BA))
        if st != "ok":
            ctx.prove("a message without the parameters of the command is not sent", not A.calls("raw"))
            return
        o = one_command(ctx, it, A, r)
        if o is None or not is_command(ctx, it, o, "ZDO", name, cid, get(cmd, "type").name):
            return
        prove_eq(ctx, "it carries the transaction number", attr(it, o, "sequence"), v["sequence"])
        if len(own) != len(ps):
            want["dstaddr"] = dst
        if name == "mgmtPermitJoinReq":
            am = param(o, "addrmode")
            if ctx.prove("the address mode is given", am is not MISSING):
                with under(ctx, dst.e == 0xFFFC) as ok:
                    if ok:
                        prove_eq(ctx, "all routers and the coordinator are addressed by broadcast", it.call(B.REG["int"], [am], {}), 15)
                with under(ctx, dst.e < 0xFFF8) as ok:
                    if ok:
                        prove_eq(ctx, "a device is addressed directly", it.call(B.REG["int"], [am], {}), 2)
        same(ctx, it, o, want)
        extra = set(o.attrs["payload"].d) - {n for n, _ in ps}
        ctx.prove("no other parameter", not extra, str(extra))
    return fn


def g_unknown(ids):
    def fn(ctx, it):
        """Profile 0 with a number that is no command: nothing is sent."""
        A = started(ctx, it, product=0)
        v = args(ctx, profile=0)
        ctx.assume(z3.And([v["cluster"].e != i for i in ids]))
        A.cut()
        A.coro("request", Mock("device", nwk=ctx.int("dst", 0, 65535)), 0, v["cluster"], v["src_ep"], v["dst_ep"], v["sequence"], v["data"])
        ctx.prove("nothing is sent", not A.calls("raw") and not A.calls("request"))
    return fn


def GOALS(w):
    out = [Goal("unicast", again(g_unicast)), Goal("group", again(g_group)), Goal("broadcast", again(g_broadcast)), Goal("any address mode", g_from_cluster)]
    out += [Goal("unicast, others meanwhile", crossed(g_unicast)), Goal("group, others meanwhile", crossed(g_group)),
            Goal("broadcast, others meanwhile", crossed(g_broadcast))]
    ids = []
    for ss, cmd, kind, ps in table(w):
        if ss.name != "ZDO" or kind != "request":
            continue
        ids.append(get(cmd, "ID"))
        own = [p for p in ps if p[0] != "dstaddr"]
        if decodable(own):
            out.append(Goal("device management %s" % get(cmd, "name"), again(zdo(ss, cmd, "request"))))
            out.append(Goal("device management %s by broadcast" % get(cmd, "name"), again(zdo(ss, cmd, "broadcast"))))
            out.append(Goal("device management %s, others meanwhile" % get(cmd, "name"), crossed(zdo(ss, cmd, "request"))))
    out.append(Goal("no device management command", again(g_unknown(ids))))
    return out
