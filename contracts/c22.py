"""C22: the network is formed with the configured parameters.

NetworkOptions on every configuration (each parameter absent or of any value), and
form_network end to end: what a stick without a network is told."""
from contracts.znp import *
from contracts.app import App, bound, REQ

MODULES = ["zigpy_cc.types", "zigpy_cc.zigbee.application", "zigpy_cc.zigbee.start_znp", "zigpy_cc.zigbee.nv_items"]
ASSUMES = ["the configuration has passed zigpy's schema (parameters are absent or values of their type)"]
DEF_KEY = bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])


def configuration(ctx, it, which=None):
    """(configuration, what must be used)."""
    pan = SInt(ctx.int("pan", 0, 0xFFFF).e, "zigpy.types.PanId")
    ext = SFixed("zigpy.types.ExtendedPanId", (ctx.array("ext", I(8)),))
    key = SFixed("zigpy.types.KeyData", (ctx.array("key", I(16)),))
    mask = SInt(ctx.int("channels", 0, 0xFFFFFFFF).e, "zigpy.types.Channels")
    ctx.inputs.update(pan=pan, ext=SBytes(ext.segs), key=SBytes(key.segs), channels=mask)
    given = [ctx.choose(2) if which is None else which for _ in range(4)]
    ctx.inputs["given"] = given
    p, e, k, m = (v if g else None for v, g in zip((pan, ext, key, mask), given))
    cfg = {"pan_id": p, "extended_pan_id": e, "key": k, "channels": m}
    # the rest of the schema, in the way
    cfg.update(channel=ctx.int("channel", 11, 26), update_id=0, tc_address=None, tc_link_key=None)
    want = {
        "panID": le(pan, 2) if given[0] else [Lit([0x62, 0x1A])],
        "extendedPanID": list(ext.segs) if given[1] else [Lit([0xDD] * 8)],
        "networkKey": list(key.segs) if given[2] else [Lit(list(DEF_KEY))],
        "channelList": le(SInt(z3.If(zi(mask) == 0, I(2048), zi(mask))), 4) if given[3] else [Lit([0, 8, 0, 0])],
    }
    return SDict({k: (k, v) for k, v in cfg.items()}), want


def g_options(ctx, it):
    cfg, want = configuration(ctx, it)
    r = outcome(it, lambda: it.call(it.w.get("zigpy_cc.types:NetworkOptions"), [cfg], {}))
    if not ctx.prove("every configuration is accepted", not r.raised, r.raised and describe_exc(r.exc)):
        return
    o = r.value
    for n in ("panID", "channelList"):
        v = attr(it, o, n)
        prove_seq_eq(ctx, "the %s is the configured one" % n, mk_bytes(norm_segs(le(v, 2 if n == "panID" else 4))), mk_bytes(norm_segs(want[n])))
        ctx.prove("the %s is in range" % n, z3.And(zi(v) >= 0, zi(v) < (1 << (16 if n == "panID" else 32))))
    for n in ("extendedPanID", "networkKey"):
        v = attr(it, o, n)
        prove_seq_eq(ctx, "the %s is the configured one" % n, mk_bytes(norm_segs(segs_of(v))), mk_bytes(norm_segs(want[n])))
    prove_eq(ctx, "the key is not handed out in the clear", attr(it, o, "networkKeyDistribute"), False)


def g_form(version, which):
    def fn(ctx, it):
        cfg, want = configuration(ctx, it, which)
        ctx.inputs["version"] = version
        z = Znp(ctx, it, version, absent=lambda item: True)
        healthy(z)

        def reply(i, b):
            if b["command"] == "ledControl":
                return z.result(status=0)
            return z.serve(i, b["subsystem"], b["command"], b["payload"], b.get("expected_status"))
        A = App(ctx, it, product=version, config=SDict({"device": ("device", Mock("device config")), "network": ("network", cfg)}))
        A.reply = reply
        A.api.attrs["wait_for"] = Builtin("wait_for", z.wait_for)
        # (the stick does not have the items at all: the values read are empty)
        z.mem.update({marker(version): None})
        r = A.coro("form_network")
        # (the LED is set in a task of its own)
        if not ctx.prove("forming the network on an empty stick succeeds", not r.raised, r.raised and describe_exc(r.exc)):
            return
        items = {PANID: ("panID", "SYS"), EXTPAN: ("extendedPanID", "SYS"), CHANNELS: ("channelList", "SYS"), KEY: ("networkKey", "SAPI" if version == V12 else "SYS")}
        last = {}
        for x in requests(ctx):
            if is_write(x) and x.item in items:
                last[x.item] = x
                w = want[items[x.item][0]]
                n = mk_bytes(norm_segs(w))
                head = [Lit([x.item & 255, SInt(blen(n))])] if x.name == "writeConfiguration" else [Lit([x.item & 255, x.item >> 8, 0, SInt(blen(n))])]
                data_is(ctx, "the %s written is the configured one" % items[x.item][0], x, head + list(w))
            if x.name == "bdbSetChannel":
                v = segs_of(x.data)
                first = v[0].vals[0] if isinstance(v[0], Lit) else None
                if isinstance(first, int) and first == 1:
                    last["primary"] = x
                    data_is(ctx, "the primary channels are the configured ones", x, [Lit([1])] + list(want["channelList"]))
        need = set(items) | (set() if version == V12 else {"primary"})
        ctx.prove("every parameter is written", need <= set(last), need - set(last))
    return fn


def GOALS(w):
    return [Goal("options", g_options)] + [Goal("network formed, firmware %d, %s" % (v, "configured" if g else "defaults"), g_form(v, g)) for v in (V12, V3X0, V30X) for g in (0, 1)]
