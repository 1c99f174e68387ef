"""C18: stick memory items encode the configuration exactly.

start_znp on a stick with arbitrary memory contents, every firmware: the bytes of every
memory command it sends, and each item function on its own."""
from contracts.znp import *

MODULES = ["zigpy_cc.zigbee.nv_items", "zigpy_cc.zigbee.start_znp"]
ITEMS = "zigpy_cc.zigbee.nv_items:Items"


def known_items(version):
    return {STARTUP, EXTPAN, KEY, DISTRIBUTE, PANID, CHANNELS, LOGICAL, DIRECTCB, TCLK, marker(version)}


def memory_commands(ctx, net, version):
    for r in requests(ctx):
        if r.item is None:
            continue
        ok = known_items(version)
        if not ctx.prove("%s concerns an item of the firmware (0x%X)" % (r.name, r.item), r.item in ok):
            continue
        what = "item 0x%X: " % r.item
        if r.name == "osalNvRead":
            data_is(ctx, what + "read from its start", r, [Lit([r.item & 255, r.item >> 8, 0])])
        elif r.name == "readConfiguration":
            data_is(ctx, what + "read", r, [Lit([r.item & 255])])
        elif r.name == "osalNvItemInit":
            if ctx.prove(what + "only the marker is created", r.item == marker(version)):
                data_is(ctx, what + "created with one byte", r, [Lit([r.item & 255, r.item >> 8, 1, 0, 1, 0])])
        elif is_write(r):
            if r.item == marker(version) and clears(ctx, r):
                right_write(ctx, what + "cleared", r, net, [Lit([0])])
            else:
                right_write(ctx, what + "number, offset, length and value written", r, net)


def g_written(version):
    def fn(ctx, it):
        net = Network(ctx, it, numbers=True)
        z = Znp(ctx, it, version, absent=lambda item: bool(ctx.choose(2)) if item == marker(version) else False)
        healthy(z)
        ctx.inputs["version"] = version
        r = start(ctx, it, z, net, version)
        memory_commands(ctx, net, version)
    return fn


def item_goal(name, args, want):
    """One item on its own."""
    def fn(ctx, it):
        net = Network(ctx, it, numbers=True)
        cls = it.w.get(ITEMS)
        f = it.getattr(cls, name, MISSING)
        if f is MISSING:
            raise Unsupported("no item " + name)
        a = args(ctx, it, net)
        r = outcome(it, lambda: it.call(f, a, {}))
        if not ctx.prove("no exception", not r.raised, r.raised and describe_exc(r.exc)):
            return
        d = r.value
        if not isinstance(d, SDict):
            raise Unsupported("item is not a dict")
        item, val, init = want(ctx, it, net, a)
        g = lambda k: d.d[k][1] if k in d.d else MISSING
        v = mk_bytes(norm_segs(val))
        for k in ("id",) + (("configid",) if "configid" in d.d else ()):
            if ctx.prove("it has a number", g(k) is not MISSING):
                prove_eq(ctx, "its number", it.call(B.REG["int"], [g(k)], {}), item)
        if init:
            prove_eq(ctx, "its length", g("len"), SInt(blen(v)))
            prove_eq(ctx, "length of its initial value", g("initlen"), SInt(blen(v)))
            prove_seq_eq(ctx, "its initial value", g("initvalue"), v)
        else:
            prove_eq(ctx, "it starts at offset 0", g("offset"), 0)
            prove_eq(ctx, "its length", g("len"), SInt(blen(v)))
            prove_seq_eq(ctx, "its value", g("value"), v)
    return fn


def ver(ctx, it):
    k = ctx.choose(3)
    m = sorted(it.w.load("zigpy_cc.types").ns["ZnpVersion"].members.values(), key=lambda m: m.value)[k]
    ctx.inputs["version"] = k
    return [m if ctx.choose(2) else k]


def vnum(a):
    return a[0] if isinstance(a[0], int) else a[0].value


def byte(ctx, it, net):
    v = ctx.int("value", 0, 255)
    ctx.inputs["value"] = v
    return [v]


def GOALS(w):
    out = [Goal("start-up, firmware %d" % v, g_written(v)) for v in (V12, V3X0, V30X)]
    E = lambda item: lambda ctx, it, net, a: (item, net.value(item), False)
    out += [
        Goal("item znpHasConfigured", item_goal("znpHasConfigured", lambda c, i, n: ver(c, i), lambda c, i, n, a: (marker(vnum(a)), [Lit([0x55])], False))),
        Goal("item znpHasConfiguredInit", item_goal("znpHasConfiguredInit", lambda c, i, n: ver(c, i), lambda c, i, n, a: (marker(vnum(a)), [Lit([0])], True))),
        Goal("item panID", item_goal("panID", lambda c, i, n: [n.pan], E(PANID))),
        Goal("item extendedPanID", item_goal("extendedPanID", lambda c, i, n: [n.ext], E(EXTPAN))),
        Goal("item channelList", item_goal("channelList", lambda c, i, n: [n.mask], E(CHANNELS))),
        Goal("item networkKeyDistribute", item_goal("networkKeyDistribute", lambda c, i, n: [n.dist], E(DISTRIBUTE))),
        Goal("item networkKey", item_goal("networkKey", lambda c, i, n: [n.key], E(KEY))),
        Goal("item startupOption", item_goal("startupOption", byte, lambda c, i, n, a: (STARTUP, [Lit([a[0]])], False))),
        Goal("item logicalType", item_goal("logicalType", byte, lambda c, i, n, a: (LOGICAL, [Lit([a[0]])], False))),
        Goal("item zdoDirectCb", item_goal("zdoDirectCb", lambda c, i, n: [], E(DIRECTCB))),
        Goal("item tcLinkKey", item_goal("tcLinkKey", lambda c, i, n: [], E(TCLK))),
    ]
    return out
