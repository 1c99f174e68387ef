"""C19: a stick is left alone only if it holds the configured network.

start_znp on a stick whose memory items have arbitrary contents or do not exist, for an
arbitrary configured network and every firmware."""
from contracts.znp import *

MODULES = ["zigpy_cc.zigbee.nv_items", "zigpy_cc.zigbee.start_znp"]
ASSUMES = ["a running stick answers every command (lost answers and refusals of other commands: C20, C21)"]


def g_left_alone(version, gone, again=False):
    """gone: an item the stick does not have, or None; again: the same options were used for a stick that held them before."""
    def fn(ctx, it):
        net = Network(ctx, it)
        if again:
            z = Znp(ctx, it, version)
            healthy(z)
            configured(z, net, version)
            ctx.must(not start(ctx, it, z, net, version).raised)
        before = len(requests(ctx))
        z = Znp(ctx, it, version, absent=lambda item: item == gone)
        healthy(z)
        ctx.inputs.update(version=version, gone=gone)
        r = start(ctx, it, z, net, version)
        touched = [x for x in requests(ctx)[before:] if is_write(x) or x.name in ("osalNvItemInit", "resetReq", "writeConfiguration", "bdbStartCommissioning", "bdbSetChannel")]
        if gone is not None and gone != marker(version):
            if r.raised:
                ctx.prove("an item that cannot be read makes start-up fail with the stick's refusal", is_refusal(it, r.exc))
            else:
                ctx.prove("a stick without item 0x%X is not left alone" % gone, bool(touched) or gone == EXTPAN and version != V12)
            return
        if not ctx.prove("start-up succeeds on a healthy stick", not r.raised, r.raised and describe_exc(r.exc)):
            return

        def stores(item):
            if item == gone:
                return z3.BoolVal(False)
            return eq(it, initial[item], mk_bytes(norm_segs(net.value(item))))
        initial = {i: z3_content(z, ctx, i) for i in (marker(version), CHANNELS, DISTRIBUTE, KEY, PANID, EXTPAN)}
        same = z3.And([stores(i) for i in (marker(version), CHANNELS, DISTRIBUTE, KEY)])
        pan = z3.And(stores(PANID), stores(EXTPAN))
        if version != V12:
            pan = z3.Or(pan, eq(it, initial[PANID], b"\xff\xff"))
        if touched:
            ctx.prove("a stick that holds the configured network is left alone", z3.Not(z3.And(same, pan)))
        else:
            ctx.prove("the configured marker is stored", stores(marker(version)))
            ctx.prove("the configured channels are stored", stores(CHANNELS))
            ctx.prove("the configured key distribution flag is stored", stores(DISTRIBUTE))
            ctx.prove("the configured network key is stored", stores(KEY))
            ctx.prove("the configured PAN ID and extended PAN ID are stored" + ("" if version == V12 else ", or no PAN ID was ever set"), pan)
    return fn


def is_refusal(it, e):
    return it.exc_matches(e, it.w.get("zigpy_cc.exception:CommandError"))


def z3_content(z, ctx, item):
    """The contents the item had at the start."""
    return z.initial.get(item) if item in z.initial else ctx.bytes("item%x" % item)


def eq(it, a, b):
    if a is None:
        return z3.BoolVal(False)
    r = it.compare("Eq", a, b)
    return zb(r)


def GOALS(w):
    out = []
    for v in (V12, V3X0, V30X):
        out.append(Goal("firmware %d" % v, g_left_alone(v, None)))
        out.append(Goal("firmware %d, started before" % v, g_left_alone(v, None, True)))
        for item in (marker(v), CHANNELS, DISTRIBUTE, KEY, PANID, EXTPAN):
            out.append(Goal("firmware %d without item 0x%X" % (v, item), g_left_alone(v, item)))
    return out
