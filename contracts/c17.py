"""C17: a device announcing itself joins exactly once."""
from contracts.incoming import *

MODULES = ["zigpy_cc.zigbee.application"]


def announce(ss, cmd):
    def fn(ctx, it):
        A = started(ctx, it)
        try:
            o, v, g, N = received(ctx, it, ss, cmd)
        except Skip:
            return
        handle(A, o)
        js, ms = joins(A), messages(A)
        if ctx.prove("one join is reported", len(js) == 1):
            prove_eq(ctx, "with the announced short address", js[0]["nwk"], v["nwkaddr"])
            prove_eq(ctx, "with the announced long address", js[0]["ieee"], v["ieeeaddr"])
        d = known(A)
        L = lookups(A)
        if ctx.prove("the device is looked up", len(L) == 1):
            i, n = L[0]
            ctx.prove("by an address", i is not None or n is not None)
            if i is not None:
                prove_eq(ctx, "by the announced long address", i, v["ieeeaddr"])
            else:
                prove_eq(ctx, "by the announced short address", n, v["nwkaddr"])
        if d is None:
            ctx.prove("the announcement of an unknown device is not handed on", not ms)
            return
        if ctx.prove("the announcement of a known device is handed on once", len(ms) == 1):
            m = ms[0]
            ctx.prove("as a message of that device", m.get("sender") is d)
            prove_eq(ctx, "as a device announcement", int_of(it, m["cluster"]), 0x13)
            prove_eq(ctx, "from endpoint 0", m["src_ep"], 0)
            prove_eq(ctx, "to endpoint 0", m["dst_ep"], 0)
            prove_seq_eq(ctx, "with number 0 and the announcement", m["message"], mk_bytes(norm_segs([Lit([0]), sub_gen(g, I(2), z3.simplify(N - 2))])))
    return fn


def other(ss, cmd):
    def fn(ctx, it):
        A = started(ctx, it)
        ct = ("AREQ", "SRSP", "SREQ", "POLL")[ctx.choose(4)] if get(cmd, "name") == ANNOUNCE else "AREQ"
        if get(cmd, "name") == ANNOUNCE and ct == "AREQ":
            return
        o, v = made_of_values(ctx, it, ss, cmd, ct, None if ctx.choose(2) or not get(cmd, "name").endswith("Rsp") else ctx.int("sequence", 0, 255))
        handle(A, o)
        ctx.prove("no join is reported", not joins(A))
    return fn


def GOALS(w):
    out = []
    for ss, cmd in commands(w):
        n = get(cmd, "name")
        if ss.name == "ZDO" and n == ANNOUNCE:
            out.append(Goal("announcement", again(announce(ss, cmd))))
            out += [Goal("announcement, " + w, f) for w, f in during(announce(ss, cmd))]
        out.append(Goal("no join: %s.%s" % (ss.name, n), again(other(ss, cmd))))
    return out
