"""C16: device management replies are passed on faithfully.

handle_znp on every supported reply, decoded by the code from arbitrary received bytes,
with and without a transaction number and with the sender known or not."""
from contracts.incoming import *

MODULES = ["zigpy_cc.zigbee.application", "zigpy_cc.zpi_object", "zigpy_cc.buffalo"]
ASSUMES = ["received replies are exactly as long as their layout", "reserved bits of neighbour table entries are 0"]


def reply(ss, cmd, cluster):
    def fn(ctx, it):
        A = started(ctx, it)
        pending = ctx.choose(2)
        seq = ctx.int("sequence", 0, 255) if pending else None
        try:
            o, v, g, N = received(ctx, it, ss, cmd, seq)
        except Skip:
            return
        handle(A, o)
        ms = messages(A)
        ctx.prove("it is not a join", not joins(A))
        if not pending:
            ctx.prove("a reply that answers no request is not handed on", not ms)
            return
        looked_up(ctx, A, nwk=v["srcaddr"])
        d = known(A)
        if d is None:
            ctx.prove("a reply of an unknown device is not handed on", not ms)
            return
        if not ctx.prove("the reply is handed on once", len(ms) == 1):
            return
        m = ms[0]
        ctx.prove("as a message of its sender", m.get("sender") is d)
        prove_eq(ctx, "as the reply's cluster", int_of(it, m["cluster"]), cluster)
        prove_eq(ctx, "from endpoint 0", m["src_ep"], 0)
        prove_eq(ctx, "to endpoint 0", m["dst_ep"], 0)
        prove_seq_eq(ctx, "the number of the request and the bytes as received after the sender address", m["message"],
                     mk_bytes(norm_segs([Lit([seq]), sub_gen(g, I(2), z3.simplify(N - 2))])))
    return fn


def other_reply(ss, cmd):
    """Any other device management message: without a number it is never handed on."""
    def fn(ctx, it):
        A = started(ctx, it)
        o, v = made_of_values(ctx, it, ss, cmd)
        handle(A, o)
        ctx.prove("a reply that answers no request is not handed on", not messages(A))
    return fn


def GOALS(w):
    out = []
    for ss, cmd in commands(w):
        n = get(cmd, "name")
        if ss.name == "ZDO" and n in REPLY:
            out.append(Goal("reply " + n, again(reply(ss, cmd, REPLY[n]))))
            out += [Goal("reply %s, %s" % (n, w), f) for w, f in during(reply(ss, cmd, REPLY[n]))]
        elif ss.name == "ZDO" and n != ANNOUNCE:
            out.append(Goal("unnumbered " + n, again(other_reply(ss, cmd))))
    return out
