"""C15: incoming application messages are dispatched exactly once.

handle_znp on every message of the command table with arbitrary parameters, arbitrary
message type and a device layer that knows the sender or not."""
from contracts.incoming import *

MODULES = ["zigpy_cc.zigbee.application"]
ASSUMES = ["zigpy's get_device finds a known device by either address and raises KeyError for an unknown one"]


def app_message(ss, cmd):
    def fn(ctx, it):
        A = started(ctx, it)
        try:
            o, v, g, N = received(ctx, it, ss, cmd)
        except Skip:
            return
        handle(A, o)
        ms = messages(A)
        src = v["srcaddr"]
        if get(cmd, "name") == "incomingMsg":
            looked_up(ctx, A, nwk=src)
        elif ctx.branch(zi(v["srcaddrmode"]) == 3):
            looked_up(ctx, A, ieee=src)
        else:
            b = [x for s in segs_of(src) for x in s.vals]
            looked_up(ctx, A, nwk=SInt(zi(b[0]) + 256 * zi(b[1])))
        d = known(A)
        if d is None:
            ctx.prove("a message from an unknown device is not handed on", not ms)
            ctx.prove("no link quality is recorded for it", not A.calls("radio"))
        else:
            if ctx.prove("a message from a known device is handed on once", len(ms) == 1):
                m = ms[0]
                ctx.prove("as a message of that device", m.get("sender") is d)
                prove_eq(ctx, "its cluster", m["cluster"], v["clusterid"])
                prove_eq(ctx, "its source endpoint", m["src_ep"], v["srcendpoint"])
                prove_eq(ctx, "its destination endpoint", m["dst_ep"], v["dstendpoint"])
                prove_eq(ctx, "its data", m["message"], v["data"])
            q = A.calls("radio")
            if ctx.prove("the link quality is recorded", len(q) == 1 and q[0][0] is d):
                b = bound(["lqi", "rssi"], q[0][1], q[0][2])
                prove_eq(ctx, "the link quality of the message", b["lqi"], v["linkquality"])
        ctx.prove("it is not a join", not joins(A))
    return fn


def other(ss, cmd):
    """A kind of message the application does not hand on."""
    def fn(ctx, it):
        A = started(ctx, it)
        o, v = made_of_values(ctx, it, ss, cmd)
        handle(A, o)
        ctx.prove("nothing is handed on", not messages(A))
    return fn


def not_indication(ss, cmd):
    """Any message that is no indication."""
    def fn(ctx, it):
        A = started(ctx, it)
        ct = ("POLL", "SREQ", "SRSP")[ctx.choose(3)]
        o, v = made_of_values(ctx, it, ss, cmd, ct, None if ctx.choose(2) else ctx.int("sequence", 0, 255))
        ctx.inputs["ct"] = ct
        handle(A, o)
        ctx.prove("nothing is handed on", not messages(A) and not A.calls("radio"))
        ctx.prove("it is not a join", not joins(A))
    return fn


def GOALS(w):
    out = []
    for ss, cmd in commands(w):
        n = "%s.%s" % (ss.name, get(cmd, "name"))
        if ss.name == "AF" and get(cmd, "name") in AF_IN:
            out.append(Goal("application message " + n, again(app_message(ss, cmd))))
            out += [Goal("application message %s, %s" % (n, w), f) for w, f in during(app_message(ss, cmd))]
        elif not own(ss, cmd):
            out.append(Goal("other " + n, again(other(ss, cmd))))
        if own(ss, cmd):
            out.append(Goal("not an indication " + n, again(not_indication(ss, cmd))))
    return out
