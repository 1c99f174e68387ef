"""C03: a bad frame costs only itself.

Parser.write at the last byte of a frame that is not well-formed: no frame is
returned (an exception may be raised) and the buffer is empty again, so the next
frame meets the invariant of C02.  Gateway.data_received: an exception of the
parser or of the layers above is contained and the following bytes are processed."""
from contracts.lib import *
from contracts.c02 import parser, prefix_state, received


def last(ctx, it, assume):
    n = ctx.int("n", 0, 255).e
    g, N = frame_array(ctx, n)
    L = z3.simplify(N - 1)
    assume(g, n, L)
    ctx.inputs.update(frame=mk_bytes((g,)), k=SInt(L))
    p = parser(ctx, it)
    prefix_state(ctx, it, p, g, L)
    ctx.require_reachable("bad frame, last byte")
    r = outcome(it, lambda: it.call(it.getattr(p, "write"), [g.at(L)], {}))
    ctx.prove("a bad frame is not returned", r.raised or r.value is None)
    empty_bytes(ctx, "the buffer is empty after a bad frame", attr(it, p, "buffer"))


def g_badsum(ctx, it):
    last(ctx, it, lambda g, n, L: ctx.assume(zi(g.at(L)) != checksum(ctx, g, n)))


def g_badhead(ctx, it):
    last(ctx, it, lambda g, n, L: ctx.assume(z3.And(zi(g.at(L)) == checksum(ctx, g, n), z3.Not(good_header(g)))))


def g_received(ctx, it):
    received(ctx, it, True)


def g_waits(ctx, it):
    """API.data_received on a frame that cannot be decoded: every wait is as it was, for the frames that follow."""
    api = new_api(ctx, it)
    W = Waits(ctx, it).install(api)
    it.w.get("zigpy_cc.zpi_object:ZpiObject.from_unpi_frame")

    def parse(i, a, k):
        i.raise_(("StopIteration", "OverflowError", "ValueError", "KeyError", "TypeError")[ctx.choose(5)], "cannot be decoded")
    ctx.contracts["zigpy_cc.zpi_object:ZpiObject.from_unpi_frame"] = parse
    ctx.keep(api, ("_waiters",))
    f = Mock("frame", command_type=enum(it, "zigpy_cc.types:CommandType." + ("SRSP", "AREQ", "SREQ", "POLL")[ctx.choose(4)]),
             subsystem=enum_sym(ctx, it.w.load("zigpy_cc.types").ns["Subsystem"], "ss"), command_id=ctx.int("id", 0, 255), data=ctx.bytes("data"))
    outcome(it, lambda: it.call(it.getattr(api, "data_received"), [f], {}))
    for e, g in events(ctx, list(ctx.trace), ("complete", "failed", "cancelled")):
        with under(ctx, g) as ok:
            if ok:
                ctx.prove("a frame that cannot be decoded ends no wait", False)
    mp = attr(it, api, "_waiters")
    q = ctx.int("wait").e
    ctx.instantiate(W.idxf(q))
    with ctx.scoped():
        ctx.solver.add(W.present(q))
        ctx.prove("every wait stays registered", mp.has(q))
        ctx.prove("no wait is touched", W.state(q) == W.state0(q))


GOALS = [Goal("a frame that cannot be decoded leaves the waits alone", g_waits), Goal("bad checksum", g_badsum), Goal("bad header", g_badhead), Goal("data_received contains failures", g_received)]
