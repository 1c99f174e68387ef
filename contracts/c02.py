"""C02: the inbound byte stream is decoded to exactly its frames.

Parser.write is specified over the ghost prefix of the frame being received:
 invariant  buffer == F[:k], 0 <= k < 5+n, F the current frame (F[0]=0xFE, F[1]=n)
 write(F[k]) with k < 4+n : returns None, buffer == F[:k+1]
 write(F[4+n])            : returns the frame if it is well-formed, buffer == b""
 write(b), b != 0xFE, buffer == b"" : returns None, buffer == b""
By induction over the stream (this is the prefix lemma; its step is exactly the
three cases above) the parser returns frame m at its last byte and nothing else.
Gateway.data_received is specified against that contract: every byte is given to
the parser exactly once in order, and each frame returned is handed up at once."""
from contracts.lib import *


def parser(ctx, it):
    p = it.call(it.w.get("zigpy_cc.uart:Parser"), [], {})
    attr(it, p, "buffer")
    ctx.keep(only(p, "buffer"), ("buffer",))
    return p


def g_init(ctx, it):
    p = parser(ctx, it)
    empty_bytes(ctx, "a new parser has an empty buffer", attr(it, p, "buffer"))


def hold(ctx, p, segs):
    """Let the buffer hold this (whether it is replaced or changed in place)."""
    old = p.attrs["buffer"]
    if isinstance(old, SByteArray):
        ctx.set(old, "segs", segs)
    else:
        ctx.setitem(p.attrs, "buffer", mk_bytes(segs))


def prefix_state(ctx, it, p, g, k):
    old = attr(it, p, "buffer")
    if not isinstance(old, (bytes, SBytes, SByteArray)):
        raise Unsupported("the parser's buffer is not bytes")
    # k == 0 is the empty buffer
    hold(ctx, p, () if ctx.branch(k == 0) else norm_segs((sub_gen(g, I(0), k),)))


def g_prefix(ctx, it):
    n = ctx.int("n", 0, 255).e
    g, N = frame_array(ctx, n)
    k = ctx.int("k", 0).e
    ctx.assume(k < N - 1)
    ctx.inputs.update(frame=mk_bytes((g,)), k=SInt(k))
    p = parser(ctx, it)
    prefix_state(ctx, it, p, g, k)
    ctx.require_reachable("prefix of a frame")
    r = outcome(it, lambda: it.call(it.getattr(p, "write"), [g.at(k)], {}))
    if not ctx.prove("no exception before the frame is complete", not r.raised):
        return
    ctx.prove("nothing is returned before the frame is complete", r.value is None)
    prove_eq(ctx, "the buffer holds exactly the bytes of the frame so far", attr(it, p, "buffer"), mk_bytes((sub_gen(g, I(0), z3.simplify(k + 1)),)))


def g_last(ctx, it):
    n = ctx.int("n", 0, 255).e
    g, N = frame_array(ctx, n)
    ctx.assume(good_header(g))
    ctx.assume(zi(g.at(z3.simplify(N - 1))) == checksum(ctx, g, n))
    ctx.inputs.update(frame=mk_bytes((g,)), k=SInt(z3.simplify(N - 1)))
    p = parser(ctx, it)
    prefix_state(ctx, it, p, g, z3.simplify(N - 1))
    ctx.require_reachable("well-formed frame, last byte")
    r = outcome(it, lambda: it.call(it.getattr(p, "write"), [g.at(z3.simplify(N - 1))], {}))
    if not ctx.prove("a well-formed frame raises nothing", not r.raised):
        return
    empty_bytes(ctx, "the buffer is empty after the frame", attr(it, p, "buffer"))
    if not ctx.prove("a well-formed frame is returned at its last byte", r.value is not None):
        return
    f = r.value
    b = zi(g.at(I(2)))
    prove_eq(ctx, "command type", it.getattr(f, "command_type"), SInt(z3.simplify(b / 32)))
    prove_eq(ctx, "subsystem", it.getattr(f, "subsystem"), SInt(z3.simplify(b % 32)))
    prove_eq(ctx, "command number", it.getattr(f, "command_id"), g.at(I(3)))
    prove_eq(ctx, "payload", it.getattr(f, "data"), mk_bytes(norm_segs((sub_gen(g, I(4), n),))))


def g_noise(ctx, it):
    b = ctx.int("b", 0, 255)
    ctx.assume(b.e != 0xFE)
    ctx.inputs.update(noise=b)
    p = parser(ctx, it)
    hold(ctx, p, ())
    ctx.require_reachable("a byte that is not a start byte")
    r = outcome(it, lambda: it.call(it.getattr(p, "write"), [b], {}))
    if not ctx.prove("noise raises nothing", not r.raised):
        return
    ctx.prove("noise returns nothing", r.value is None)
    empty_bytes(ctx, "noise leaves the buffer empty", attr(it, p, "buffer"))


def received(ctx, it, may_fail):
    """Run data_received over an arbitrary chunk with Parser.write and API.data_received as contracts."""
    data = ctx.bytes("chunk")
    ctx.inputs.update(chunk=data)
    frames = {}

    def pwrite(i, a, k):
        b = a[1] if len(a) > 1 else k["b"]
        n = 3 if may_fail else 2
        c = i.ctx.choose(n)
        if c == 0:
            i.ctx.emit(Ev("parse", b, "none"))
            return None
        if c == 1:
            f = Mock("frame")
            i.ctx.emit(Ev("parse", b, f))
            return f
        i.ctx.emit(Ev("parse", b, "raise"))
        i.raise_("ValueError", "bad frame")

    def deliver(i, a, k):
        i.ctx.emit(Ev("deliver", a[0]))
        if may_fail and i.ctx.choose(2):
            i.raise_("Exception", "upper layer")
    it.w.get("zigpy_cc.uart:Parser.write")
    ctx.contracts["zigpy_cc.uart:Parser.write"] = pwrite
    api = Mock("api", data_received=Builtin("data_received", deliver))
    gw, tr = gateway(ctx, it, api)
    del ctx.trace[:]
    r = outcome(it, lambda: it.call(it.getattr(gw, "data_received"), [data], {}))
    if not ctx.prove("no exception escapes data_received", not r.raised):
        return
    check_trace(ctx, data)


def check_trace(ctx, data):
    evs = ctx.trace
    n = blen(data)
    if not evs:
        ctx.prove("every byte reaches the parser", n == 0)
        return
    if not ctx.prove("the bytes are processed in one pass", len(evs) == 1 and evs[0].kind == "loop"):
        return
    lp = evs[0]
    ctx.prove("every byte reaches the parser, none twice", lp.n == n)
    for cond, es in lp.cases:
        with ctx.scoped():
            ctx.solver.add(z3.And(lp.j >= 0, lp.j < lp.n, cond))
            if ctx.check() == z3.unsat:
                continue
            if not ctx.prove("each byte is parsed first", len(es) >= 1 and es[0].kind == "parse"):
                continue
            ctx.instantiate(lp.j)
            prove_eq(ctx, "the byte parsed is the byte received", es[0].args[0], index_segs(ctx, segs_of(data), lp.j))
            if isinstance(es[0].args[1], Mock):
                ctx.prove("a frame is handed up exactly once, at once",
                          len(es) == 2 and es[1].kind == "deliver" and es[1].args[0] is es[0].args[1])
            else:
                ctx.prove("nothing is handed up without a frame", len(es) == 1)


def g_received(ctx, it):
    received(ctx, it, False)


GOALS = [Goal("parser init", g_init), Goal("parser step inside a frame", g_prefix), Goal("parser step at the last byte", g_last),
         Goal("parser step on noise", g_noise), Goal("data_received", g_received)]
