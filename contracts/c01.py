"""C01: every outgoing frame is a well-formed MT frame."""
from contracts.lib import *


def frame_args(ctx, it, sfx=""):
    w = it.w
    T = w.load("zigpy_cc.types").ns
    ct = enum_sym(ctx, T["CommandType"], "command_type" + sfx)
    ss = enum_sym(ctx, T["Subsystem"], "subsystem" + sfx)
    cid = ctx.int("command_id" + sfx, 0, 255)
    data = ctx.bytes("data" + sfx)
    ctx.inputs.update({"command_type" + sfx: ct, "subsystem" + sfx: ss, "command_id" + sfx: cid, "data" + sfx: data})
    return ct, ss, cid, data


def make_frame(ctx, it):
    """A frame object of any state it can be given."""
    ct, ss, cid, data = frame_args(ctx, it)
    cls = it.w.get("zigpy_cc.uart:UnpiFrame")
    init, _ = cls.lookup("__init__")
    kw = {}
    if ctx.choose(2):
        names = [a.arg for a in init.node.args.args + init.node.args.kwonlyargs] if isinstance(init, SFunc) else []
        for n in ("length", "fcs"):
            if n in names:
                kw[n] = ctx.int("given_" + n, 0, 255)
        ctx.inputs["given"] = True
    return ct, ss, cid, data, it.call(cls, [ct, ss, cid, data], kw)


def spec_frame(ctx, ct, ss, cid, data):
    n = blen(data)
    head = (mk_int(n), mk_int(zi(ct) * 32 + zi(ss)), cid)
    body = norm_segs((Lit(head),) + tuple(segs_of(data)))
    x = xor_fold(ctx, I(0), body)
    return mk_bytes((Lit([0xFE]),) + body + (Lit([mk_int(x)]),))


def g_to_buffer(ctx, it):
    ct, ss, cid, data, f = make_frame(ctx, it)
    ctx.require_reachable("arguments of a frame")
    r = outcome(it, lambda: it.call(it.getattr(f, "to_buffer"), [], {}))
    n = blen(data)
    if r.raised:
        ctx.prove("to_buffer refuses only payloads over 255 bytes", n > 255)
        return
    ctx.prove("to_buffer refuses payloads over 255 bytes", n <= 255)
    prove_eq(ctx, "to_buffer returns FE len type|subsystem id data xor", r.value, spec_frame(ctx, ct, ss, cid, data))
    prove_eq(ctx, "the payload of the frame object is unchanged", it.getattr(f, "data"), data)


def g_send(ctx, it):
    ct, ss, cid, data, f = make_frame(ctx, it)
    gw, tr = gateway(ctx, it)
    r = outcome(it, lambda: it.call(it.getattr(gw, "send"), [f], {}))
    wr = [e for e in ctx.trace if e.kind == "write"]
    ctx.prove("send touches the port only by writing", len(wr) == len(ctx.trace))
    n = blen(data)
    if r.raised:
        ctx.prove("send refuses only payloads over 255 bytes", n > 255)
        ctx.prove("nothing is written when the frame is refused", len(wr) == 0)
        return
    ctx.prove("send refuses payloads over 255 bytes", n <= 255)
    if ctx.prove("send writes exactly once", len(wr) == 1):
        prove_eq(ctx, "send writes the whole frame", wr[0].args[0], spec_frame(ctx, ct, ss, cid, data))


def g_two(ctx, it):
    """Two frames on one connection: the port may fail the first write, or have stopped the writing
    before it, during it or after it; once it goes on, what was written is the two frames."""
    A = frame_args(ctx, it, "1")
    B = frame_args(ctx, it, "2")
    for x in (A, B):
        ctx.assume(blen(x[3]) <= 255)
    how = ("nothing", "fail", "before", "during", "between")[ctx.choose(5)]
    ctx.inputs["how"] = how
    cls = it.w.get("zigpy_cc.uart:UnpiFrame")
    gw = it.call(it.w.get("zigpy_cc.uart:Gateway"), [None, None], {})

    def flow(name):
        # what it inherits from asyncio.Protocol does nothing
        if gw.cls.lookup(name)[1] is not None:
            it.call(it.getattr(gw, name), [], {})

    def write(it, a, k):
        first = not any(e.kind in ("write", "failed") for e in ctx.trace)
        if how == "fail" and first:
            ctx.emit(Ev("failed", a[0]))
            it.raise_("OSError", "write failed")
        ctx.emit(Ev("write", a[0]))
        if how == "during" and first:
            flow("pause_writing")
    tr = Mock("transport", write=Builtin("write", write), close=Builtin("close", lambda i, a, k: i.ctx.emit(Ev("close"))))
    it.call(it.getattr(gw, "connection_made"), [tr], {})
    if how == "before":
        flow("pause_writing")
    a = outcome(it, lambda: it.call(it.getattr(gw, "send"), [it.call(cls, list(A), {})], {}))
    ctx.prove("the first frame is not refused", not a.raised or how == "fail")
    if how == "between":
        flow("pause_writing")
    b = outcome(it, lambda: it.call(it.getattr(gw, "send"), [it.call(cls, list(B), {})], {}))
    ctx.prove("the second frame is not refused", not b.raised)
    if how in ("before", "during", "between"):
        flow("resume_writing")
    w = [e for e in ctx.trace if e.kind == "write"]
    want = [B] if how == "fail" else [A, B]
    if how == "fail" and len(w) == 2:
        want = [A, B]       # tried again
    if ctx.prove("each frame is written once", len(w) == len(want)):
        for e, x in zip(w, want):
            prove_eq(ctx, "what is written is the frame", e.args[0], spec_frame(ctx, *x))


GOALS = [Goal("two frames on one connection", g_two), Goal("to_buffer", g_to_buffer), Goal("send", g_send)]
