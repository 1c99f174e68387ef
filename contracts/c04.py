"""C04: every command survives encoding and decoding unchanged.

For every entry of the command table (request layout, and response layout of
synchronous commands) with arbitrary in-range values whose counts agree with the
data: from_unpi_frame(to_unpi_frame(m)) has m's type, subsystem, command and values."""
from contracts.codec import *


def build(ctx, it, ss, cmd, kind, ps):
    vals = values(ctx, ps)
    ctx.inputs.update({"subsystem": ss.name, "command": get(cmd, "name"), "kind": kind, **{"v:" + k: v for k, v in vals.items()}})
    Z = it.w.get("zigpy_cc.zpi_object:ZpiObject")
    if kind == "request":
        m = it.call(it.getattr(Z, "from_command"), [ss, get(cmd, "name"), payload(vals)], {})
        prove_eq(ctx, "from_command: command type", it.getattr(m, "command_type"), get(cmd, "type"))
        prove_eq(ctx, "from_command: subsystem", it.getattr(m, "subsystem"), ss)
        prove_eq(ctx, "from_command: command name", it.getattr(m, "command"), get(cmd, "name"))
        prove_eq(ctx, "from_command: command number", it.getattr(m, "command_id"), get(cmd, "ID"))
        ctx.prove("from_command uses the request layout", it.getattr(m, "parameters") is get(cmd, "request"))
    else:
        CT = it.w.load("zigpy_cc.types").ns["CommandType"].members
        m = it.call(Z, [CT["SRSP"], ss, get(cmd, "name"), get(cmd, "ID"), payload(vals), get(cmd, "response")], {})
    return m, vals


def one(ss, cmd, kind, ps):
    def fn(ctx, it):
        m, vals = build(ctx, it, ss, cmd, kind, ps)
        ctx.require_reachable("in-range values")
        r = outcome(it, lambda: it.call(it.getattr(m, "to_unpi_frame"), [], {}))
        if not ctx.prove("in-range values are encoded", not r.raised):
            return
        f = r.value
        for a in ("command_type", "subsystem", "command_id"):
            prove_eq(ctx, "frame " + a, it.getattr(f, a), it.getattr(m, a))
        if kind == "request" and cmd.d["type"][1].name == "SRSP":
            return
        if not decodable(ps):
            return
        # an indication is decoded with the request layout, a synchronous response with the response layout
        Z = it.w.get("zigpy_cc.zpi_object:ZpiObject")
        d = outcome(it, lambda: it.call(it.getattr(Z, "from_unpi_frame"), [f], {}))
        if not ctx.prove("the encoded frame is decoded", not d.raised):
            return
        o = d.value
        for a in ("command_type", "subsystem", "command", "command_id"):
            prove_eq(ctx, "decoded " + a, it.getattr(o, a), it.getattr(m, a))
        pl = it.getattr(o, "payload")
        if not ctx.prove("decoded parameters have the layout's names", isinstance(pl, SDict) and list(pl.d) == [n for n, _ in ps]):
            return
        for n, t in ps:
            prove_eq(ctx, "decoded parameter %s" % n, pl.d[n][1], vals[n])
        ctx.prove("a decoded message carries no transaction number", it.getattr(o, "sequence") is None)
    return fn


def GOALS(w):
    out = []
    for ss, cmd, kind, ps in table(w):
        if encodable(ps):
            out.append(Goal("%s.%s %s" % (ss.name, get(cmd, "name"), kind), one(ss, cmd, kind, ps)))
    return out
