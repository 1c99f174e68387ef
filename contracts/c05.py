"""C05: decoding never reads beyond the payload.

For every layout of the command table that can be decoded and received payloads of
any length and content: decoding succeeds exactly when the payload is long enough,
and then every parameter is made of the next bytes, in order, starting at the first."""
from contracts.codec import *


def one(ss, cmd, kind, ps):
    def fn(ctx, it):
        N = ctx.int("len", 0).e
        g = ctx.array("D", N)
        data = mk_bytes((g,))
        ctx.inputs.update({"subsystem": ss.name, "command": get(cmd, "name"), "kind": kind, "data": data})
        CT = it.w.load("zigpy_cc.types").ns["CommandType"].members
        ct = CT["SRSP"] if kind == "response" else get(cmd, "type")
        if kind == "request" and ct.name == "SRSP":
            ct = CT["AREQ"]
        f = it.call(it.w.get("zigpy_cc.uart:UnpiFrame"), [ct, ss, get(cmd, "ID"), data], {})
        # the specification: consecutive bytes, short -> refused
        st, want, _ = reference(ctx, g, N, ps)
        short, bad = st == "short", st == "bad"
        Z = it.w.get("zigpy_cc.zpi_object:ZpiObject")
        d = outcome(it, lambda: it.call(it.getattr(Z, "from_unpi_frame"), [f], {}))
        if short:
            ctx.prove("a payload that ends before the last parameter is refused", d.raised)
            return
        if bad:
            return              # a value that means nothing may be refused
        if not ctx.prove("a payload that is long enough is decoded", not d.raised):
            return
        pl = it.getattr(d.value, "payload")
        if not ctx.prove("the parameters of the layout, no others", isinstance(pl, SDict) and sorted(pl.d) == sorted(n for n, _ in ps)):
            return
        for n, t in ps:
            prove_eq(ctx, "parameter %s is made of the bytes at its place" % n, pl.d[n][1], want[n])
    return fn


def GOALS(w):
    return [Goal("%s.%s %s" % (ss.name, get(cmd, "name"), kind), one(ss, cmd, kind, ps)) for ss, cmd, kind, ps in table(w) if decodable(ps)]
