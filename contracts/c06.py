"""C06: numbers are fixed-width little-endian and never wrap.

For every layout of the command table: integer parameters may be any integers at all.
Encoding succeeds exactly when each is in the range of its type, and then the payload
is, in order, each value in the width of its type, least significant byte first.
Reading each integer type back gives the number with those bytes."""
from contracts.codec import *


def rng_of(t):
    return (-128, 127) if t == "INT8" else (0, (1 << (8 * WIDTH[t])) - 1)


def in_range(e, t):
    lo, hi = rng_of(t)
    return z3.And(e >= lo, e <= hi)


def le_of(e, t):
    n = WIDTH[t]
    return [SInt(z3.simplify((e / I(256 ** k)) % 256)) for k in range(n)]


def one(ss, cmd, kind, ps):
    def fn(ctx, it):
        vals, want, ok = {}, [], []
        for n, t in ps:
            if t in WIDTH:
                v = ctx.int(n)
                ok.append(in_range(v.e, t))
                want.append(Lit(le_of(v.e, t)))
            elif t == "IEEEADDR":
                b = fixed_vals(ctx, n, 8)
                v = SFixed("zigpy.types.EUI64", (Lit(b),))
                want.append(Lit(b))
            elif t in FIXED or t == "BUFFER":
                v = ctx.bytes(n, FIXED.get(t))
                want += list(segs_of(v))
            elif t in ("LIST_UINT8", "LIST_UINT16"):
                c = ctx.int(n + "_len", 0).e
                g = ctx.array(n, c, 0, 255 if t == "LIST_UINT8" else 65535)
                v = SList((g,))
                if t == "LIST_UINT8":
                    want.append(g)
                else:
                    want.append(Gen(c * 2, lambda k, g=g: SInt(z3.If(k % 2 == 0, zi(g.at(k / 2)) % 256, zi(g.at(k / 2)) / 256)), None))
            else:
                return_unsupported(t)
            vals[n] = v
        ctx.inputs.update({"subsystem": ss.name, "command": get(cmd, "name"), "kind": kind, **{"v:" + k: v for k, v in vals.items()}})
        Z = it.w.get("zigpy_cc.zpi_object:ZpiObject")
        CT = it.w.load("zigpy_cc.types").ns["CommandType"].members
        if kind == "request":
            m = it.call(it.getattr(Z, "from_command"), [ss, get(cmd, "name"), payload(vals)], {})
        else:
            m = it.call(Z, [CT["SRSP"], ss, get(cmd, "name"), get(cmd, "ID"), payload(vals), get(cmd, "response")], {})
        ctx.require_reachable("values")
        r = outcome(it, lambda: it.call(it.getattr(m, "to_unpi_frame"), [], {}))
        allok = z3.And([z3.BoolVal(True)] + ok)
        if r.raised:
            ctx.prove("refused only when a value is out of the range of its type", z3.Not(allok))
            return
        if not ctx.prove("a value out of the range of its type is refused", allok):
            return
        prove_seq_eq(ctx, "each value in its own width, low byte first, in order", it.getattr(r.value, "data"), mk_bytes(norm_segs(want)))
    return fn


def return_unsupported(t):
    raise Unsupported(t)


def type_goal(t):
    """One type alone: any integer."""
    def fn(ctx, it):
        PT = it.w.load("zigpy_cc.types").ns["ParameterType"].members
        Buffalo = it.w.get("zigpy_cc.buffalo:Buffalo")
        v = ctx.int("value")
        ctx.inputs.update({"type": t, "value": v})
        b = it.call(Buffalo, [b""], {})
        r = outcome(it, lambda: it.call(it.getattr(b, "write_parameter"), [PT[t], v, SDict({})], {}))
        if r.raised:
            ctx.prove("refused only out of range", z3.Not(in_range(v.e, t)))
            prove_eq(ctx, "nothing is added for a refused value", it.getattr(b, "buffer"), b"")
            return
        if not ctx.prove("out of range is refused", in_range(v.e, t)):
            return
        prove_eq(ctx, "width and byte order", it.getattr(b, "buffer"), mk_bytes((Lit(le_of(v.e, t)),)))
        b2 = it.call(Buffalo, [it.getattr(b, "buffer")], {})
        opt = it.call(it.w.get("zigpy_cc.buffalo:BuffaloOptions"), [], {})
        x = it.call(it.getattr(b2, "read_parameter"), ["value", PT[t], opt], {})
        prove_eq(ctx, "read back", x, v)
    return fn


def address_goal(ctx, it):
    """An eight-byte address given as a number: any integer."""
    PT = it.w.load("zigpy_cc.types").ns["ParameterType"].members
    v = ctx.int("value")
    ctx.inputs.update({"type": "IEEEADDR", "value": v})
    b = it.call(it.w.get("zigpy_cc.buffalo:Buffalo"), [b""], {})
    r = outcome(it, lambda: it.call(it.getattr(b, "write_parameter"), [PT["IEEEADDR"], v, SDict({})], {}))
    ok = z3.And(v.e >= 0, v.e <= (1 << 64) - 1)
    if r.raised:
        ctx.prove("refused only out of range", z3.Not(ok))
        return
    if ctx.prove("out of range is refused", ok):
        prove_eq(ctx, "width and byte order", it.getattr(b, "buffer"), mk_bytes((Lit([SInt(z3.simplify((v.e / I(256 ** k)) % 256)) for k in range(8)]),)))


def list_goal(t):
    """Lists and addresses with elements of any size."""
    def fn(ctx, it):
        PT = it.w.load("zigpy_cc.types").ns["ParameterType"].members
        Buffalo = it.w.get("zigpy_cc.buffalo:Buffalo")
        n = I(8) if t == "IEEEADDR" else ctx.int("n", 0).e
        f, key = ctx.func("el", z3.IntSort(), z3.IntSort())
        hi = 65535 if t == "LIST_UINT16" else 255
        v = SList((Gen(n, lambda k: SInt(f(k)), None),))
        b = it.call(Buffalo, [b""], {})
        r = outcome(it, lambda: it.call(it.getattr(b, "write_parameter"), [PT[t], v, SDict({})], {}))
        k = ctx._fresh("any", z3.IntSort())
        if r.raised:
            return
        ctx.assume(z3.And(k >= 0, k < n))
        ctx.instantiate(k)
        ctx.prove("an element out of range is refused", z3.And(f(k) >= 0, f(k) <= hi))
    return fn


def lqi_goal(ctx, it):
    """A neighbour entry with integers of any size."""
    PT = it.w.load("zigpy_cc.types").ns["ParameterType"].members
    Buffalo = it.w.get("zigpy_cc.buffalo:Buffalo")
    e1, e2 = fixed_vals(ctx, "p", 8), fixed_vals(ctx, "a", 8)
    d = {"extPanId": SFixed("zigpy.types.EUI64", (Lit(e1),)), "extAddr": SFixed("zigpy.types.EUI64", (Lit(e2),)), "nwkAddr": ctx.int("nwk"),
         "deviceType": ctx.int("dt", 0, 3), "rxOnWhenIdle": ctx.int("rx", 0, 3), "relationship": ctx.int("rel", 0, 7),
         "permitJoin": ctx.int("pj"), "depth": ctx.int("depth"), "lqi": ctx.int("lqi")}
    b = it.call(Buffalo, [b""], {})
    r = outcome(it, lambda: it.call(it.getattr(b, "write_parameter"), [PT["LIST_NEIGHBOR_LQI"], SList((Lit([SDict({k: (k, v) for k, v in d.items()})]),)), SDict({})], {}))
    ok = z3.And(in_range(d["nwkAddr"].e, "UINT16"), *[in_range(d[x].e, "UINT8") for x in ("permitJoin", "depth", "lqi")])
    if r.raised:
        ctx.prove("refused only out of range", z3.Not(ok))
        return
    if not ctx.prove("out of range is refused", ok):
        return
    want = e1 + e2 + le_of(d["nwkAddr"].e, "UINT16") + [SInt(d["deviceType"].e + 4 * d["rxOnWhenIdle"].e + 16 * d["relationship"].e), d["permitJoin"], d["depth"], d["lqi"]]
    prove_eq(ctx, "neighbour entry layout", it.getattr(b, "buffer"), mk_bytes((Lit(want),)))


def GOALS(w):
    out = [Goal("type " + t, type_goal(t)) for t in WIDTH]
    out += [Goal("elements of " + t, list_goal(t)) for t in ("LIST_UINT8", "LIST_UINT16", "IEEEADDR")]
    out.append(Goal("type IEEEADDR as a number", address_goal))
    out.append(Goal("neighbour entry", lqi_goal))
    for ss, cmd, kind, ps in table(w):
        if encodable(ps) and not any(t == "LIST_NEIGHBOR_LQI" for _, t in ps):
            out.append(Goal("%s.%s %s" % (ss.name, get(cmd, "name"), kind), one(ss, cmd, kind, ps)))
    return out
