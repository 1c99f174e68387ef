"""Pieces shared by the codec contracts C04, C05, C06."""
from contracts.lib import *

FIXED = {"BUFFER8": 8, "BUFFER16": 16, "BUFFER18": 18, "BUFFER32": 32, "BUFFER42": 42, "BUFFER100": 100}
WIDTH = {"UINT8": 1, "UINT16": 2, "UINT32": 4, "INT8": 1}
UNSUPPORTED = {"LIST_ROUTING_TABLE", "LIST_BIND_TABLE", "LIST_NETWORK", "LIST_ASSOC_DEV"}
ADDRMODES = (0, 1, 2, 3, 15)
LQI = 22


def table(w):
    """The current command table as plain Python: [(subsystem member, command SDict, kind, [(name, type name)])]."""
    D = w.load("zigpy_cc.definition").ns["Definition"]
    out = []
    for k, (ss, lst) in D.d.items():
        for cmd in [x for s in segs_of(lst) for x in s.vals]:
            for kind in ("request", "response"):
                if kind in cmd.d:
                    out.append((ss, cmd, kind, params(cmd.d[kind][1])))
    return out


def params(lst):
    return [(p.d["name"][1], p.d["parameterType"][1].name) for s in segs_of(lst) for p in s.vals]


def get(cmd, k):
    return cmd.d[k][1]


def counted(t):
    return t == "BUFFER" or t.startswith("LIST")


def encodable(ps):
    return not any(t in UNSUPPORTED for _, t in ps)


def decodable(ps):
    for i, (n, t) in enumerate(ps):
        if t in UNSUPPORTED:
            return False
        if counted(t) and (i == 0 or not ps[i - 1][1].startswith(("UINT", "INT"))):
            return False
    return True


def val_lqi(ctx, name):
    """A symbolic neighbour table entry (in-range values)."""
    d = {"extPanId": SFixed("zigpy.types.EUI64", (ctx.array(name + ".pan", I(8)),)), "extAddr": SFixed("zigpy.types.EUI64", (ctx.array(name + ".ext", I(8)),)),
         "nwkAddr": ctx.int(name + ".nwk", 0, 65535), "deviceType": ctx.int(name + ".dt", 0, 3), "rxOnWhenIdle": ctx.int(name + ".rx", 0, 3),
         "relationship": ctx.int(name + ".rel", 0, 7), "permitJoin": ctx.int(name + ".pj", 0, 3), "depth": ctx.int(name + ".depth", 0, 255), "lqi": ctx.int(name + ".lqi", 0, 255)}
    return d


def sym_int(ctx, name, t):
    return ctx.int(name, -128, 127) if t == "INT8" else ctx.int(name, 0, (1 << (8 * WIDTH[t])) - 1)


def fixed_vals(ctx, name, n):
    g = ctx.array(name, I(n))
    return [g.at(I(k)) for k in range(n)]


def lqi_entry(ctx, f, k):
    """Entry k of a family of neighbour entries: fields are functions of k."""
    def rng(fn, hi, *a):
        e = fn(*a)
        ctx.axiom(z3.And(e >= 0, e <= hi))
        return SInt(e)
    d = {}
    for nm in ("extPanId", "extAddr"):
        d[nm] = SFixed("zigpy.types.EUI64", (Lit([rng(f[nm], 255, k, I(q)) for q in range(8)]),))
    for nm, hi in (("nwkAddr", 65535), ("deviceType", 3), ("rxOnWhenIdle", 3), ("relationship", 7), ("permitJoin", 3), ("depth", 255), ("lqi", 255)):
        d[nm] = rng(f[nm], hi, k)
    return SDict({a: (a, v) for a, v in d.items()})


def lqi_family(ctx, name):
    Z = z3.IntSort()
    f = {}
    for nm in ("extPanId", "extAddr"):
        f[nm] = ctx.func(name + "." + nm, Z, Z, Z)[0]
    for nm in ("nwkAddr", "deviceType", "rxOnWhenIdle", "relationship", "permitJoin", "depth", "lqi"):
        f[nm] = ctx.func(name + "." + nm, Z, Z)[0]
    return f


def values(ctx, ps):
    """Arbitrary in-range values of a layout, counts agreeing with the data."""
    out = {}
    for i, (n, t) in enumerate(ps):
        if t in WIDTH:
            v = sym_int(ctx, n, t)
            if t == "UINT8" and n.endswith("addrmode"):
                ctx.assume(z3.Or([v.e == m for m in ADDRMODES]))
        elif t == "IEEEADDR":
            v = SFixed("zigpy.types.EUI64", norm_segs((Lit(fixed_vals(ctx, n, 8)),)))
        elif t in FIXED:
            v = ctx.bytes(n, FIXED[t])
        else:
            cnt = None
            if i and ps[i - 1][1] in WIDTH:
                cnt = out[ps[i - 1][0]].e
                ctx.assume(cnt >= 0)
            if t == "BUFFER":
                v = ctx.bytes(n, SInt(cnt) if cnt is not None else None)
            elif t == "LIST_UINT8":
                v = SList((ctx.array(n, cnt),))
            elif t == "LIST_UINT16":
                v = SList((ctx.array(n, cnt, 0, 65535),))
            elif t == "LIST_NEIGHBOR_LQI":
                f = lqi_family(ctx, n)
                v = SList((Gen(cnt, lambda k, f=f: lqi_entry(ctx, f, k), None),))
            else:
                raise Unsupported(t)
        out[n] = v
    return out


def payload(vals):
    return SDict({k: (k, v) for k, v in vals.items()})


def le_bytes(e, n):
    return [mk_int(z3.simplify((e / I(256 ** k)) % 256 if k else e % 256)) for k in range(n)]


# ------------------------------------------------------------------ the reference reading of a layout
NEED = {"LIST_UINT8": 1, "LIST_UINT16": 2, "LIST_NEIGHBOR_LQI": LQI}


def byte(g, p):
    return zi(g.at(z3.simplify(p)))


def le(g, p, n, signed=False):
    e = z3.Sum([byte(g, p + k) * (256 ** k) for k in range(n)])
    if signed:
        e = z3.If(e >= 128, e - 256, e)
    return z3.simplify(e)


def eui(g, p):
    return SFixed("zigpy.types.EUI64", (Lit([SInt(byte(g, p + k)) for k in range(8)]),))


def entry(g, p):
    b = byte(g, p + 18)
    d = {"extPanId": eui(g, p), "extAddr": eui(g, p + 8), "nwkAddr": SInt(le(g, p + 16, 2)), "deviceType": SInt(b % 4),
         "rxOnWhenIdle": SInt((b / 4) % 4), "relationship": SInt((b / 16) % 8), "permitJoin": SInt(byte(g, p + 19) % 4),
         "depth": SInt(byte(g, p + 20)), "lqi": SInt(byte(g, p + 21))}
    return SDict({k: (k, v) for k, v in d.items()})


def sub(g, start, n):
    at = g.at
    return Gen(z3.simplify(n), (lambda k: at(z3.simplify(start + k))), (g.key[0], z3.simplify(g.key[1] + start)))


def reference(ctx, g, N, ps, pos=None):
    """Parameters of a layout as consecutive bytes of g from pos, short -> refused.
    -> (status "ok" | "short" | "bad", values, end)"""
    pos, want, prev = (I(0) if pos is None else pos), {}, None
    for n, t in ps:
        if t in WIDTH:
            w = I(WIDTH[t])
        elif t == "IEEEADDR":
            w = I(8)
        elif t in FIXED:
            w = I(FIXED[t])
        else:
            w = z3.simplify(zi(prev) * NEED.get(t, 1))
        end = z3.simplify(pos + w)
        if not ctx.branch(end <= N):
            return "short", want, pos
        if t in WIDTH:
            v = SInt(le(g, pos, WIDTH[t], t == "INT8"))
            if t == "UINT8" and n.endswith("addrmode") and not ctx.branch(z3.Or([v.e == m for m in ADDRMODES])):
                return "bad", want, pos
        elif t == "IEEEADDR":
            v = eui(g, pos)
        elif t in FIXED or t == "BUFFER":
            v = mk_bytes(norm_segs((sub(g, pos, w),)))
        else:
            m = {"LIST_UINT8": lambda k, p=pos: SInt(byte(g, p + k)), "LIST_UINT16": lambda k, p=pos: SInt(le(g, p + 2 * k, 2)),
                 "LIST_NEIGHBOR_LQI": lambda k, p=pos: entry(g, p + LQI * k)}[t]
            v = SList((Gen(zi(prev), m, None),))
        want[n] = v
        prev, pos = v, end
    return "ok", want, pos
