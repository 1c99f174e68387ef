"""C06 oracle: integer parameters of any size."""
from lib import *
import zigpy.types
from zigpy_cc import uart
from zigpy_cc.types import Subsystem, CommandType, ParameterType
from zigpy_cc.zpi_object import ZpiObject
from zigpy_cc.definition import Definition
from zigpy_cc.buffalo import Buffalo, BuffaloOptions
import p04

RULE = "every layout with one or more integers at and beyond the edges of their range; every integer type alone; addresses and lists with elements out of range"


def rng_of(t):
    return (-128, 127) if t == "INT8" else (0, (1 << (8 * WIDTH[t])) - 1)


def ok(t, v):
    if t in WIDTH:
        lo, hi = rng_of(t)
        return lo <= v <= hi
    if t in ("IEEEADDR", "LIST_UINT8"):
        return all(0 <= x <= 255 for x in v)
    if t == "LIST_UINT16":
        return all(0 <= x <= 65535 for x in v)
    if t == "LIST_NEIGHBOR_LQI":
        return all(0 <= x["nwkAddr"] <= 65535 and all(0 <= x[k] <= 255 for k in ("permitJoin", "depth", "lqi")) for x in v)
    return True


def check(i):
    if i.get("type") == "IEEEADDR":
        v = i["value"]
        b = Buffalo(b"")
        try:
            b.write_parameter(ParameterType.IEEEADDR, v, {})
        except Exception as e:
            return None if not 0 <= v < 1 << 64 else "%r refused as an address: %s" % (v, describe(e))
        if not 0 <= v < 1 << 64:
            return "%r accepted as an address: %s" % (v, bytes(b.buffer).hex())
        return None if bytes(b.buffer) == v.to_bytes(8, "little") else "%r as an address is %s" % (v, bytes(b.buffer).hex())
    if "type" in i:
        t, v = i["type"], i["value"]
        b = Buffalo(b"")
        try:
            b.write_parameter(ParameterType[t], v, {})
        except Exception as e:
            return None if not ok(t, v) else "%r refused as %s: %s" % (v, t, describe(e))
        if not ok(t, v):
            return "%r accepted as %s: %s" % (v, t, bytes(b.buffer).hex())
        if bytes(b.buffer) != enc(t, v):
            return "%r as %s is %s, expected %s" % (v, t, bytes(b.buffer).hex(), enc(t, v).hex())
        o = BuffaloOptions()
        if isinstance(v, list):
            o.length = len(v)
        r = Buffalo(bytes(b.buffer)).read_parameter("value", ParameterType[t], o)
        if plain(r) != plain(v):
            return "%r as %s is read back as %r" % (v, t, r)
        return None
    ss, c, kind = i["ss"], find(i["ss"], i["cmd"]), i["kind"]
    ps = [tuple(p) for p in c[kind]]
    vals = {n: i["vals"][n] for n, _ in ps}
    as_int = {n for n, t in ps if t == "IEEEADDR" and isinstance(vals[n], int)}
    for n in as_int:
        vals[n] = list(vals[n].to_bytes(8, "little"))
    pay = {n: (int.from_bytes(bytes(vals[n]), "little") if n in as_int else vals[n] if t == "IEEEADDR" and not ok(t, vals[n]) else p04.wrap(t, vals[n])) for n, t in ps}
    if kind == "request":
        m = ZpiObject.from_command(Subsystem[ss], c["name"], pay)
    else:
        cur = next(x for x in Definition[Subsystem[ss]] if x["name"] == c["name"])
        m = ZpiObject(CommandType.SRSP, Subsystem[ss], c["name"], c["ID"], pay, cur["response"])
    if kind == "request" and c["type"] == "SRSP":
        return None
    good = all(ok(t, vals[n]) for n, t in ps)
    try:
        f = m.to_unpi_frame()
    except Exception as e:
        return None if not good else "in-range values refused: " + describe(e)
    if not good:
        return "out-of-range value accepted: %r -> %s" % (vals, bytes(f.data).hex())
    if bytes(f.data) != encode(ps, vals):
        return "encoded %s, expected %s" % (bytes(f.data).hex(), encode(ps, vals).hex())
    return None


OFF = [-1, -2, -128, -129, -255, -256, -65536, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 64, -(1 << 31)]


def spoil(rng, t, v):
    if t in WIDTH:
        return rng.choice(OFF)
    if t in ("IEEEADDR", "LIST_UINT8", "LIST_UINT16") and v:
        v = list(v)
        v[rng.randrange(len(v))] = rng.choice(OFF)
    if t == "LIST_NEIGHBOR_LQI" and v:
        v = [dict(x) for x in v]
        v[rng.randrange(len(v))][rng.choice(["nwkAddr", "permitJoin", "depth", "lqi"])] = rng.choice(OFF)
    return v


def cases(rng):
    for t in WIDTH:
        for v in OFF + list(range(-3, 300)) + list(range(65500, 65540)):
            yield {"type": t, "value": v}
    for v in OFF + [0, 1, 0x1234, 0xFFFC, (1 << 56) - 1, (1 << 63), (1 << 64) - 1, 0x0102030405060708]:
        yield {"type": "IEEEADDR", "value": v}
    for t in ("LIST_UINT8", "LIST_UINT16"):
        for n in range(4):
            yield {"type": t, "value": [rint(rng, 8) for _ in range(n)]}
        for v in OFF:
            yield {"type": t, "value": [1, v, 2]}
    L = list(p04.all_layouts())
    while True:
        for s, c, kind in L:
            ps = [tuple(p) for p in c[kind]]
            vals = rvals(rng, ps, maxn=5)
            yield {"ss": s, "cmd": c["name"], "kind": kind, "vals": vals}
            for n, t in ps:
                if t == "IEEEADDR":
                    yield {"ss": s, "cmd": c["name"], "kind": kind, "vals": dict(vals, **{n: rng.choice([rint(rng, 16), rng.getrandbits(64)])})}
                w = dict(vals)
                w[n] = spoil(rng, t, vals[n])
                yield {"ss": s, "cmd": c["name"], "kind": kind, "vals": w}


def from_model(goal, m):
    if goal == "type IEEEADDR as a number":
        return {"type": "IEEEADDR", "value": m["value"]}
    if goal.startswith("type "):
        return {"type": m["type"], "value": m["value"]}
    s, rest = goal.split(".", 1)
    name, kind = rest.rsplit(" ", 1)
    c = find(s, name)
    return {"ss": s, "cmd": name, "kind": kind, "vals": {n: p04.mval(t, m["v:" + n]) for n, t in c[kind]}}
