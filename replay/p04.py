"""C04 oracle: encode / decode round trip of every command."""
from lib import *
import zigpy.types
from zigpy_cc import uart
from zigpy_cc.types import Subsystem, CommandType
from zigpy_cc.zpi_object import ZpiObject
from zigpy_cc.definition import Definition

RULE = "every command and layout of the MT table with edge and random in-range values, counts agreeing with the data"


def wrap(t, v):
    """A plain value as callers hold it."""
    if t == "IEEEADDR":
        return zigpy.types.EUI64(v)
    if t == "LIST_NEIGHBOR_LQI":
        return [dict(x, extPanId=zigpy.types.EUI64(x["extPanId"]), extAddr=zigpy.types.EUI64(x["extAddr"])) for x in v]
    if t == "BUFFER" or t in FIXED:
        return bytes(v)
    return v


def check(i):
    if "several" in i:
        # all of them are in use at the same time
        steps = [go(x) for x in i["several"]]
        out = [None] * len(steps)
        for _ in range(4):
            for k, s in enumerate(steps):
                if out[k] is None:
                    try:
                        next(s)
                    except StopIteration as e:
                        out[k] = (e.value,)
        return next((o[0] for o in out if o and o[0]), None)
    s = go(i)
    try:
        while True:
            next(s)
    except StopIteration as e:
        return e.value


def go(i):
    """Build, encode, decode, compare; a pause after each of them."""
    ss, c = i["ss"], find(i["ss"], i["cmd"])
    kind = i["kind"]
    ps = [tuple(p) for p in c[kind]]
    vals = {n: i["vals"][n] for n, _ in ps}
    pay = {n: wrap(t, vals[n]) for n, t in ps}
    if kind == "request":
        m = ZpiObject.from_command(Subsystem[ss], c["name"], pay)
    else:
        cur = next(x for x in Definition[Subsystem[ss]] if x["name"] == c["name"])
        m = ZpiObject(CommandType.SRSP, Subsystem[ss], c["name"], c["ID"], pay, cur["response"])
    yield
    ct = 3 if kind == "response" else CT[c["type"]]
    want = (ct, SS[ss], c["name"], c["ID"])
    if kind == "request" and c["type"] == "SRSP":
        return None
    if (int(m.command_type), int(m.subsystem), m.command, m.command_id) != want:
        return "built %r, expected %r" % ((m.command_type, m.subsystem, m.command, m.command_id), want)
    try:
        f = m.to_unpi_frame()
    except Exception as e:
        return "in-range values refused: " + describe(e)
    yield
    if (int(f.command_type), int(f.subsystem), f.command_id) != (ct, SS[ss], c["ID"]):
        return "frame header %r, expected %r" % ((f.command_type, f.subsystem, f.command_id), want)
    if not decodable(ps):
        if bytes(f.data) != encode(ps, vals):
            return "encoded %s, expected %s" % (bytes(f.data).hex(), encode(ps, vals).hex())
        return None
    try:
        d = ZpiObject.from_unpi_frame(f)
    except Exception as e:
        return "the encoded frame %s is not decoded: %s" % (bytes(f.data).hex(), describe(e))
    yield
    if (int(d.command_type), int(d.subsystem), d.command, d.command_id) != want:
        return "decoded as %r, expected %r" % ((d.command_type, d.subsystem, d.command, d.command_id), want)
    if plain(d.payload) != plain(vals):
        return "values changed: sent %r, got %r" % (plain(vals), plain(d.payload))
    return None


def all_layouts():
    for s, c in cmds():
        for kind in ("request", "response"):
            if c.get(kind) is not None and encodable(c[kind]):
                yield s, c, kind


def cases(rng):
    L = list(all_layouts())
    def one(s, c, kind):
        return {"ss": s, "cmd": c["name"], "kind": kind, "vals": rvals(rng, [tuple(p) for p in c[kind]])}
    while True:
        for s, c, kind in L:
            yield one(s, c, kind)
            if rng.random() < 0.1:
                x = rng.choice(L)
                yield {"several": [one(*rng.choice([(s, c, kind), x, rng.choice(L)])) for _ in range(rng.choice([2, 3, 8]))]}


def from_model(goal, m):
    s, rest = goal.split(".", 1)
    name, kind = rest.rsplit(" ", 1)
    c = find(s, name)
    vals = {}
    for n, t in c[kind]:
        v = m["v:" + n]
        vals[n] = mval(t, v)
    return {"ss": s, "cmd": name, "kind": kind, "vals": vals}


def mval(t, v):
    if isinstance(v, dict) and "bytes" in v:
        v = bytes.fromhex(v["bytes"])
        return list(v) if t in ("IEEEADDR", "LIST_UINT8") else v
    return v
