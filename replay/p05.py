"""C05 oracle: decoding payloads of any length against the reference decoder."""
from lib import *
from zigpy_cc import uart
from zigpy_cc.types import Subsystem, CommandType
from zigpy_cc.zpi_object import ZpiObject

RULE = "payloads for every decodable layout: encoded values cut at every length, extended, with counts raised, and random bytes"


def check(i):
    ss, ct, c = i["ss"], i["ct"], by_id(i["ss"], i["cid"])
    ps = [tuple(p) for p in layout(c, ct)]
    data = bytes(i["data"])
    f = uart.UnpiFrame(CommandType(ct), Subsystem[ss], i["cid"], data)
    try:
        want, pos = decode(ps, data)
    except Short:
        want = None
    try:
        got = ZpiObject.from_unpi_frame(f)
    except Exception as e:
        got = e
    if want is None:
        if not isinstance(got, Exception):
            return "the payload %s is too short for %s, but was decoded to %r" % (data.hex(), c["name"], got.payload)
        return None
    if isinstance(got, Exception):
        if any(t == "UINT8" and n.endswith("addrmode") and want[n] not in ADDRMODES for n, t in ps):
            return None
        return "the payload %s is long enough for %s, but was refused: %s" % (data.hex(), c["name"], describe(got))
    if plain(got.payload) != plain(want):
        return "%s of %s decoded to %r, expected %r" % (data.hex(), c["name"], plain(got.payload), plain(want))
    return None


def cases(rng):
    L = []
    for s, c in cmds():
        for kind in ("request", "response"):
            if c.get(kind) is not None and decodable(c[kind]):
                ct = 3 if kind == "response" else CT[c["type"]]
                if kind == "request" and ct == 3:
                    ct = 2
                L.append((s, c, ct, [tuple(p) for p in c[kind]]))
    first = True
    while True:
        for s, c, ct, ps in L:
            base = {"ss": s, "cid": c["ID"], "ct": ct}
            b = encode(ps, rvals(rng, ps, maxn=4))
            cuts = range(len(b)) if first and len(b) < 60 else [rng.randrange(len(b) + 1), max(0, len(b) - 1)]
            yield dict(base, data=b)
            for k in cuts:
                yield dict(base, data=b[:k])
            yield dict(base, data=b + rbytes(rng, rng.randrange(1, 9)))
            yield dict(base, data=rbytes(rng, rng.randrange(120)))
            if b:
                k = rng.randrange(len(b))
                yield dict(base, data=b[:k] + bytes([rng.randrange(256)]) + b[k + 1:])
        first = False


def from_model(goal, m):
    s, rest = goal.split(".", 1)
    name, kind = rest.rsplit(" ", 1)
    c = find(s, name)
    ct = 3 if kind == "response" else CT[c["type"]]
    return {"ss": s, "cid": c["ID"], "ct": 2 if kind == "request" and ct == 3 else ct, "data": bytes.fromhex(m["data"]["bytes"])}
