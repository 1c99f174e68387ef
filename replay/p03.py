"""C03 oracle: bad frames between good ones, through the real API layer."""
from lib import *
from zigpy_cc import uart, api as zapi
from zigpy_cc.types import CommandType, Subsystem

RULE = "streams mixing good AREQ/SRSP frames with frames that have a bad checksum, an unknown subsystem, type or command, a payload too short or too long for the command, or make the application fail; non-trivial: a bad frame with a good one after it"


class Boom(Exception):
    pass


class BoomBase(Exception):
    pass


EXC = [Boom, ValueError, KeyError, AttributeError, StopIteration, TypeError, IndexError, AssertionError, OverflowError, RuntimeError]


class App:
    def __init__(self, boom):
        self.got = []
        self.boom = boom

    def handle_znp(self, obj):
        self.got.append((int(obj.command_type), int(obj.subsystem), obj.command, plain(obj.payload)))
        k = (int(obj.subsystem), obj.command)
        if k in self.boom:
            raise EXC[self.boom[k] % len(EXC)]("boom")

    def connection_lost(self):
        pass


GOOD = [("AREQ", "ZDO", "endDeviceAnnceInd"), ("AREQ", "AF", "incomingMsg"), ("SRSP", "SYS", "version"), ("SRSP", "UTIL", "getDeviceInfo"),
        ("AREQ", "AF", "dataConfirm"), ("AREQ", "ZDO", "activeEpRsp"), ("AREQ", "ZDO", "stateChangeInd"), ("SRSP", "SYS", "osalNvRead"),
        ("AREQ", "ZDO", "mgmtLqiRsp"), ("AREQ", "ZDO", "srcRtgInd"), ("SRSP", "SYS", "ping"), ("AREQ", "SYS", "resetInd")]


def build(i):
    """-> [(bytes, expected)] expected: decoded message or None"""
    out = []
    for x in i["items"]:
        kind = x[0]
        if kind == "raw":
            out.append((bytes(x[1]), None))
            continue
        ct, ss, cid, data = x[1], x[2], x[3], bytes(x[4])
        b = frame(ct, ss, cid, data)
        if kind == "sum":
            b = b[:-1] + bytes([b[-1] ^ (x[5] or 1)])
            out.append((b, None))
            continue
        exp = None
        c = by_id(SSN[ss], cid) if ss in SSN and SSN[ss] in MT and ct <= 3 else None
        if c is not None:
            ps = layout(c, ct)
            if (c["response"] if ct == 3 else c["request"]) is not None and decodable(ps):
                try:
                    v, pos = decode(ps, data)
                    if not any(n.endswith("addrmode") and v[n] not in ADDRMODES for n, t in ps if t == "UINT8"):
                        exp = (ct, ss, c["name"], plain(v))
                except Short:
                    pass
        out.append((b, exp))
    return out


def check(i):
    async def go(loop):
        boom = {(b[0], b[1]): b[2] for b in i.get("boom", [])}
        app = App(boom)
        api = zapi.API({})
        api.set_application(app)
        gw = uart.Gateway(api)
        gw.connection_made(Transport())
        parts = build(i)
        stream = b"".join(b for b, _ in parts)
        want = [e for _, e in parts if e is not None]
        kinds = sorted({e[:3] for e in want if (e[1], e[2]) not in boom})
        waits = [asyncio.ensure_future(api.wait_for(CommandType(k[0]), Subsystem(k[1]), k[2], {}).wait()) for k in kinds[:6]]
        idle = asyncio.ensure_future(api.wait_for(CommandType.AREQ, Subsystem.ZDO, "mgmtNwkUpdateNotify", {}).wait())
        for _ in range(3):
            await asyncio.sleep(0)
        pos = 0
        cuts = [min(max(int(c), 0), len(stream)) for c in i["cuts"]]
        if i.get("each"):       # one chunk per item
            n = 0
            for b, _ in parts:
                n += len(b)
                cuts.append(n)
        for c in sorted(cuts) + [len(stream)]:
            try:
                gw.data_received(stream[pos:c])
            except Exception as e:
                return "data_received raised " + describe(e)
            pos = c
        got = app.got
        if got != want:
            return "handed up %r, expected %r" % (got, want)
    return run(go)


def good(rng):
    ct, ss, name = rng.choice(GOOD)
    c = find(ss, name)
    ps = layout(c, CT[ct])
    return ["f", CT[ct], SS[ss], c["ID"], encode(ps, rvals(rng, ps, maxn=9))]


def bad(rng):
    k = rng.randrange(7)
    g = good(rng)
    if k == 0:
        f = frame(*g[1:])[-1]
        return ["sum"] + g[1:] + [rng.choice([1, 0x80, 0xFF, f or 1, (f ^ 0xFF) or 1, rng.randrange(1, 256)])]
    if k == 1:      # unknown subsystem
        return ["f", g[1], rng.choice([s for s in range(32) if s not in SSN]), g[3], g[4]]
    if k == 2:      # unknown type
        return ["f", rng.choice([4, 5, 6, 7]), g[2], g[3], g[4]]
    if k == 3:      # unknown command
        ids = {c["ID"] for c in MT[SSN[g[2]]]}
        return ["f", g[1], g[2], rng.choice([x for x in range(256) if x not in ids]), g[4]]
    if k == 4:      # too short
        return g[:4] + [g[4][:rng.randrange(len(g[4]))] if g[4] else b""]
    if k == 5:      # subsystem without commands
        return ["f", g[1], rng.choice([0, 3]), g[3], g[4]]
    return ["f", rng.randrange(4), rng.choice(list(SSN)), rint(rng, 8), rbytes(rng, rng.randrange(30))]


def cases(rng):
    # unknown subsystem and type numbers, exhaustively, each followed by a good frame
    for ss in range(32):
        for ct in range(8):
            yield {"items": [["f", ct, ss, 0xF7, b"\x01"], good(rng), ["sum"] + good(rng)[1:] + [1], good(rng)], "cuts": [], "boom": []}
    # frames whose checksum byte is one of those a shortcut might take for good
    plainest = [(ct, SS[s], c["ID"], b"") for s in MT if s in SS for c in MT[s] for ct in (1, 2, 3) if (c["response"] if ct == 3 else c["request"]) == []]
    rng.shuffle(plainest)
    for f in plainest[:20] + [tuple(good(rng)[1:]) for _ in range(20)]:
        b = frame(*f)
        yield {"items": [y for v in sorted({0, 1, 0xFF, 0xFE, 0x7F, b[1], b[2], b[3], b[-1] ^ 0xFE, b[-1] ^ 0x80} - {b[-1]}) for y in (["sum"] + list(f) + [b[-1] ^ v], good(rng))], "cuts": [], "boom": []}
    for e in range(len(EXC)):
        yield {"items": [good(rng) for _ in range(8)], "cuts": [9], "boom": [[SS[s], n, e] for _, s, n in GOOD[:7]]}
    for n in (30, 300):
        yield {"items": [bad(rng) for _ in range(n)] + [good(rng) for _ in range(20)], "cuts": [], "boom": [], "each": True}
        b = bad(rng)
        yield {"items": [b] * n + [good(rng) for _ in range(20)], "cuts": [], "boom": [], "each": True}
        yield {"items": [good(rng) for _ in range(n)], "cuts": [], "boom": [[SS[s], nm, rng.randrange(len(EXC))] for _, s, nm in GOOD], "each": n == 30}
    while True:
        items = []
        for _ in range(rng.choice([2, 4, 8])):
            if rng.random() < 0.2:
                items.append(["raw", bytes(b % 0xFE for b in rbytes(rng, rng.choice([1, 3, 30, 255, 256, 300, 700])))])
            items.append(bad(rng) if rng.random() < 0.5 else good(rng))
        items.append(good(rng))
        boom = [[SS[s], n, rng.randrange(len(EXC))] for _, s, n in GOOD if rng.random() < 0.3]
        L = 60 * len(items)
        cuts = sorted(rng.randrange(L) for _ in range(rng.choice([0, 1, 3, 20])))
        yield {"items": items, "cuts": cuts, "boom": boom, "each": rng.random() < 0.4}


def from_model(goal, m):
    b = bytes.fromhex(m["frame"]["bytes"])
    g = ["f", 3, 1, 1, b"\x59\x06"]
    n = b[1]
    p = (b[4:4 + n] + bytes(n))[:n]
    x = 0
    for v in b[1:4] + p:
        x ^= v
    fr = ["sum", b[2] >> 5, b[2] & 31, b[3], p, (x ^ b[-1])] if x != b[-1] else ["f", b[2] >> 5, b[2] & 31, b[3], p]
    return {"items": [fr, g], "cuts": [], "boom": []}
