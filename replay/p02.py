"""C02 oracle: frames handed up for a chunked stream."""
from lib import *
from zigpy_cc import uart

RULE = "streams of well-formed frames (any length incl. 0 and 255) with noise between, cut at random places; non-trivial: at least one frame"


class Api:
    def __init__(self):
        self.got = []
        self.held = []

    def data_received(self, f):
        self.held.append((f, bytes(f.data)))
        self.got.append((int(f.command_type), int(f.subsystem), int(f.command_id), bytes(f.data)))

    def connection_lost(self):
        pass


def check(i):
    """items: ["f", ct, ss, cid, data] or ["n", noise]; cuts: positions;
    before: what an earlier connection, lost since, had received; pause: seconds between the chunks;
    beside: what another connection receives in between"""
    if i.get("before") is not None:
        old = uart.Gateway(Api())
        old.connection_made(Transport())
        old.data_received(bytes(i["before"]))
        old.connection_lost(None)
    stream = b""
    ends = []
    for x in i["items"]:
        if x[0] == "f":
            stream += frame(x[1], x[2], x[3], bytes(x[4]))
            ends.append((len(stream), (x[1], x[2], x[3], bytes(x[4]))))
        else:
            stream += bytes(b for b in bytes(x[1]) if b != 0xFE)
    api = Api()
    gw = uart.Gateway(api)
    gw.connection_made(Transport())
    pos, other = 0, None
    if i.get("beside"):
        other = uart.Gateway(Api())
        other.connection_made(Transport())
    for c in sorted(min(max(int(c), 0), len(stream)) for c in i["cuts"]) + [len(stream)]:
        chunk = stream[pos:c]
        pos = c
        pass_time(i.get("pause", 0))
        if other is not None:
            other.data_received(bytes(i["beside"][:max(1, len(chunk))]))
            i = dict(i, beside=i["beside"][max(1, len(chunk)):])
        try:
            gw.data_received(chunk)
        except Exception as e:
            return "data_received raised " + describe(e)
        want = [f for e, f in ends if e <= c]
        if api.got != want:
            return "after %d of %d bytes handed up %r, expected %r" % (c, len(stream), api.got, want)
    for f, d in api.held:
        if bytes(f.data) != d:
            return "the payload of a frame handed up became %r, it was %r" % (bytes(f.data), d)
    return None


def rframe(rng, n=None):
    if n is None:
        n = rng.choice([0, 0, 1, 2, 3, rng.randrange(20), rng.randrange(256), 255, 250, 251])
    return ["f", rng.randrange(4), rng.choice(list(SSN)), rint(rng, 8), rbytes(rng, n)]


def rnoise(rng):
    return ["n", bytes(b for b in rbytes(rng, rng.choice([0, 1, 2, rng.randrange(12)])) if b != 0xFE)]


def rnoise_of(rng, n):
    return bytes(rng.choice([0, 0, 0xFF, 0x55, rng.randrange(0xFE)]) for _ in range(n))


def cases(rng):
    for n in range(256):
        yield {"items": [rframe(rng, n), rframe(rng, 0), rframe(rng, 3)], "cuts": [] if n % 2 else list(range(600))}
    for ct in range(4):
        for ss in SSN:
            yield {"items": [["f", ct, ss, rint(rng, 8), b""], ["f", ct, ss, rint(rng, 8), b"\xfe\x00\xfe"]], "cuts": [3, 5, 6]}
    # a frame inside a frame, start bytes in payload, repeated start bytes
    inner = frame(2, 5, 0xC0, b"\x09")
    yield {"items": [["f", 2, 4, 0x81, inner + inner], ["f", 3, 1, 1, inner]], "cuts": list(range(40))}
    yield {"items": [["n", bytes(range(0xFE)) + b"\xff"], ["f", 3, 1, 1, b"\x59\x06"]], "cuts": [10]}
    for n in (16, 33, 65, 129, 257, 1025, 5000):
        for c in ([], [n], [n // 2, n + 3]):
            yield {"items": [["n", rnoise_of(rng, n)], rframe(rng, 4), rframe(rng)], "cuts": c}
    # many frames on one connection
    yield {"items": [rframe(rng, rng.choice([0, 1, 5])) for _ in range(600)], "cuts": [100, 1000, 1001]}
    # more than 64 KiB on one connection
    yield {"items": [rframe(rng, rng.choice([200, 255, 250])) for _ in range(300)] + [rframe(rng, 3) for _ in range(50)], "cuts": [70000]}
    while True:
        items = []
        for _ in range(rng.choice([1, 2, 3, 6])):
            if rng.random() < 0.4:
                items.append(rnoise(rng))
            items.append(rframe(rng))
        if rng.random() < 0.3:
            items.append(rnoise(rng))
        L = sum(5 + len(x[4]) if x[0] == "f" else len(x[1]) for x in items)
        k = rng.choice([0, 1, 2, 5, L])
        cuts = list(range(L)) if k == L else sorted(rng.randrange(L + 1) for _ in range(k))
        case = {"items": items, "cuts": cuts}
        if rng.random() < 0.3:
            # the connection before was lost in the middle of a frame
            x = rframe(rng)
            b = frame(x[1], x[2], x[3], bytes(x[4]))
            case["before"] = b[:rng.randrange(len(b))]
        if rng.random() < 0.3:
            case["pause"] = rng.choice([0.01, 0.6, 3, 20, 1e5])
        if rng.random() < 0.2:
            x = rframe(rng)
            case["beside"] = frame(x[1], x[2], x[3], bytes(x[4]))
        yield case


def from_model(goal, m):
    if "frame" in m:
        b = bytes.fromhex(m["frame"]["bytes"])
        n = b[1] if len(b) > 1 else 0
        fr = ["f", 2, 5, b[3] if len(b) > 3 else 0, (b[4:4 + n] + bytes(n))[:n]]
        return {"items": [fr, fr], "cuts": [m.get("k", 0)]}
    if "noise" in m:
        return {"items": [["n", bytes([m["noise"]])], ["f", 3, 1, 1, b"\x59\x06"]], "cuts": []}
    raise KeyError
