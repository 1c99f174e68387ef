"""Concrete side: the real code of /repo driven by seeded inputs, with oracles
written from the property texts (never from the code)."""
import sys, os, json, random, asyncio, contextvars, selectors, logging, itertools, time

logging.disable(logging.CRITICAL)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
with open(os.path.join(VERIF, "spec", "mt.json")) as _f:
    MT = json.load(_f)

CT = {"POLL": 0, "SREQ": 1, "AREQ": 2, "SRSP": 3}
SS = {"RESERVED": 0, "SYS": 1, "MAC": 2, "NWK": 3, "AF": 4, "ZDO": 5, "SAPI": 6, "UTIL": 7, "DEBUG": 8, "APP": 9,
      "APP_CNF": 15, "GREENPOWER": 21}
SSN = {v: k for k, v in SS.items()}
CTN = {v: k for k, v in CT.items()}
FIXED = {"BUFFER8": 8, "BUFFER16": 16, "BUFFER18": 18, "BUFFER32": 32, "BUFFER42": 42, "BUFFER100": 100}
WIDTH = {"UINT8": 1, "UINT16": 2, "UINT32": 4, "INT8": 1}
UNSUPPORTED = {"LIST_ROUTING_TABLE", "LIST_BIND_TABLE", "LIST_NETWORK", "LIST_ASSOC_DEV"}
ADDRMODES = [0, 1, 2, 3, 15]


# ---------------------------------------------------------------- virtual time
class _Sel:
    def __init__(self, loop):
        self.loop = loop
        self.sel = selectors.SelectSelector()

    def select(self, timeout=None):
        ev = self.sel.select(0)
        if ev:
            return ev
        if timeout is None:
            raise Deadlock("nothing left to happen")
        if timeout > 0:
            self.loop.vt += timeout
        return ev

    def __getattr__(self, n):
        return getattr(self.sel, n)


class Deadlock(Exception):
    pass


class Clock:
    """What time.time() and the other clocks of the process say: the virtual time of the loop,
    or moved by hand (pass_time) where there is none."""
    now = 1000.0


def pass_time(s):
    Clock.now += s


_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}
clock = _real["monotonic"]
for _n in _real:
    setattr(time, _n, lambda: Clock.now)
    setattr(time, _n + "_ns", lambda: int(Clock.now * 1e9))


class VLoop(asyncio.SelectorEventLoop):
    """Event loop on virtual time: never sleeps."""
    def __init__(self):
        Clock.now = 1000.0
        s = _Sel(self)
        super().__init__(s)

    @property
    def vt(self):
        return Clock.now

    @vt.setter
    def vt(self, v):
        Clock.now = v

    def time(self):
        return Clock.now


def run(make, *a, **k):
    """Run make(loop) -> coroutine on a fresh virtual-time loop."""
    loop = VLoop()
    loop.set_exception_handler(lambda l, c: loop_errors.append(c))
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(make(loop, *a, **k))
    finally:
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            try:
                loop.run_until_complete(asyncio.sleep(0))
                loop.run_until_complete(asyncio.sleep(0))
            except Exception:
                pass
        finally:
            loop.close()
            asyncio.set_event_loop(None)


loop_errors = []


# ---------------------------------------------------------------- reference frames
def frame(ct, ss, cid, data):
    body = bytes([len(data), ((ct & 7) << 5) | (ss & 31), cid]) + bytes(data)
    x = 0
    for b in body:
        x ^= b
    return b"\xfe" + body + bytes([x])


def parse(buf):
    """Frames of a well-formed byte string: [(ct, ss, cid, data)]; None if not well-formed."""
    out = []
    i = 0
    while i < len(buf):
        if buf[i] != 0xFE or i + 5 > len(buf):
            return None
        n = buf[i + 1]
        if i + 5 + n > len(buf):
            return None
        x = 0
        for b in buf[i + 1:i + 4 + n]:
            x ^= b
        if x != buf[i + 4 + n]:
            return None
        out.append((buf[i + 2] >> 5, buf[i + 2] & 31, buf[i + 3], bytes(buf[i + 4:i + 4 + n])))
        i += 5 + n
    return out


# ---------------------------------------------------------------- reference codec
def cmds():
    for s, l in MT.items():
        for c in l:
            yield s, c


def find(ss, name):
    return next(c for c in MT[ss] if c["name"] == name)


def by_id(ss, cid):
    return next((c for c in MT[ss] if c["ID"] == cid), None)


def layout(c, ct):
    return (c["response"] if ct == 3 else c["request"]) or []


def encodable(ps):
    return not any(t in UNSUPPORTED for _, t in ps)


def decodable(ps):
    for i, (n, t) in enumerate(ps):
        if t in UNSUPPORTED:
            return False
        if t == "BUFFER" or t.startswith("LIST"):
            if i == 0 or not ps[i - 1][1].startswith(("UINT", "INT")):
                return False
    return True


def enc(t, v):
    if t in WIDTH:
        return int(v).to_bytes(WIDTH[t], "little", signed=t == "INT8")
    if t == "IEEEADDR":
        return bytes(v)
    if t == "BUFFER" or t in FIXED:
        return bytes(v)
    if t == "LIST_UINT8":
        return bytes(v)
    if t == "LIST_UINT16":
        return b"".join(int(x).to_bytes(2, "little") for x in v)
    if t == "LIST_NEIGHBOR_LQI":
        out = b""
        for x in v:
            out += bytes(x["extPanId"]) + bytes(x["extAddr"]) + x["nwkAddr"].to_bytes(2, "little")
            out += bytes([x["deviceType"] | x["rxOnWhenIdle"] << 2 | x["relationship"] << 4, x["permitJoin"], x["depth"], x["lqi"]])
        return out
    raise KeyError(t)


def encode(ps, vals):
    return b"".join(enc(t, vals[n]) for n, t in ps)


class Short(Exception):
    pass


def decode(ps, data):
    """Reference decoder -> dict; Short when the payload is too short."""
    pos = 0
    prev = None
    out = {}

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise Short()
        r = data[pos:pos + n]
        pos += n
        return r
    for n, t in ps:
        if t in WIDTH:
            v = int.from_bytes(take(WIDTH[t]), "little", signed=t == "INT8")
        elif t == "IEEEADDR":
            v = list(take(8))
        elif t in FIXED:
            v = take(FIXED[t])
        elif t == "BUFFER":
            v = take(prev)
        elif t == "LIST_UINT8":
            v = list(take(prev))
        elif t == "LIST_UINT16":
            v = [int.from_bytes(take(2), "little") for _ in range(prev)]
        elif t == "LIST_NEIGHBOR_LQI":
            v = []
            for _ in range(prev):
                b = take(22)
                v.append({"extPanId": list(b[:8]), "extAddr": list(b[8:16]), "nwkAddr": b[16] | b[17] << 8,
                          "deviceType": b[18] & 3, "rxOnWhenIdle": (b[18] >> 2) & 3, "relationship": (b[18] >> 4) & 7,
                          "permitJoin": b[19] & 3, "depth": b[20], "lqi": b[21]})
        else:
            raise KeyError(t)
        out[n] = v
        prev = v
    return out, pos


EDGE8 = [0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF]
EDGE16 = [0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFF8, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF]
EDGE32 = [0, 1, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]


def rint(rng, bits):
    e = {8: EDGE8, 16: EDGE16, 32: EDGE32}[bits]
    return rng.choice(e) if rng.random() < 0.3 else rng.randrange(1 << bits)


def rbytes(rng, n):
    k = rng.random()
    if k < 0.1:
        return bytes([rng.choice(EDGE8)]) * n
    if k < 0.2:
        return bytes(rng.choice([0xFE, 0xFE, 0, 5, 0xFF]) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def rlqi(rng):
    return {"extPanId": list(rbytes(rng, 8)), "extAddr": list(rbytes(rng, 8)), "nwkAddr": rint(rng, 16),
            "deviceType": rng.randrange(4), "rxOnWhenIdle": rng.randrange(4), "relationship": rng.randrange(8),
            "permitJoin": rng.randrange(4), "depth": rint(rng, 8), "lqi": rint(rng, 8)}


def rvals(rng, ps, maxn=None, total=240):
    """Values for a layout, counts agreeing with the data."""
    out = {}
    for i, (n, t) in enumerate(ps):
        nxt = ps[i + 1][1] if i + 1 < len(ps) else None
        if t in WIDTH:
            bits = 8 * WIDTH[t]
            v = rint(rng, bits)
            if t == "INT8":
                v = v - 256 if v > 127 else v
            elif t == "UINT8" and n.endswith("addrmode"):
                v = rng.choice(ADDRMODES)
            if nxt is not None and (nxt == "BUFFER" or nxt.startswith("LIST")):
                unit = {"LIST_UINT16": 2, "LIST_NEIGHBOR_LQI": 22}.get(nxt, 1)
                # later counted items need room too
                later = sum(1 for _, tt in ps[i + 2:] if tt == "BUFFER" or tt.startswith("LIST"))
                room = max(0, total // (later + 1))
                top = min(maxn if maxn is not None else 255, room // unit)
                v = rng.choice([0, 1, min(2, top), top, rng.randrange(top + 1), rng.randrange(min(top, 8) + 1)])
                total -= v * unit
        elif t == "IEEEADDR":
            v = list(rbytes(rng, 8))
            total -= 8
        elif t in FIXED:
            v = rbytes(rng, FIXED[t])
        elif t == "BUFFER":
            k = out[ps[i - 1][0]] if i and isinstance(out[ps[i - 1][0]], int) else rng.choice([0, 1, 16, rng.randrange(40)])
            v = rbytes(rng, k)
        elif t == "LIST_UINT8":
            v = list(rbytes(rng, out[ps[i - 1][0]]))
        elif t == "LIST_UINT16":
            v = [rint(rng, 16) for _ in range(out[ps[i - 1][0]])]
        elif t == "LIST_NEIGHBOR_LQI":
            v = [rlqi(rng) for _ in range(out[ps[i - 1][0]])]
        out[n] = v
    return out


def plain(v):
    """Value of the code under test -> plain comparable value."""
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


# JSON <-> values
def jin(v):
    if isinstance(v, dict):
        if set(v) == {"hex"}:
            return bytes.fromhex(v["hex"])
        return {k: jin(x) for k, x in v.items()}
    if isinstance(v, list):
        return [jin(x) for x in v]
    return v


def jout(v):
    if isinstance(v, (bytes, bytearray)):
        return {"hex": bytes(v).hex()}
    if isinstance(v, dict):
        return {str(k): jout(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jout(x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, (str, float)):
        return v
    if isinstance(v, int):
        return int(v)
    return repr(v)


# ---------------------------------------------------------------- fakes
class Transport:
    """Stands in for the serial transport: records what is done to it."""
    def __init__(self, on_write=None):
        self.log = []
        self.on_write = on_write
        self.closed = 0
        self.protocol = None

    def write(self, data):
        self.log.append(("write", bytes(data)))
        if self.on_write:
            self.on_write(bytes(data))

    def close(self):
        self.closed += 1
        self.log.append(("close",))

    def abort(self):
        self.close()

    def is_closing(self):
        return self.closed > 0

    def get_extra_info(self, n, default=None):
        return default

    @property
    def writes(self):
        return [x[1] for x in self.log if x[0] == "write"]


SERIAL = {"open": None}
# several sticks at a time: the one whose port this task opens
PORT = contextvars.ContextVar("stick", default=None)


def serial_is(f):
    """From now on, this task and those it starts open this port."""
    SERIAL["open"] = f
    PORT.set(f)


async def together(loop, *makes):
    """Several stories at the same time, each with a stick of its own: the first thing wrong with any."""
    for r in await asyncio.gather(*[asyncio.ensure_future(m(loop)) for m in makes]):
        if r is not None:
            return r
    return None


def _install():
    import serial_asyncio

    async def create(loop, factory, *a, **k):
        h = PORT.get() or SERIAL["open"]
        if h is None:
            raise RuntimeError("serial port opened outside a check")
        return await h(loop, factory, *a, **k)
    serial_asyncio.create_serial_connection = create


_install()


def opener(calls, on_write=None, fail=None, delay=0.0, made=True):
    """A create_serial_connection that gives a Transport."""
    async def create(loop, factory, *a, **k):
        rec = {"args": a, "kw": dict(k), "transport": None}
        calls.append(rec)
        if delay:
            await asyncio.sleep(delay)
        if fail is not None:
            e = fail(rec) if callable(fail) and not isinstance(fail, BaseException) else fail
            if e is not None:
                raise e
        proto = factory()
        tr = Transport(on_write(rec) if on_write else None)
        tr.protocol = proto
        rec["transport"] = tr
        rec["protocol"] = proto
        if made is True:
            proto.connection_made(tr)
        elif made is not None:
            loop.call_later(made, proto.connection_made, tr)
        return tr, proto
    return create


def describe(e):
    return "%s: %s" % (type(e).__name__, e)
