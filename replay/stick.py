"""A simulated stick behind the serial port of the real code."""
from lib import *


class Rec:
    """One frame the code wrote."""
    __slots__ = ("t", "ct", "ss", "name", "vals", "data", "n", "raw")

    def __repr__(self):
        return "%s.%s%r" % (self.ss, self.name, self.vals)


class Stick:
    """answer(rec) -> iterable of (delay or None for 'inside the write', frame bytes)."""

    def __init__(self, loop, answer=None):
        self.loop, self.answer = loop, answer
        self.log = []           # Rec of every frame written
        self.raw = []           # everything written
        self.opened = []        # records of open ports
        self.fail = None        # exception (or callable) when the port is opened
        self.made = True        # connection_made at once, or a delay, or None: never
        self.open_delay = 0.0
        self.check = None       # called with each Rec before it is answered
        serial_is(self.open)

    async def open(self, loop, factory, *a, **k):
        rec = {"args": a, "kw": dict(k), "transport": None}
        self.opened.append(rec)
        if self.open_delay:
            await asyncio.sleep(self.open_delay)
        if self.fail is not None:
            e = self.fail(rec) if callable(self.fail) and not isinstance(self.fail, BaseException) else self.fail
            if e is not None:
                raise e
        proto = factory()
        tr = Transport(lambda data: self.written(rec, data))
        tr.protocol = proto
        rec["transport"], rec["protocol"] = tr, proto
        if self.made is True:
            proto.connection_made(tr)
        elif self.made is not None:
            loop.call_later(self.made, proto.connection_made, tr)
        return tr, proto

    def written(self, rec, data):
        self.raw.append(data)
        fs = parse(data)
        if fs is None or len(fs) != 1:
            return
        ct, ss, cid, payload = fs[0]
        r = Rec()
        r.t, r.ct, r.ss, r.n, r.data, r.raw = self.loop.time(), CTN.get(ct), SSN.get(ss), len(self.log), payload, data
        c = by_id(r.ss, cid) if r.ss in MT else None
        r.name = c["name"] if c else None
        r.vals = None
        if c:
            try:
                r.vals, used = decode([tuple(p) for p in layout(c, ct)], payload)
                if used != len(payload):
                    r.vals = None
            except Exception:
                r.vals = None
        self.log.append(r)
        if self.check:
            self.check(r)
        for d, f in (self.answer(r) if self.answer else ()):
            if isinstance(f, BaseException):
                raise f
            if d is None:
                rec["protocol"].data_received(f)
            else:
                self.loop.call_later(d, self.feed, rec, f)

    def feed(self, rec, f):
        if not rec["transport"].closed:
            rec["protocol"].data_received(f)

    def send(self, f):
        """Something the stick sends on its own."""
        self.feed(self.opened[-1], f)


def mk(ct, ss, name, vals):
    """Bytes of a frame the stick sends."""
    c = find(ss, name)
    return frame(CT[ct], SS[ss], c["ID"], encode([tuple(p) for p in layout(c, CT[ct])], vals))


CONF = {"path": "/dev/null", "baudrate": 115200, "flow_control": None}


async def open_api(stick, conf=None):
    from zigpy_cc.api import API
    api = API(dict(conf or CONF))
    await api.connect()
    return api
