"""Helpers for the demonstrations: virtual time and a simulated stick behind the serial transport."""
import asyncio, selectors, logging, os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
import serial_asyncio
POLL, SREQ, AREQ, SRSP = 0, 1, 2, 3
SYS, AF, ZDO, SAPI, UTIL, APP_CNF = 1, 4, 5, 6, 7, 15


class Sel:
    def __init__(self, loop):
        self.loop, self.sel = loop, selectors.SelectSelector()

    def select(self, timeout=None):
        ev = self.sel.select(0)
        if not ev:
            if timeout is None:
                raise RuntimeError("nothing left to happen")
            self.loop.vt += max(timeout, 0)
        return ev

    def __getattr__(self, n):
        return getattr(self.sel, n)


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.vt = 1000.0
        super().__init__(Sel(self))

    def time(self):
        return self.vt


def run(coro_fn):
    loop = Loop()
    loop.set_exception_handler(lambda l, c: None)
    asyncio.set_event_loop(loop)
    return loop.run_until_complete(coro_fn())


def frame(ct, ss, cid, data=b""):
    body = bytes([len(data), ct << 5 | ss, cid]) + bytes(data)
    x = 0
    for b in body:
        x ^= b
    return b"\xfe" + body + bytes([x])


class Stick:
    """answer(ct, ss, cid, data) -> list of frames, or None for the usual behaviour."""

    def __init__(self, product=1, nv=None, answer=None, state=9, eps=(), delay=0.01):
        self.product, self.nv, self.answer, self.state = product, dict(nv or {}), answer, state
        self.eps, self.delay = list(eps), delay
        self.log, self.raw, self.opened, self.closed, self.proto, self.kw, self.groups = [], [], 0, 0, None, [], set()
        serial_asyncio.create_serial_connection = self.create

    async def create(self, loop, factory, *a, **kw):
        self.kw.append(dict(kw, url=kw.get("url", a[0] if a else None)))
        self.opened += 1
        self.proto = factory()
        t = Transport(self)
        self.link(t)
        return t, self.proto

    def link(self, t):
        self.proto.connection_made(t)

    def written(self, data):
        self.raw.append(bytes(data))
        i = 0
        while i < len(data):
            if data[i] != 0xFE:
                i += 1
                continue
            n = data[i + 1]
            self.got(data[i + 2] >> 5, data[i + 2] & 31, data[i + 3], bytes(data[i + 4:i + 4 + n]))
            i += 5 + n

    def got(self, ct, ss, cid, d):
        self.log.append((ct, ss, cid, d))
        out = self.answer(ct, ss, cid, d) if self.answer else None
        if out is None:
            out = self.usual(ct, ss, cid, d)
        for k, f in enumerate(out):
            if self.delay is None:
                self.proto.data_received(f)
            else:
                asyncio.get_event_loop().call_later(self.delay * (k + 1), self.send, f, self.proto)

    def send(self, f, proto=None):
        (proto or self.proto).data_received(f)

    def usual(self, ct, ss, cid, d):
        r = lambda *b: frame(SRSP, ss, cid, bytes(b))
        if ct == SREQ:
            if (ss, cid) == (SYS, 1):
                return [r(0x59, 6)]
            if (ss, cid) == (SYS, 2):
                return [r(2, self.product, 2, 7, 1, 0x10, 0x27, 0x34, 1)]
            if (ss, cid) == (UTIL, 0):
                return [r(0, *range(1, 9), 0, 0, 7, self.state, 0)]
            if (ss, cid) == (SYS, 8):
                v = self.nv.get(d[0] | d[1] << 8)
                return [r(2, 0)] if v is None else [r(0, len(v), *v)]
            if (ss, cid) == (SAPI, 4):
                v = self.nv.get(d[0])
                return [r(2, d[0], 0)] if v is None else [r(0, d[0], len(v), *v)]
            if (ss, cid) == (SYS, 9):
                self.nv[d[0] | d[1] << 8] = d[4:]
                return [r(0)]
            if (ss, cid) == (SAPI, 5):
                self.nv[d[0]] = d[2:]
                return [r(0)]
            if (ss, cid) == (SYS, 7):
                i = d[0] | d[1] << 8
                new = i not in self.nv
                self.nv.setdefault(i, d[5:])
                return [r(9 if new else 0)]
            if (ss, cid) == (ZDO, 0x40) or (ss, cid, d[:1]) == (APP_CNF, 5, b"\x04"):
                self.state = 9
                return [r(0), frame(AREQ, ZDO, 0xC0, b"\x09")]
            if (ss, cid) == (ZDO, 5):
                return [r(0), frame(AREQ, ZDO, 0x85, bytes([0, 0, 0, 0, 0, len(self.eps)] + self.eps))]
            if (ss, cid) == (ZDO, 0x4A):
                return [r(0 if d in self.groups else 1, 0, 0, 0)]
            if (ss, cid) == (AF, 0):
                self.eps.append(d[0])
            return [r(0)]
        if (ct, ss, cid) == (AREQ, SYS, 0):
            self.state = 0
            return [frame(AREQ, SYS, 0x80, bytes(6))]
        return []

    def sent(self, ss, cid):
        return [d for c, s, i, d in self.log if (s, i) == (ss, cid)]


class Transport:
    def __init__(self, stick):
        self.stick, self.open = stick, True

    def write(self, data):
        self.stick.written(data)

    def close(self):
        if self.open:
            self.open = False
            self.stick.closed += 1


def config(**net):
    dev = {"path": "/dev/null", "baudrate": 115200, "flow_control": None}
    return {"device": dev, "network": net}


async def api(stick):
    from zigpy_cc.api import API
    class App:
        seen = []
        def handle_znp(self, obj):
            self.seen.append(obj)
        def connection_lost(self):
            self.lost = True
    a = App()
    a.seen = []
    return await API.new(a, config()["device"])


async def app(stick, form=False, **net):
    from zigpy_cc.zigbee.application import ControllerApplication
    import zigpy.config
    a = ControllerApplication(config(**net))
    await a.startup(form)
    stick.log.clear()
    stick.raw.clear()
    return a


def device(app, nwk, ieee):
    import zigpy.device, zigpy.types as t
    d = zigpy.device.Device(app, t.EUI64(ieee), t.NWK(nwk))
    app.devices[t.EUI64(ieee)] = d
    return d


def watch(app):
    """Lists of what the application hands on."""
    m, j = [], []
    app.handle_message = lambda sender, profile, cluster, src_ep, dst_ep, message: m.append((int(sender.nwk), int(cluster), src_ep, dst_ep, bytes(message)))
    app.handle_join = lambda nwk, ieee, parent: j.append((int(nwk), tuple(ieee)))
    return m, j
