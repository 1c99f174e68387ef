"""A simulated Z-Stack coordinator with memory, and the application started on it."""
from stick import *

# numbers of the memory items in the stick's firmware (Z-Stack ZComDef.h)
NV = {"startup": 0x03, "extpan": 0x2D, "key": 0x62, "distribute": 0x63, "panid": 0x83, "channels": 0x84, "logical": 0x87, "directcb": 0x8F,
      "tclk": 0x101, "configured1": 0xF00, "configured3": 0x60}
DEFAULT_KEY = bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])


def configured_id(product):
    return NV["configured1"] if product == 0 else NV["configured3"]


class ZStack:
    """fault(rec, n) -> None: answer normally | int: refuse with this status | "silent" | exception raised inside the write.
    tweak: dict of fixed answers (e.g. devicestate)."""

    def __init__(self, loop, product=1, nv=None, state=0, endpoints=(), groups=(), fault=None, delay=0.01, ieee=None, nwk=0, coord_state=9,
                 revision=20200101):
        self.loop, self.product, self.state = loop, product, state
        self.nv = dict(nv or {})
        self.endpoints, self.groups = list(endpoints), set(groups)
        self.fault, self.delay = fault, delay
        self.ieee, self.nwk, self.coord_state = list(ieee or range(1, 9)), nwk, coord_state
        self.stick = Stick(loop, self.answer)
        self.n = 0
        self.hook = None        # hook(rec) -> None | list of (delay, frame): instead of the normal answer
        self.on_handled = None
        self.started = []       # what made the coordinator start
        self.alive = True

    # ------------------------------------------------------------------ protocol
    def srsp(self, r, **vals):
        return (self.delay, mk("SRSP", r.ss, r.name, vals))

    def areq(self, ss, name, vals, d=0.0):
        return (self.delay + d, mk("AREQ", ss, name, vals))

    def fixed(self, r, status=0):
        """An answer with the given status and nothing else of interest."""
        ps = [tuple(p) for p in layout(find(r.ss, r.name), 3)]
        v = rvals(random.Random(0), ps, maxn=0)
        if "status" in v:
            v["status"] = status
        return (self.delay, encode_frame("SRSP", r.ss, r.name, v))

    def answer(self, r):
        i, self.n = self.n, self.n + 1
        if not self.alive or r.name is None or r.vals is None:
            return
        f = self.fault(r, i) if self.fault else None
        if f == "silent":
            return
        if isinstance(f, BaseException):
            yield (0, f)
            return
        if isinstance(f, int):
            yield self.fixed(r, f)
            return
        if self.hook:
            h = self.hook(r)
            if h is not None:
                yield from h
                return
        yield from self.normal(r)

    def coordinator(self, d=0.2):
        def up():
            self.state = self.coord_state
        self.loop.call_later(self.delay + d, up)
        return self.areq("ZDO", "stateChangeInd", {"state": self.coord_state}, d)

    def normal(self, r):
        v = r.vals
        k = (r.ss, r.name)
        if k == ("SYS", "ping"):
            yield self.srsp(r, capabilities=0x0779)
        elif k == ("SYS", "version"):
            yield self.srsp(r, transportrev=2, product=self.product, majorrel=2, minorrel=7, maintrel=1, revision=20200101)
        elif k == ("SYS", "resetReq"):
            self.state = 0
            self.endpoints, self.groups = [], set()
            if self.nv.get(NV["startup"], b"\0")[0] & 2:
                # clear state: network parameters go back to their defaults
                for n in ("panid", "extpan", "channels", "logical", "distribute", "key"):
                    self.nv.pop(NV[n], None)
                self.nv[NV["startup"]] = b"\0"
            yield self.areq("SYS", "resetInd", {"reason": 0, "transportrev": 2, "productid": self.product, "majorrel": 2, "minorrel": 7, "hwrev": 1}, 0.5)
        elif k == ("SYS", "osalNvRead"):
            x = self.nv.get(v["id"])
            if x is None:
                yield self.srsp(r, status=2, len=0, value=b"")
            else:
                x = x[v["offset"]:]
                yield self.srsp(r, status=0, len=len(x), value=x)
        elif k == ("SYS", "osalNvWrite"):
            old = self.nv.get(v["id"], b"")
            self.nv[v["id"]] = old[:v["offset"]] + bytes(v["value"]) + old[v["offset"] + len(v["value"]):]
            yield self.srsp(r, status=0)
        elif k == ("SYS", "osalNvItemInit"):
            st = 0 if v["id"] in self.nv else 9
            self.nv.setdefault(v["id"], bytes(v["initvalue"]))
            yield self.srsp(r, status=st)
        elif k == ("SAPI", "readConfiguration"):
            x = self.nv.get(v["configid"], b"")
            yield self.srsp(r, status=0 if x else 2, configid=v["configid"], len=len(x), value=x)
        elif k == ("SAPI", "writeConfiguration"):
            self.nv[v["configid"]] = bytes(v["value"])
            yield self.srsp(r, status=0)
        elif k == ("UTIL", "getDeviceInfo"):
            yield self.srsp(r, status=0, ieeeaddr=self.ieee, shortaddr=self.nwk, devicetype=7, devicestate=self.state, numassocdevices=0, assocdeviceslist=[])
        elif k == ("ZDO", "startupFromApp"):
            self.started.append(r.name)
            yield self.srsp(r, status=1)
            yield self.coordinator()
        elif k == ("APP_CNF", "bdbStartCommissioning"):
            yield self.srsp(r, status=0)
            if v["mode"] & 4:
                self.started.append(r.name)
                yield self.coordinator()
        elif k == ("ZDO", "activeEpReq"):
            yield self.srsp(r, status=0)
            yield self.areq("ZDO", "activeEpRsp", {"srcaddr": 0, "status": 0, "nwkaddr": 0, "activeepcount": len(self.endpoints), "activeeplist": list(self.endpoints)}, 0.05)
        elif k == ("AF", "register"):
            st = 0
            if v["endpoint"] in self.endpoints:
                st = 0xB8
            else:
                self.endpoints.append(v["endpoint"])
            yield self.srsp(r, status=st)
        elif k == ("ZDO", "extFindGroup"):
            st = 0 if (v["endpoint"], v["groupid"]) in self.groups else 1
            yield self.srsp(r, status=st, groupid=v["groupid"], namelen=0, groupname=b"")
        elif k == ("ZDO", "extAddGroup"):
            self.groups.add((v["endpoint"], v["groupid"]))
            yield self.srsp(r, status=0)
        elif r.ct == "SREQ":
            yield self.fixed(r)

    @property
    def log(self):
        return self.stick.log

    def names(self, start=0):
        return [(r.ss, r.name) for r in self.log[start:]]


def encode_frame(ct, ss, name, vals):
    return mk(ct, ss, name, vals)


def configured(product, key=DEFAULT_KEY, panid=0x1A62, extpan=b"\xdd" * 8, mask=1 << 11, distribute=0):
    """The memory of a stick that holds this network."""
    return {configured_id(product): b"\x55", NV["channels"]: mask.to_bytes(4, "little"), NV["distribute"]: bytes([distribute]), NV["key"]: bytes(key),
            NV["panid"]: panid.to_bytes(2, "little"), NV["extpan"]: bytes(extpan)}


def config(network=None, **dev):
    import zigpy.config
    c = {zigpy.config.CONF_DEVICE: dict(CONF, **dev), zigpy.config.CONF_DATABASE: None}
    if network:
        c[zigpy.config.CONF_NWK] = network
    return c


async def started(z, network=None, auto_form=False):
    """A real application started on the simulated stick."""
    from zigpy_cc.zigbee.application import ControllerApplication
    app = ControllerApplication(config(network))
    await app.startup(auto_form)
    return app


async def settle(n=10):
    for _ in range(n):
        await asyncio.sleep(0)
