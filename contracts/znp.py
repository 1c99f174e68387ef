"""start_znp on a symbolic stick: memory items with arbitrary contents, answers with arbitrary
status, and a record of the bytes of every command sent."""
from contracts.lib import *
from contracts.req import run_coro

START = "zigpy_cc.zigbee.start_znp:start_znp"
# memory items of the stick's firmware (Z-Stack ZComDef.h)
STARTUP, EXTPAN, KEY, DISTRIBUTE, PANID, CHANNELS, LOGICAL, DIRECTCB, TCLK, MARK1, MARK3 = \
    0x03, 0x2D, 0x62, 0x63, 0x83, 0x84, 0x87, 0x8F, 0x101, 0xF00, 0x60
V12, V3X0, V30X = 0, 1, 2
LINK_KEY = bytes([255] * 8) + b"ZigBeeAlliance09" + bytes(8)


def marker(version):
    return MARK1 if version == V12 else MARK3


class Network:
    """The configured network: arbitrary values, as the code's NetworkOptions holds them."""

    def __init__(self, ctx, it, concrete=False, numbers=False):
        if concrete:
            return self.fixed(it)
        self.pan = SInt(ctx.int("pan", 0, 0xFFFF).e, "zigpy.types.PanId")
        self.ext = SFixed("zigpy.types.ExtendedPanId", (ctx.array("ext", I(8)),))
        self.key = SFixed("zigpy.types.KeyData", (ctx.array("key", I(16)),))
        self.mask = SInt(ctx.int("channels", 1, 0xFFFFFFFF).e, "zigpy.types.Channels")
        self.dist = ctx.bool("distribute")
        if numbers and ctx.choose(2):
            self.dist = ctx.int("distribute as a number", 0, 1)
        ctx.inputs.update(pan=self.pan, ext=SBytes(self.ext.segs), key=SBytes(self.key.segs), channels=self.mask, distribute=self.dist)
        cfg = SDict({k: (k, v) for k, v in (("pan_id", self.pan), ("extended_pan_id", self.ext), ("key", self.key), ("channels", self.mask))})
        self.options = it.call(it.w.get("zigpy_cc.types:NetworkOptions"), [cfg], {})
        attr(it, self.options, "networkKeyDistribute")
        it.setattr(self.options, "networkKeyDistribute", self.dist)

    def fixed(self, it):
        self.pan = SInt(I(0x1234), "zigpy.types.PanId")
        self.ext = SFixed("zigpy.types.ExtendedPanId", norm_segs([Lit(list(range(8)))]))
        self.key = SFixed("zigpy.types.KeyData", norm_segs([Lit(list(range(16)))]))
        self.mask = SInt(I(2048), "zigpy.types.Channels")
        self.dist = False
        cfg = SDict({k: (k, v) for k, v in (("pan_id", self.pan), ("extended_pan_id", self.ext), ("key", self.key), ("channels", self.mask))})
        self.options = it.call(it.w.get("zigpy_cc.types:NetworkOptions"), [cfg], {})

    def value(self, item, dist=None):
        """What an item holds when the network is configured."""
        if item == PANID:
            return le(self.pan, 2)
        if item == EXTPAN:
            return list(self.ext.segs)
        if item == KEY:
            return list(self.key.segs)
        if item == CHANNELS:
            return le(self.mask, 4)
        if item == DISTRIBUTE:
            return [Lit([SInt(z3.If(zb(self.dist), I(1), I(0)))])]
        return {MARK1: [Lit([0x55])], MARK3: [Lit([0x55])], STARTUP: [Lit([2])], LOGICAL: [Lit([0])], DIRECTCB: [Lit([1])],
                TCLK: [Lit(list(LINK_KEY))]}.get(item)


def zb(b):
    return b.e if isinstance(b, SBool) else b.e != 0 if isinstance(b, SInt) else z3.BoolVal(bool(b))


def le(v, n):
    e = zi(v)
    return [Lit([SInt(z3.simplify((e / (256 ** k)) % 256)) for k in range(n)])]


# statuses other than 0 that do not mean a refusal
FINE = {"osalNvItemInit": (9,), "startupFromApp": (1,), "extFindGroup": (1,), "osalNvRead": (2,), "readConfiguration": (2,)}


class Req:
    __slots__ = ("ss", "name", "data", "out", "item", "mark", "ct")

    def __repr__(self):
        return "%s.%s" % (self.ss, self.name)


class Znp:
    """fault(n, ss, name) -> None | "refuse" | "timeout": what goes wrong with request n.
    absent(item): the stick has no such item."""

    def __init__(self, ctx, it, version, fault=None, absent=None, mem=None):
        self.ctx, self.it, self.version = ctx, it, version
        self.fault, self.absent = fault, absent
        self.mem = mem if mem is not None else {}
        self.answers = {}
        self.initial = {}       # contents of the items at the start, as far as they were looked at
        self.n = 0
        self.mock = Mock("znp", request=Builtin("request", self.request), wait_for=Builtin("wait_for", self.wait_for))

    # ------------------------------------------------------------ the API's contract
    def request(self, it, a, k):
        names = ["subsystem", "command", "payload", "waiter_id", "expected_status"]
        b = dict(zip(names, a))
        b.update(k)

        def go():
            return self.serve(it, b["subsystem"], b["command"], b["payload"], b.get("expected_status"))
        return Coro("request", go)

    def serve(self, it, ss, name, payload, expected):
        ctx = self.ctx
        o = it.call(it.getattr(it.w.get("zigpy_cc.zpi_object:ZpiObject"), "from_command"), [ss, name, payload], {})
        f = it.call(it.getattr(o, "to_unpi_frame"), [], {})
        r = Req()
        r.ss, r.name, r.data, r.item, r.mark = ss.name, name, it.getattr(f, "data"), None, None
        r.ct = o.attrs["command_type"]
        if isinstance(payload, SDict):
            for key in ("id", "configid"):
                if key in payload.d and ((key == "configid") == (r.ss == "SAPI")):
                    v = it.call(B.REG["int"], [payload.d[key][1]], {})
                    if not isinstance(v, int):
                        raise Unsupported("symbolic item number")
                    r.item = v
        exp = [0] if expected is None else [it.call(B.REG["int"], [x], {}) for x in it.concrete_iter(expected)]
        n = self.n
        if self.fault:
            self.ctx.set(self, 'n', n + 1)
        f = self.fault(n, r.ss, name) if self.fault else None
        r.out = "ok"
        if f == "refuse":
            r.out = "refused"
        elif f == "timeout":
            r.out = "timeout"
        elif f == "cancel":
            r.out = "cancelled"
        elif f == "sent":
            r.out = "sent"          # carried out by the stick, but the answer was lost
        ctx.emit(Ev("req", r))
        if f == "timeout":
            it.raise_(X.EX("asyncio.TimeoutError"))
        if f == "cancel":
            it.raise_(X.EX("asyncio.CancelledError"))
        if f == "refuse":
            st = ctx.int("refusal", 1, 255)
            ctx.inputs["refusal"] = st
            for e in FINE.get(name, ()):
                ctx.assume(st.e != e)
            if not ctx.branch(z3.Or([st.e == e for e in exp] or [z3.BoolVal(False)])):
                self.refuse(st)
            return self.result(status=st, len=0, value=b"", devicestate=0)
        res = self.normal(it, r, payload, exp)
        if f == "sent":
            it.raise_(X.EX("asyncio.TimeoutError"))
        return res

    def refuse(self, st):
        self.it.raise_  # noqa
        raise PyRaise(self.it.call(self.it.w.get("zigpy_cc.exception:CommandError"), [st, "refused"], {}))

    def result(self, **v):
        return Mock("result", payload=SDict({k: (k, x) for k, x in v.items()}))

    def content(self, item):
        if item not in self.mem:
            v = self.ctx.bytes("item%x" % item)
            self.ctx.inputs["item%x" % item] = v
            self.ctx.setitem(self.mem, item, v)
            self.ctx.setitem(self.initial, item, v)
        return self.mem[item]

    def status(self, st, exp, **v):
        """The command is answered with status st (an int)."""
        if st not in exp:
            self.refuse(st)
        return self.result(status=st, **v)

    def normal(self, it, r, payload, exp):
        ctx = self.ctx
        k = (r.ss, r.name)
        if k in (("SYS", "osalNvRead"), ("SAPI", "readConfiguration")):
            if r.item not in self.mem and self.absent and self.absent(r.item):
                ctx.emit(Ev("absent", r.item))
                ctx.setitem(self.mem, r.item, None)
            if r.item in self.mem and self.mem[r.item] is None:
                return self.status(2, exp, len=0, value=b"")
            v = self.content(r.item)
            return self.status(0, exp, len=SInt(blen(v)), value=v)
        if k in (("SYS", "osalNvWrite"), ("SAPI", "writeConfiguration")):
            ctx.setitem(self.mem, r.item, payload.d["value"][1])
            return self.status(0, exp)
        if k == ("SYS", "osalNvItemInit"):
            if r.item in self.mem and self.mem[r.item] is None:
                ctx.setitem(self.mem, r.item, payload.d["initvalue"][1])
                return self.status(9, exp)
            return self.status(0, exp)
        if k in self.answers:
            return self.answers[k](it, r, exp)
        return self.status(0, exp)

    def wait_for(self, it, a, k):
        b = dict(zip(["command_type", "subsystem", "command", "payload", "timeout", "sequence"], a))
        b.update(k)
        m = Mock("waiter", id=self.ctx.int("id", 0))
        e = Ev("wait", b, m)
        self.ctx.emit(e)

        def wait(i, x, y):
            return Coro("wait", lambda: self.waited(it, b, m))
        m.attrs["wait"] = Builtin("wait", wait)
        return m

    def waited(self, it, b, m):
        """The awaited message arrives or the time is up."""
        f = self.fault(self.n, "wait", b["command"]) if self.fault else None
        self.ctx.set(self, 'n', self.n + 1)
        self.ctx.emit(Ev("waited", b, m, f))
        if f == "cancel":
            it.raise_(X.EX("asyncio.CancelledError"))
        if f is not None:
            it.raise_(X.EX("asyncio.TimeoutError"))
        h = self.answers.get(("wait", b["command"]))
        return h(it, b) if h else Mock("message")


def evs(ctx, kind, start=0):
    return [e.args for e, g in events(ctx, ctx.trace[start:], (kind,)) if feasible(ctx, g)]


def requests(ctx):
    return [a[0] for a in evs(ctx, "req")]


def healthy(znp):
    """Answers of a stick that is already running with all endpoints and groups."""
    znp.answers[("UTIL", "getDeviceInfo")] = lambda it, r, exp: znp.status(0, exp, devicestate=9)
    tab = endpoints(znp.it)
    znp.answers[("wait", "activeEpRsp")] = lambda it, b: Mock("active", payload=SDict({"activeeplist": ("activeeplist", mk_list([e for e, p in tab])), "status": ("status", 0)}))
    znp.answers[("ZDO", "extFindGroup")] = lambda it, r, exp: znp.status(0, exp)


def mk_list(vals):
    return SList(norm_segs([Lit(list(vals))])) if vals else SList(())


# endpoints the coordinator offers: number -> profile
ENDPOINTS = {1: 0x0104, 2: 0x0101, 3: 0x0106, 4: 0x0107, 5: 0x0108, 6: 0x0109, 8: 0x0104, 11: 0x0104, 0x6E: 0x0104, 12: 0xC05E, 13: 0x0104,
             47: 0x0104, 242: 0xA1E0}


def endpoints(it):
    return sorted(ENDPOINTS.items())


def start(ctx, it, znp, net, version):
    f = it.w.get(START)
    return run_coro(it, f, [znp.mock, version, net.options, 0x0B84, ""])


def data_is(ctx, name, r, segs):
    return prove_seq_eq(ctx, name, r.data, mk_bytes(norm_segs(segs)))


def write_bytes(item, value):
    """Bytes of a memory write of this value."""
    v = mk_bytes(norm_segs(value))
    return [Lit([item & 255, item >> 8, 0, SInt(blen(v))])] + list(segs_of(v))


def is_write(r):
    return (r.ss, r.name) in (("SYS", "osalNvWrite"), ("SAPI", "writeConfiguration"))


def right_write(ctx, name, r, net, value=None):
    v = net.value(r.item) if value is None else value
    n = mk_bytes(norm_segs(v))
    if (r.ss, r.name) == ("SAPI", "writeConfiguration"):
        return data_is(ctx, name, r, [Lit([r.item & 255, SInt(blen(n))])] + list(v))
    return data_is(ctx, name, r, write_bytes(r.item, v))


def configured(z, net, version):
    """The stick holds the configured network."""
    for i in (marker(version), CHANNELS, DISTRIBUTE, KEY, PANID, EXTPAN):
        z.mem[i] = mk_bytes(norm_segs(net.value(i)))


def faults(ctx, kinds=("refuse", "timeout", "cancel", "sent"), skip=()):
    """At most one thing goes wrong, anywhere."""
    st = {"done": None}

    def fault(n, ss, name):
        if st["done"] is not None or name in skip or not ctx.choose(2):
            return None
        ks = [k for k in kinds if ss != "wait" or k in ("timeout", "cancel")]
        k = ks[ctx.choose(len(ks))]
        ctx.setitem(st, "done", (n, ss, name, k))
        ctx.inputs["fault"] = str((ss, name, n, k))
        return k
    fault.state = st
    return fault


def log(ctx):
    """Requests, registrations and ends of waits in the order they happened."""
    out = []
    for e, g in events(ctx, ctx.trace, ("req", "wait", "waited")):
        if feasible(ctx, g):
            out.append((e.kind, e.args))
    return out


def wait_matches(it, b, ct, ss, name, want=None):
    """The wait is for this message (and for these parameter values)."""
    if b["command_type"].name != ct or b["subsystem"].name != ss or b["command"] != name:
        return False
    p = b.get("payload")
    if want is None:
        return True
    return isinstance(p, SDict) and {k: v[1] for k, v in p.d.items()} == want


def clears(ctx, r, at=4):
    v = segs_of(r.data)
    vals = [x for s in v if isinstance(s, Lit) for x in s.vals]
    return len(vals) == at + 1 and vals[at] == 0
