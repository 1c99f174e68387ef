"""C26: start-up adapts to the stick and knows its own address.

ControllerApplication.startup on a mocked API: every firmware, arbitrary addresses (other
ones before the network is formed), every command answered, refused or unanswered; and
API.version itself."""
from contracts.app import *

MODULES = ["zigpy_cc.zigbee.application", "zigpy_cc.api"]
ASSUMES = ["the stick reports one of the known firmwares (0, 1, 2) as its product"]
FORM = "zigpy_cc.zigbee.application:ControllerApplication.form_network"


class World:
    def __init__(self, ctx, it, faults):
        self.ctx, self.it = ctx, it
        A = self.A = App(ctx, it, start=False)
        self.fault = None
        self.faults = faults
        self.before = ctx.int("nwk before forming", 0, 65535)
        self.old = SFixed("zigpy.types.EUI64", (ctx.array("ieee before forming", I(8)),))
        A.reply = self.reply
        A.api.attrs["version"] = Builtin("version", self.version)
        it.w.get(FORM)
        ctx.contracts[FORM] = self.form
        ctx.inputs.update(product=A.product, nwk=A.nwk, ieee=SBytes(A.ieee.segs))

    def trouble(self, what):
        if not self.faults or self.fault is not None or not self.ctx.choose(2):
            return
        n = ("refused", "timeout", "port", "cancelled")[self.ctx.choose(4)]
        self.ctx.set(self, "fault", (what, n))
        self.ctx.inputs["fault"] = "%s %s" % (what, n)
        if n == "refused":
            command_error(self.it, self.ctx.int("status", 1, 255))
        self.it.raise_({"timeout": X.EX("asyncio.TimeoutError"), "port": X.EX("serial.SerialException"), "cancelled": X.EX("asyncio.CancelledError")}[n])

    def formed(self):
        return len(self.A.calls("form"))

    def reply(self, it, b):
        self.trouble(b["command"])
        if b["command"] == "ping":
            return Mock("ping", payload=SDict({"capabilities": ("capabilities", self.ctx.int("cap", 0, 65535))}))
        if b["command"] == "getDeviceInfo":
            done = self.formed()
            d = {"status": 0, "ieeeaddr": self.A.ieee if done else self.old, "shortaddr": self.A.nwk if done else self.before, "devicetype": 7, "devicestate": 9,
                 "numassocdevices": 0, "assocdeviceslist": SList(())}
            return Mock("device info", payload=SDict({k: (k, v) for k, v in d.items()}))
        if b["command"] == "version":
            return Mock("version", payload=self.A.version)
        raise Unsupported("start-up asks %r" % (b["command"],))

    def version(self, it, a, k):
        def go():
            self.ctx.emit(Ev("version"))
            self.trouble("version")
            return self.A.version
        return Coro("version", go)

    def form(self, it, a, k):
        def go():
            self.trouble("form")
            self.ctx.emit(Ev("form"))
        return Coro("form_network", go)


def g_start(form, faults):
    def fn(ctx, it):
        W = World(ctx, it, faults)
        ctx.inputs["form"] = form
        one_start(ctx, it, W, form)
    return fn


def g_later(first, form):
    """Start-up of an application started before, with another stick plugged in or another address since."""
    def fn(ctx, it):
        W = World(ctx, it, False)
        A = W.A
        r = A.coro("startup", first)
        if r.raised:
            return
        old = A.product
        A.expose_product(None)
        if ctx.choose(2):
            A.ieee = SFixed("zigpy.types.EUI64", (ctx.array("ieee later", I(8)),))
            W.old = SFixed("zigpy.types.EUI64", (ctx.array("ieee later, before forming", I(8)),))
            ctx.inputs["ieee later"] = SBytes(A.ieee.segs)
        A.nwk, W.before = ctx.int("nwk later", 0, 65535), ctx.int("nwk later, before forming", 0, 65535)
        ctx.inputs.update({"product": old, "product later": A.product, "nwk later": A.nwk, "nwk later, before forming": W.before, "form": first, "form later": form})
        A.cut()
        one_start(ctx, it, W, form)
    return fn


def one_start(ctx, it, W, form):
    A = W.A
    dflt = form is None
    r = A.coro("startup") if dflt else A.coro("startup", form)
    new = A.calls("api_new")
    ctx.prove("one connection is opened", len(new) == 1)
    for a, k in new:
        vals = list(a) + list(k.values())
        ctx.prove("for this application", any(v is A.app for v in vals))
        ctx.prove("with the device configuration", any(v is A.config.d["device"][1] for v in vals))
    reqs = [b["command"] for b, h in A.calls("request")]
    kinds = [e.kind for e, g in events(ctx, ctx.trace[getattr(A, "mark", 0):], ("request", "version", "form"))]
    if ctx.prove("the stick is pinged", bool(reqs)):
        ctx.prove("the stick is pinged first", reqs[0] == "ping" and kinds[0] == "request", reqs)
    if r.raised:
        ctx.prove("start-up fails only if something went wrong", W.fault is not None, describe_exc(r.exc))
        if W.fault == ("ping", "cancelled"):
            return
        if W.fault and W.fault[0] == "ping":
            ctx.prove("a stick that does not answer the ping is not formed", not W.formed())
        return
    ctx.prove("start-up does not succeed when something went wrong", W.fault is None, W.fault)
    ctx.prove("the network is formed exactly when asked to", W.formed() == (1 if form else 0))
    ieee, nwk = (A.ieee, A.nwk) if form else (W.old, W.before)
    # the addresses as zigpy's own properties report them
    prove_eq(ctx, "the long address is known", it.getattr(A.app, "ieee"), ieee)
    prove_eq(ctx, "the short address is known", it.getattr(A.app, "nwk"), nwk)
    dev = A.listed(ieee)
    if ctx.prove("the stick is listed under its long address", dev is not MISSING):
        ctx.prove("it is listed as the coordinator", isinstance(dev, (SObj, Mock)) and it.getattr(dev, "application") is A.app)
        prove_eq(ctx, "the coordinator's long address", it.getattr(dev, "ieee"), ieee)
        prove_eq(ctx, "the coordinator's short address", it.getattr(dev, "nwk"), nwk)
    sems = [m for m in A.locks() if m.attrs["count"] is not None]
    if ctx.prove("there is one limit", len(sems) == 1):
        prove_eq(ctx, "the limit is that of the stick", sems[0].attrs["count"], SInt(z3.If(zi(A.product) == 1, I(16), I(2))))


def evs_(ctx, kind):
    return [e.args for e, g in events(ctx, ctx.trace, (kind,)) if feasible(ctx, g)]


def g_version(ctx, it):
    """API.version asks the stick and hands out what it answers."""
    api = it.call(it.w.get("zigpy_cc.api:API"), [SDict({})], {})
    it.w.get("zigpy_cc.api:API.request")
    pay = SDict({k: (k, ctx.int(k, 0, 255)) for k in ("transportrev", "product", "majorrel", "minorrel", "maintrel")})
    bad = ctx.choose(2)

    def request(i, a, k):
        b = bound(["self"] + REQ, a, k)

        def go():
            ctx.emit(Ev("request", b))
            if bad:
                i.raise_(X.EX("asyncio.TimeoutError"))
            return Mock("answer", payload=pay)
        return Coro("request", go)
    ctx.contracts["zigpy_cc.api:API.request"] = request
    r = run_coro(it, it.getattr(api, "version"), [])
    b = evs_(ctx, "request")
    if ctx.prove("the version is asked for once", len(b) == 1):
        prove_eq(ctx, "the version is asked for", b[0][0]["command"], "version")
        prove_eq(ctx, "from the system", b[0][0]["subsystem"], enum(it, "zigpy_cc.types:Subsystem.SYS"))
    ctx.prove("an unanswered question fails", r.raised == bool(bad))
    if not r.raised:
        if ctx.prove("the answer is handed out", isinstance(r.value, SDict)):
            for k in pay.d:
                if ctx.prove("the %s is handed out" % k, k in r.value.d):
                    prove_eq(ctx, "the %s is handed out" % k, r.value.d[k][1], pay.d[k][1])


def GOALS(w):
    return [Goal("start-up, form=%s%s" % (f, ", one fault" if x else ""), g_start(f, x)) for f in (True, False, None) for x in (False, True)] + \
        [Goal("another start-up, form=%s then %s" % (a, b), g_later(a, b)) for a in (True, False) for b in (True, False)] + [Goal("version", g_version)]
