"""The application on top of a mocked API layer and device layer (zigpy)."""
from contracts.lib import *
from contracts.req import run_coro

APPCLS = "zigpy_cc.zigbee.application:ControllerApplication"
BASE = "zigpy.application.ControllerApplication"
# what the library's base class has (attributes the contract does not describe are outside it)
BASE_HAS = set("""SCHEMA SCHEMA_DEVICE _load_db add_context_listener add_device add_listener async_event broadcast channel channels
config deserialize device_initialized extended_pan_id force_remove form_network get_device get_dst_address get_endpoint_id get_sequence
groups handle_join handle_leave handle_message ieee listener_event mrequest new nwk nwk_update_id ota pan_id permit permit_ncp
permit_with_key probe remove request shutdown startup update_config update_network _send_sequence devices topology _listeners _channel
_channels _config _dblistener _ext_pan_id _groups _nwk_update_id _ota _pan_id""".split())


def bound(names, a, k, dflt=None):
    b = dict(dflt or {})
    b.update(zip(names, a))
    b.update(k)
    return b


REQ = ["subsystem", "command", "payload", "waiter_id", "expected_status"]
RAW = ["obj", "waiter_id", "expected_status"]


class App:
    """A started application: its own startup code has run on a mocked API.

    reply(it, b) -> result of API.request during and after startup (may raise).
    raw(it, b) -> result of API.request_raw."""

    def __init__(self, ctx, it, product=None, config=None, auto_form=False, start=True):
        self.ctx, self.it = ctx, it
        self.sent = False
        self.crossing = False
        self.device_layer()
        ctx.shared["ext_attr"] = self.ext_attr
        self.api = self.make_api()
        it.w.get("zigpy_cc.api:API.new")
        ctx.contracts["zigpy_cc.api:API.new"] = self.api_new
        self.cls = it.w.get(APPCLS)
        self.config = config if config is not None else SDict({"device": ("device", Mock("device config")), "network": ("network", Mock("network config"))})
        self.ieee = SFixed("zigpy.types.EUI64", (ctx.array("own ieee", I(8)),))
        self.nwk = ctx.int("own nwk", 0, 65535)
        self.reply = self.starting
        self.raw = None
        self.expose_product(product)
        self.app = it.call(self.cls, [self.config], {})
        self.start_out = None
        if start:
            self.start_out = self.startup(auto_form)
            if self.start_out.raised:
                raise Unsupported("startup on a healthy stick fails: %s" % describe_exc(self.start_out.exc))
            self.reply = None
            ctx.keep(self.app)
            if ctx.shared.get("crossing"):
                ctx.shared["suspend"] = self.cross

    def cross(self, it, what):
        """While one call waits for its place in the limit, another of any kind is made, sent and answered."""
        if what[0] != "acquire" or self.crossing:
            return
        ctx = self.ctx
        kind = ctx.choose(4)
        if kind == 3:
            return
        ctx.set(self, "crossing", True)
        ctx.inputs["crossing"] = ("permit", "unicast", "group")[kind]
        data = ctx.bytes("data of the other")
        if kind == 0:
            self.coro("permit_ncp", ctx.int("time of the other", 0, 254))
        elif kind == 1:
            dev = Mock("other device", nwk=SInt(ctx.int("nwk of the other", 0, 65535).e, "zigpy.types.NWK"),
                       ieee=SFixed("zigpy.types.EUI64", (ctx.array("ieee of the other", I(8)),)))
            self.coro("request", dev, 260, ctx.int("cluster of the other", 0, 65535), 1, 2, ctx.int("seq of the other", 0, 255), data)
        else:
            self.coro("mrequest", SInt(ctx.int("group of the other", 0, 65535).e, "zigpy.types.Group"), 260,
                      ctx.int("cluster of the other", 0, 65535), 1, ctx.int("seq of the other", 0, 255), data)
        ctx.set(self, "crossing", False)

    # ---------------------------------------------------------------- library layer
    def device_layer(self):
        ctx = self.ctx
        self.devices = m = Mock("devices")
        m.attrs["entries"] = ()

        def at(k):
            """What is listed under k: what was put there, else an arbitrary device known from before, or nothing."""
            for key, v in m.attrs["entries"]:
                if key is k or self.it.truth(self.it.compare("Eq", key, k)):
                    return v
            v = MISSING
            if ctx.choose(2):
                v = Mock("listed before", nwk=ctx.int("listed nwk", 0, 65535), ieee=k, application=getattr(self, "app", None))
            ctx.setitem(m.attrs, "entries", m.attrs["entries"] + ((k, v),))
            return v
        self.listed = at

        def set_(k, v):
            old = at(k) if m.attrs["entries"] else MISSING
            ctx.setitem(m.attrs, "entries", ((k, v),) + tuple(e for e in m.attrs["entries"] if e[1] is not old or e[0] is not k))
            return old

        def put(i, a, k):
            set_(a[0], a[1])
            ctx.emit(Ev("device", a[0], a[1]))

        def get(i, a, k):
            v = at(a[0])
            if v is MISSING:
                i.raise_("KeyError")
            return v

        def dflt(i, a, k):
            v = at(a[0])
            return (a[1] if len(a) > 1 else k.get("default")) if v is MISSING else v

        def pop(i, a, k):
            v = at(a[0])
            if v is MISSING:
                if len(a) > 1:
                    return a[1]
                i.raise_("KeyError")
            set_(a[0], MISSING)
            ctx.emit(Ev("device", a[0], MISSING))
            return v
        m.attrs["__setitem__"] = Builtin("setitem", put)
        m.attrs["__getitem__"] = Builtin("getitem", get)
        m.attrs["__contains__"] = Builtin("contains", lambda i, a, k: at(a[0]) is not MISSING)
        m.attrs["get"] = Builtin("get", dflt)
        m.attrs["pop"] = Builtin("pop", pop)
        x = self.it.w.ext
        x[BASE + ".__init__"] = Builtin("init", self.base_init)

    def base_init(self, it, a, k):
        o = a[0]
        for n in ("topology", "_channel", "_channels", "_dblistener", "_ext_pan_id", "_ieee", "_nwk", "_nwk_update_id", "_pan_id"):
            it.ctx.setitem(o.attrs, n, None)
        it.ctx.setitem(o.attrs, "_config", a[1] if len(a) > 1 else k["config"])
        it.ctx.setitem(o.attrs, "devices", self.devices)

    def ext_attr(self, it, o, c, name):
        if c.path != BASE:
            return MISSING
        if name == "config":
            return o.attrs["_config"]
        if name in ("ieee", "nwk"):
            return o.attrs["_" + name]
        if name == "get_device":
            return Builtin(name, self.get_device)
        if name in ("handle_message", "handle_join", "handle_leave"):
            return Builtin(name, lambda i, a, k: self.ctx.emit(Ev(name, a, k)))
        if name in BASE_HAS:
            raise Unsupported("%s of the library" % name)
        return MISSING

    def get_device(self, it, a, k):
        b = bound(["ieee", "nwk"], a, k, {"ieee": None, "nwk": None})
        self.ctx.emit(Ev("get_device", b["ieee"], b["nwk"]))
        if self.ctx.choose(2):
            it.raise_("KeyError")
        self.dev = Mock("known device", radio_details=Builtin("radio_details", lambda i, x, y: self.ctx.emit(Ev("radio", self.dev, x, y))),
                        nwk=self.ctx.int("dev nwk", 0, 65535), ieee=SFixed("zigpy.types.EUI64", (self.ctx.array("dev ieee", I(8)),)))
        self.ctx.emit(Ev("known", self.dev))
        return self.dev

    # ---------------------------------------------------------------- API layer
    def api_new(self, it, a, k):
        def go():
            self.ctx.emit(Ev("api_new", a, k))
            suspend_(it, "new")
            return self.api
        return Coro("API.new", go)

    def make_api(self):
        ctx = self.ctx

        def request(i, a, k):
            b = bound(REQ, a, k, {"waiter_id": None, "expected_status": None})

            def go():
                if self.crossing:
                    ctx.emit(Ev("crossing", b, self.held()))
                    return Mock("result of the other")
                ctx.emit(Ev("request", b, self.held()))
                if self.reply is None:
                    return Mock("result")
                return self.reply(i, b)
            return Coro("request", go)

        def request_raw(i, a, k):
            b = bound(RAW, a, k, {"waiter_id": None, "expected_status": None})

            def go():
                if self.crossing:
                    ctx.emit(Ev("crossing", b, self.held()))
                    return Mock("result of the other")
                ctx.emit(Ev("raw", b, self.held()))
                return self.raw(i, b) if self.raw else None
            return Coro("request_raw", go)

        def create(i, a, k):
            b = bound(["obj", "sequence"], a, k, {"sequence": None})
            ctx.emit(Ev("create", b))
            if ctx.choose(2):
                return None
            w = Mock("waiter", id=ctx.int("waiter id", 0))
            ctx.emit(Ev("created", w))
            return w
        return Mock("api", request=Builtin("request", request), request_raw=Builtin("request_raw", request_raw),
                    create_response_waiter=Builtin("create_response_waiter", create),
                    version=Builtin("version", lambda i, a, k: Coro("version", lambda: self.version_payload(i))),
                    close=Builtin("close", lambda i, a, k: ctx.emit(Ev("close"))))

    def version_payload(self, it):
        self.ctx.emit(Ev("version"))
        return self.version

    def expose_product(self, product):
        self.product = product if product is not None else self.ctx.int("product", 0, 2)
        d = {n: self.ctx.int("version " + n, 0, 255) for n in ("transportrev", "majorrel", "minorrel", "maintrel")}
        d["product"] = self.product
        d["revision"] = self.ctx.int("revision", 0)
        self.version = SDict({k: (k, v) for k, v in d.items()})

    def starting(self, it, b):
        """A healthy stick answering what startup asks."""
        if b["command"] == "ping":
            return Mock("ping result", payload=SDict({"capabilities": ("capabilities", self.ctx.int("cap", 0, 65535))}))
        if b["command"] == "getDeviceInfo":
            return Mock("device info", payload=SDict({"ieeeaddr": ("ieeeaddr", self.ieee), "shortaddr": ("shortaddr", self.nwk)}))
        raise Unsupported("startup asks %r" % (b["command"],))

    def locks(self):
        return [v for v in self.app.attrs.values() if isinstance(v, Mock) and "__aenter__" in v.attrs]

    def held(self):
        return sum(m.attrs["held"] for m in self.locks()) if getattr(self, "app", None) else 0

    def startup(self, auto_form):
        f = self.it.getattr(self.app, "startup")
        return run_coro(self.it, f, [auto_form])

    def coro(self, name, *a, **k):
        f = self.it.getattr(self.app, name, MISSING)
        if f is MISSING:
            raise Unsupported("no %s" % name)
        return run_coro(self.it, f, list(a), k)

    def cut(self):
        """What has happened so far does not count."""
        self.mark = len(self.ctx.trace)
        self.end = None

    def stop(self):
        """What happens from here on does not count."""
        self.end = len(self.ctx.trace)

    def calls(self, kind):
        return [e.args for e, g in events(self.ctx, self.ctx.trace[getattr(self, "mark", 0):getattr(self, "end", None)], (kind,)) if feasible(self.ctx, g)]


def started(ctx, it, **k):
    """A started application, or in the second round of `again` the one of the first."""
    A = ctx.shared.get("again")
    if A is None:
        A = ctx.shared["app"] = App(ctx, it, **k)
    return A


def again(fn):
    """One message on an application as startup leaves it.  When that leaves the application as
    it was, the same holds of every message of every history; when it does not, a second message
    is taken on what the first has left (and the goal does not count as decided)."""
    def go(ctx, it):
        fn(ctx, it)
        A = ctx.shared.get("app")
        if A is None or not ctx.state_left():
            return
        ctx.inputs = {"1:" + k: v for k, v in ctx.inputs.items()}
        ctx.shared["again"] = A
        with ctx.named("second message: "):
            fn(ctx, it)
    return go


def crossed(fn):
    """The goal, with other calls made while this one waits for its place in the limit."""
    def go(ctx, it):
        ctx.shared["crossing"] = True
        fn(ctx, it)
    return go


def suspend_(it, what):
    h = it.ctx.shared.get("suspend")
    if h:
        h(it, (what,))


def command_error(it, status, msg="refused"):
    e = it.call(it.w.get("zigpy_cc.exception:CommandError"), [status, msg], {})
    raise PyRaise(e)
