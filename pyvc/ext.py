"""Models of the libraries /repo uses (assumed contracts, listed in evidence).

Constants come from extconst.json, dumped from the installed libraries and
compared with them on every run by the conformance part of the checks."""
import json, os
import z3
from .core import *
from . import core
from . import builtins_ as B


def load_const():
    with open(os.path.join(os.path.dirname(__file__), "extconst.json")) as f:
        return json.load(f)


def suspend(it, what):
    """A point where the coroutine gives up control: the goal may cancel here."""
    h = it.ctx.shared.get("suspend")
    if h is not None:
        h(it, what)


def new_future(it, name="future"):
    ctx = it.ctx
    f = Mock(name)
    f.attrs["state"] = "pending"
    f.attrs["value"] = None

    def need_pending(i):
        if f.attrs["state"] != "pending":
            i.raise_(EX("asyncio.InvalidStateError"), "invalid state")

    def set_result(i, a, k):
        need_pending(i)
        ctx.setitem(f.attrs, "state", "done")
        ctx.setitem(f.attrs, "value", a[0])
        ctx.emit(Ev("set_result", f, a[0]))

    def set_exception(i, a, k):
        need_pending(i)
        ctx.setitem(f.attrs, "state", "failed")
        ctx.setitem(f.attrs, "value", a[0])
        ctx.emit(Ev("set_exception", f, a[0]))

    def cancel(i, a, k):
        if f.attrs["state"] != "pending":
            return False
        ctx.setitem(f.attrs, "state", "cancelled")
        ctx.emit(Ev("cancel", f))
        return True

    def result(i, a, k):
        s = f.attrs["state"]
        if s == "done":
            return f.attrs["value"]
        if s == "failed":
            raise PyRaise(f.attrs["value"])
        if s == "cancelled":
            i.raise_(EX("asyncio.CancelledError"))
        i.raise_(EX("asyncio.InvalidStateError"))

    def aw(i):
        s = f.attrs["state"]
        if s == "pending":
            h = ctx.shared.get("future_await")
            if h is None:
                raise Unsupported("await of a pending future")
            return h(i, f)
        return result(i, [], {})

    f.attrs.update({
        "set_result": Builtin("set_result", set_result), "set_exception": Builtin("set_exception", set_exception),
        "cancel": Builtin("cancel", cancel), "result": Builtin("result", result),
        "done": Builtin("done", lambda i, a, k: f.attrs["state"] != "pending"),
        "cancelled": Builtin("cancelled", lambda i, a, k: f.attrs["state"] == "cancelled"),
        "add_done_callback": Builtin("add_done_callback", lambda i, a, k: ctx.emit(Ev("done_cb", f, a[0]))),
        "__await__": aw})
    return f


_EX = {}


def EX(path):
    return _EX[path]


def new_lock(it, kind, count=None):
    ctx = it.ctx
    m = Mock(kind)
    m.attrs["count"] = count
    m.attrs["held"] = 0

    def acquire(i):
        suspend(i, ("acquire", m))
        ctx.setitem(m.attrs, "held", m.attrs["held"] + 1)
        ctx.emit(Ev("acquire", m))
        return True

    def release(i, a=None, k=None):
        ctx.setitem(m.attrs, "held", m.attrs["held"] - 1)
        ctx.emit(Ev("release", m))

    def aenter(i, a, k):
        return Coro("aenter", lambda: (acquire(i), None)[1])

    def aexit(i, a, k):
        return Coro("aexit", lambda: release(i))
    m.attrs.update({"__aenter__": Builtin("__aenter__", aenter), "__aexit__": Builtin("__aexit__", aexit),
                    "acquire": Builtin("acquire", lambda i, a, k: Coro("acquire", lambda: acquire(i))),
                    "release": Builtin("release", release),
                    "locked": Builtin("locked", lambda i, a, k: i.ctx.bool("locked"))})
    return m


def fixed_ctor(path, length):
    def ctor(it, a, k):
        if not a:
            return SFixed(path, ())
        v = it.as_iterable(a[0])
        return SFixed(path, norm_segs(segs_of(v)))
    b = Builtin(path, ctor)
    b.fixed_len = length
    return b


def register(w):
    from .interp import mkexc, EXC
    C = load_const()
    ext = w.ext
    w.enum_bases = {"enum.Enum": "closed", "enum.IntEnum": "closed", "zigpy.types.enum16": "open", "zigpy.types.enum8": "open"}
    w.plain_bases = {"asyncio.Protocol", "object", "zigpy.application.ControllerApplication", "zigpy.device.Device",
                     "enum.Enum", "enum.IntEnum", "asyncio.BaseProtocol", "abc.ABC", "typing.NamedTuple"}
    w.type_tests = {}

    def is_exc(cls):
        return isinstance(cls, SClass) and EXC["BaseException"] in cls.mro()
    w.is_exc = is_exc

    def exc(path, bases, alias=()):
        c = mkexc(path, bases)
        ext[path] = c
        _EX[path] = c
        for al in alias:
            ext[al] = c
            _EX[al] = c
        return c
    exc("asyncio.TimeoutError", ["Exception"], ["asyncio.exceptions.TimeoutError"])
    exc("asyncio.CancelledError", ["BaseException"], ["asyncio.exceptions.CancelledError"])
    exc("asyncio.InvalidStateError", ["Exception"], ["asyncio.exceptions.InvalidStateError"])
    exc("serial.SerialException", ["OSError"], ["serial.serialutil.SerialException"])
    exc("zigpy.exceptions.ZigbeeException", ["Exception"])
    for n in ("ControllerException", "APIException", "DeliveryError"):
        exc("zigpy.exceptions." + n, ["zigpy.exceptions.ZigbeeException"])

    def fn(path):
        def deco(f):
            ext[path] = Builtin(path, f)
            return f
        return deco

    # ---- constants and enums
    ext.update(C["consts"])
    for path, d in C["enums"].items():
        if d["flag"]:
            continue
        c = EnumClass(path.rsplit(".", 1)[1], [Ext("zigpy.types.enum16" if d["size"] == 2 else "zigpy.types.enum8")], {}, path)
        c.open = d["open"]
        for k, v in d["members"].items():
            m = c.by_value(v) or EnumMember(c, k, v)
            c.members.setdefault(m.name, m)
            c.ns[k] = m
        ext[path] = c
    # ---- integer types
    for path, (size, signed) in C["ints"].items():
        def ctor(it, a, k, path=path, size=size, signed=signed):
            ctx = it.ctx
            v = a[0] if a else 0
            v = it.call(B.REG["int"], [v] + a[1:], {})
            lo = -(1 << (8 * size - 1)) if signed else 0
            hi = (1 << (8 * size - (1 if signed else 0))) - 1
            e = zi(v)
            if not ctx.branch(z3.And(e >= lo, e <= hi)):
                it.raise_("ValueError", "out of range")
            return SInt(e, path, getattr(v, "parts", None))
        b = Builtin(path, ctor)
        b.int_path = path
        if path.rsplit(".", 1)[1] in ("enum8", "enum16"):
            continue        # used as base classes
        if path.rsplit(".", 1)[1].endswith("_t"):
            # also used as enum mix-in: keep the dotted path as base marker
            ext[path + ".__call__"] = b
            continue
        ext[path] = b
    ch = C["enums"]["zigpy.types.Channels"]["members"]

    def from_channel_list(it, a, k):
        m = 0
        for c in it.concrete_iter(a[0]):
            if not isinstance(c, int):
                raise Unsupported("symbolic channel list")
            if not 11 <= c <= 26:
                it.raise_("ValueError", "Invalid channel")
            m |= 1 << c
        return SInt(I(m), "zigpy.types.Channels")

    def chctor(it, a, k):
        v = it.call(B.REG["int"], a, {})
        e = zi(v)
        if not it.ctx.branch(z3.And(e >= 0, e < (1 << 32))):
            it.raise_("ValueError", "channels")
        return SInt(e, "zigpy.types.Channels")
    chan = Mock("Channels", __call__=Builtin("zigpy.types.Channels", chctor),
                from_channel_list=Builtin("from_channel_list", from_channel_list))
    for n, v in ch.items():
        chan.attrs[n] = SInt(I(v), "zigpy.types.Channels")
    chan.attrs["__getitem__"] = Builtin("getitem", lambda it, a, k: chan.attrs[a[0]])
    ext["zigpy.types.Channels"] = chan
    # ---- fixed lists
    for n, ln in (("EUI64", 8), ("ExtendedPanId", 8), ("KeyData", 16)):
        ext["zigpy.types." + n] = fixed_ctor("zigpy.types." + n, ln)

    @fn("zigpy.config.cv_key")
    def cv_key(it, a, k):
        vals = it.concrete_iter(a[0])
        if len(vals) != 16 or not all(isinstance(v, int) and 0 <= v <= 255 for v in vals):
            raise Unsupported("cv_key of a symbolic or wrong key")
        return SFixed("zigpy.types.KeyData", norm_segs([Lit(vals)]))
    ext["zigpy.config.validators.cv_key"] = ext["zigpy.config.cv_key"]
    ext["zigpy.config.cv_boolean"] = Builtin("cv_boolean", lambda it, a, k: a[0])

    # ---- logging
    noop = Builtin("log", lambda it, a, k: None)

    def logger(it, a, k):
        return Mock("logger", debug=noop, info=noop, warning=noop, error=noop, exception=noop, critical=noop,
                    log=noop, warn=noop, isEnabledFor=Builtin("isEnabledFor", lambda i, x, y: i.ctx.bool("loglevel")),
                    getChild=Builtin("getChild", logger))
    ext["logging.getLogger"] = Builtin("getLogger", logger)
    for i, n in ((10, "DEBUG"), (20, "INFO"), (30, "WARNING"), (40, "ERROR"), (50, "CRITICAL")):
        ext["logging." + n] = i
        ext["logging." + n.lower()] = noop

    # ---- schemas; of zigpy's own only that they let everything else through (its validation of the rest is not modelled)
    from . import vol
    vol.register(ext, EX, exc)
    with_rest = lambda: ext["voluptuous.Schema"].fn(None, [SDict({})], {"extra": 1})
    for n in ("CONFIG_SCHEMA", "ZIGPY_SCHEMA", "SCHEMA_NETWORK", "SCHEMA_DEVICE"):
        ext["zigpy.config." + n] = with_rest()

    # ---- clocks: any time (in whole seconds), never going back
    def clock(it, a, k):
        ctx = it.ctx
        m = ctx.shared.get("clock")
        if m is None:
            m = ctx.shared["clock"] = Mock("clock", now=None)
        t = ctx.int("time", 0)
        if m.attrs["now"] is not None:
            ctx.axiom(t.e >= m.attrs["now"].e)
        ctx.setitem(m.attrs, "now", t)
        return t
    for n in ("monotonic", "time", "perf_counter"):
        ext["time." + n] = Builtin("time." + n, clock)

    # ---- asyncio
    @fn("asyncio.Lock")
    def lock(it, a, k):
        return new_lock(it, "lock", 1)
    ext["asyncio.locks.Lock"] = ext["asyncio.Lock"]

    @fn("asyncio.Semaphore")
    def sem(it, a, k):
        return new_lock(it, "semaphore", a[0] if a else k.get("value", 1))
    ext["asyncio.locks.Semaphore"] = ext["asyncio.Semaphore"]
    ext["asyncio.BoundedSemaphore"] = ext["asyncio.Semaphore"]

    @fn("asyncio.sleep")
    def sleep(it, a, k):
        def run():
            it.ctx.emit(Ev("sleep", a[0]))
            suspend(it, ("sleep", a[0]))
            return None
        return Coro("sleep", run)

    @fn("asyncio.wait_for")
    def wait_for(it, a, k):
        aw = a[0]
        tmo = a[1] if len(a) > 1 else k.get("timeout")

        def run():
            h = it.ctx.shared.get("wait_for")
            if h is None:
                raise Unsupported("asyncio.wait_for outside a contract")
            return h(it, aw, tmo)
        return Coro("wait_for", run)

    def create_task(it, a, k):
        c = a[0]
        m = Mock("task", coro=c)
        it.ctx.emit(Ev("task", c, m))
        if isinstance(c, Coro):
            it.ctx.set(c, "used", True)
        m.attrs["add_done_callback"] = Builtin("add_done_callback", lambda i, x, y: None)
        m.attrs["cancel"] = Builtin("cancel", lambda i, x, y: i.ctx.emit(Ev("task_cancel", m)))
        h = it.ctx.shared.get("create_task")
        if h is not None:
            h(it, c, m)
        return m
    for n in ("create_task", "ensure_future"):
        ext["asyncio." + n] = Builtin("create_task", create_task)

    @fn("asyncio.shield")
    def shield(it, a, k):
        raise Unsupported("asyncio.shield")

    def get_loop(it, a, k):
        ctx = it.ctx
        lp = ctx.shared.get("loop")
        if lp is None:
            def call_later(i, x, y):
                m = Mock("timer", cancel=Builtin("cancel", lambda i2, x2, y2: i2.ctx.emit(Ev("timer_cancel", m))))
                i.ctx.emit(Ev("timer", x[0], x[1], tuple(x[2:]), m))
                return m
            lp = Mock("loop", create_future=Builtin("create_future", lambda i, x, y: new_future(i)),
                      create_task=Builtin("create_task", create_task),
                      call_later=Builtin("call_later", call_later),
                      call_soon=Builtin("call_soon", lambda i, x, y: call_later(i, [0] + list(x), y)),
                      time=Builtin("time", clock))
            ctx.shared["loop"] = lp
        return lp
    ext["asyncio.get_event_loop"] = Builtin("get_event_loop", get_loop)
    ext["asyncio.get_running_loop"] = Builtin("get_running_loop", get_loop)
    ext["asyncio.iscoroutine"] = Builtin("iscoroutine", lambda it, a, k: isinstance(a[0], Coro))
    ext["asyncio.Future"] = Builtin("Future", lambda it, a, k: new_future(it))

    # ---- serial
    @fn("serial_asyncio.create_serial_connection")
    def csc(it, a, k):
        def run():
            h = it.ctx.shared.get("create_serial_connection")
            if h is None:
                raise Unsupported("create_serial_connection outside a contract")
            return h(it, a, k)
        return Coro("create_serial_connection", run)

    @fn("serial.tools.list_ports.grep")
    def grep(it, a, k):
        h = it.ctx.shared.get("list_ports")
        if h is None:
            raise Unsupported("list_ports outside a contract")
        return h(it, a, k, "grep")

    @fn("serial.tools.list_ports.comports")
    def comports(it, a, k):
        h = it.ctx.shared.get("list_ports")
        if h is None:
            raise Unsupported("list_ports outside a contract")
        return h(it, a, k, "comports")
    ext["os.path.exists"] = Builtin("exists", lambda it, a, k: it.ctx.bool("exists"))

    # ---- zigpy
    @fn("zigpy.util.retryable_request")
    def retry(it, a, k):
        return a[0]

    @fn("zigpy.device.Device.__init__")
    def devinit(it, a, k):
        o = a[0]
        names = ["application", "ieee", "nwk"]
        vals = dict(zip(names, a[1:]))
        vals.update(k)
        if set(vals) != set(names):
            it.raise_("TypeError", "Device()")
        for n, v in vals.items():
            it.ctx.setitem(o.attrs, {"application": "_application"}.get(n, n) if n == "application" else n, v)
        it.ctx.setitem(o.attrs, "application", vals["application"])

    # ---- small helpers
    @fn("functools.reduce")
    def reduce_(it, a, k):
        from . import loops
        return loops.reduce_(it, a)
    for n, op in (("xor", "BitXor"), ("or_", "BitOr"), ("and_", "BitAnd"), ("add", "Add"), ("sub", "Sub"), ("mul", "Mult")):
        ext["operator." + n] = Builtin("operator." + n, lambda it, a, k, op=op: it.binop(op, a[0], a[1]))
    for n, op in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE")):
        ext["operator." + n] = Builtin("operator." + n, lambda it, a, k, op=op: it.compare(op, a[0], a[1]))

    def ident(it, a, k):
        return a[0]
    ext["contextlib.suppress"] = Builtin("suppress", suppress)
    for n in ("wraps",):
        ext["functools." + n] = Builtin(n, lambda it, a, k: Builtin("id", ident))
    ext["functools.partial"] = Builtin("partial", lambda it, a, k: Builtin(
        "partial", lambda i, x, y: i.call(a[0], a[1:] + x, {**k, **y})))

    @fn("itertools.chain")
    def chain(it, a, k):
        segs = ()
        for x in a:
            segs = segs + tuple(segs_of(it.as_iterable(x)))
        return SList(norm_segs(segs))

    @fn("itertools.count")
    def count(it, a, k):
        step = k.get("step", a[1] if len(a) > 1 else 1)
        m = Mock("count", upcoming=a[0] if a else k.get("start", 0))

        def nxt(i, x, y):
            v = m.attrs["upcoming"]
            i.ctx.setitem(m.attrs, "upcoming", i.binop("Add", v, step))
            return v
        m.attrs["__next__"] = Builtin("__next__", nxt)
        return m

    @fn("struct.pack")
    def pack(it, a, k):
        fmt = a[0]
        if not isinstance(fmt, str) or fmt[:1] != "<":
            raise Unsupported("struct.pack format")
        out = ()
        vals = list(a[1:])
        import re
        for n, c in re.findall(r"(\d*)([a-zA-Z])", fmt[1:]):
            sz = {"B": (1, False), "H": (2, False), "I": (4, False), "L": (4, False), "Q": (8, False),
                  "b": (1, True), "h": (2, True), "i": (4, True), "q": (8, True)}.get(c)
            if sz is None:
                raise Unsupported("struct.pack format")
            for _ in range(int(n or 1)):
                v = vals.pop(0)
                try:
                    out = out + tuple(segs_of(B.to_bytes(it, v, [sz[0], "little"], {"signed": sz[1]})))
                except PyRaise:
                    it.raise_(mkexc("struct.error", ["Exception"]))
        return mk_bytes(out)
    mkexc("struct.error", ["Exception"])
    ext["struct.error"] = EXC["struct.error"]


def suppress(it, a, k):
    classes = tuple(a)

    def exit_(i, x, y):
        return x[1] is not None and i.exc_matches(x[1], classes)
    return Mock("suppress", __enter__=Builtin("enter", lambda i, x, y: None), __exit__=Builtin("exit", exit_))
