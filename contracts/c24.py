"""C24: probing answers truthfully and always closes the port.

API.probe with opening failing in every way, the link coming up at once, later or never, the
version request answered, refused, unanswered or failing, the time running out and
cancellation wherever the code waits."""
from contracts.port import *

MODULES = ["zigpy_cc.api", "zigpy_cc.uart"]
ASSUMES = ["asyncio.wait_for cancels what it waits for when the time is up and raises TimeoutError",
           "the configured path exists (the device schema refuses others)"]


class World:
    def __init__(self, ctx, it, request_answers=True):
        self.ctx, self.it = ctx, it
        self.P = Port(ctx, it, cancels=False)
        P = self.P
        self.mode = "normal"
        self.answered = False
        self.stop = None
        self.other = None       # None: there is no other probe, []: not yet made
        P.suspend_port = P.suspend
        ctx.shared["suspend"] = self.suspend
        P.suspend = self.suspend
        ctx.shared["future_await"] = self.await_future
        ctx.shared["wait_for"] = self.wait_for
        ctx.shared["path_exists"] = lambda i, v, kind: True
        it.w.get("zigpy_cc.api:API.request")
        ctx.contracts["zigpy_cc.api:API.request"] = self.request

    def set(self, n, v):
        self.ctx.set(self, n, v)

    def interrupt(self, it):
        """Time is up, or the caller gives up, here."""
        if self.mode != "normal" and self.stop is None and self.ctx.choose(2):
            self.set("stop", self.mode)
            it.raise_(X.EX("asyncio.CancelledError"))

    def suspend(self, it, what):
        if self.other is not None and not self.other and self.ctx.choose(2):
            self.meanwhile(it)
        self.interrupt(it)
        self.P.suspend_port(it, what)

    def meanwhile(self, it):
        """Another probe, of a stick that answers, from beginning to end."""
        ctx = self.ctx
        self.set("other", ["under way"])
        ctx.inputs["another probe"] = True
        tr = Mock("other transport", write=Builtin("write", lambda i, x, y: None), close=Builtin("close", lambda i, x, y: ctx.emit(Ev("other closed"))),
                  abort=Builtin("abort", lambda i, x, y: ctx.emit(Ev("other closed"))), is_closing=Builtin("is_closing", lambda i, x, y: False))

        def open_(i, a, k):
            ctx.emit(Ev("other open"))
            p = i.call(a[1] if len(a) > 1 else k["protocol_factory"], [], {})
            i.call(i.getattr(p, "connection_made"), [tr], {})
            return (tr, p)

        def future(i, f):
            if f.attrs["state"] == "pending":
                raise Unsupported("the other probe waits for something else")
            return i.call(f.attrs["result"], [], {})
        keys = {"create_serial_connection": open_, "future_await": future, "suspend": None, "wait_for": lambda i, aw, t: i.await_(aw)}
        old = {k: ctx.shared.get(k) for k in keys}
        ctx.shared.update(keys)
        try:
            cfg = SDict({k: (k, v) for k, v in (("path", "/dev/other"), ("baudrate", 115200), ("flow_control", None))})
            r = run_coro(it, it.getattr(it.w.get("zigpy_cc.api:API"), "probe"), [cfg])
        finally:
            ctx.shared.update(old)
        self.set("other", ["done"])
        ctx.prove("another probe made meanwhile answers for its own stick", not r.raised and r.value is True)
        ctx.prove("and closes its port", len(evs(ctx, "other open")) == 1 and len(evs(ctx, "other closed")) >= 1)

    def await_future(self, it, f):
        self.interrupt(it)
        return self.P.await_future(it, f)

    def wait_for(self, it, aw, tmo):
        ctx = self.ctx
        if not isinstance(aw, Coro):
            raise Unsupported("wait_for of something else than the probing")
        ctx.emit(Ev("limit", tmo))
        if self.mode == "normal":
            self.set("mode", ("normal", "timeout", "cancel")[ctx.choose(3)])
        if self.mode == "normal":
            return it.await_(aw)
        r = outcome(it, lambda: it.await_(aw))
        if self.stop is None:
            raise Pruned()      # it was not interrupted: covered by the normal case
        if self.mode == "cancel":
            if r.raised:
                raise PyRaise(r.exc)
            it.raise_(X.EX("asyncio.CancelledError"))
        if not r.raised or it.exc_matches(r.exc, (X.EX("asyncio.CancelledError"),)):
            it.raise_(X.EX("asyncio.TimeoutError"))
        raise PyRaise(r.exc)

    def request(self, it, a, k):
        b = dict(zip(["self", "subsystem", "command", "payload"], a))
        b.update(k)

        def go():
            ctx = self.ctx
            if self.other == ["under way"]:
                d = {n: 2 for n in ("transportrev", "product", "majorrel", "minorrel", "maintrel", "revision")}
                return Mock("version", payload=SDict({n: (n, v) for n, v in d.items()}))
            ctx.emit(Ev("request", b, len(evs(ctx, "write")), self.P.closes()))
            self.suspend(it, ("request",))
            c = ("ok", "refused", "timeout", "serial", "delivery", "other")[ctx.choose(6)]
            self.ctx.inputs["answer"] = c
            if c == "ok":
                self.set("answered", True)
                d = {n: ctx.int(n, 0, 255) for n in ("transportrev", "product", "majorrel", "minorrel", "maintrel")}
                d["revision"] = ctx.int("revision", 0)
                return Mock("version", payload=SDict({n: (n, v) for n, v in d.items()}))
            if c == "refused":
                raise PyRaise(it.call(it.w.get("zigpy_cc.exception:CommandError"), [ctx.int("status", 1, 255), "refused"], {}))
            if c == "other":
                self.set("stop", "other")
                it.raise_("RuntimeError", "something else")
            it.raise_(X.EX({"timeout": "asyncio.TimeoutError", "serial": "serial.SerialException", "delivery": "zigpy.exceptions.DeliveryError"}[c]))
        return Coro("request", go)


def g_probe(flow, others=False):
    def fn(ctx, it):
        path = ctx.str("path")
        ctx.assume(z3.Not(zb(it.compare("Eq", path, "auto"))))
        W = World(ctx, it)
        if others:
            W.other = []
        cfg = SDict({k: (k, v) for k, v in (("path", path), ("baudrate", ctx.int("baud", 1)), ("flow_control", flow))})
        f = it.getattr(it.w.get("zigpy_cc.api:API"), "probe")
        r = run_coro(it, f, [cfg])
        P = W.P
        ctx.inputs.update(opening=P.trouble, stop=W.stop)
        ups = [a[0] for a in evs(ctx, "up")]
        closed = [a[0] for a in evs(ctx, "closed")]
        for t in ups:
            ctx.prove("a port that was opened is closed again", any(c is t for c in closed))
        ctx.prove("it is not opened more than once", len(evs(ctx, "open")) <= 1)
        reqs = evs(ctx, "request")
        for b, n, c in reqs:
            prove_eq(ctx, "the version is asked for", b["command"], "version")
            prove_eq(ctx, "of the system", b["subsystem"], enum(it, "zigpy_cc.types:Subsystem.SYS"))
            ctx.prove("while the port is open", len(ups) == 1 and c == 0 and P.made() == 1)
        if W.stop in ("cancel", "other"):
            ctx.prove("a probe that was given up does not say yes", r.raised or r.value is False)
            return
        if not ctx.prove("probing gives an answer", not r.raised, r.raised and describe_exc(r.exc)):
            return
        good = W.answered and W.stop is None and P.trouble is None
        prove_eq(ctx, "yes exactly if the port could be opened and the stick answered in time", r.value, good)
    return fn


def g_limit(ctx, it):
    """A stick that stays silent does not hold the probe up for ever."""
    W = World(ctx, it)
    W.P.fails = False
    cfg = SDict({k: (k, v) for k, v in (("path", "/dev/x"), ("baudrate", 115200), ("flow_control", None))})
    run_coro(it, it.getattr(it.w.get("zigpy_cc.api:API"), "probe"), [cfg])
    lim = [a[0] for a in evs(ctx, "limit")]
    ctx.prove("the probe has a time limit", len(lim) >= 1 and all(x is not None for x in lim))


def GOALS(w):
    return [Goal("probe, flow control %s" % f, g_probe(f)) for f in (None, "hardware", "software")] + [
        Goal("probe, another one meanwhile", g_probe(None, True)), Goal("time limit", g_limit)]
