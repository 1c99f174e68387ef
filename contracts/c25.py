"""C25: an unexpected loss of the port leads to reconnection.

A real API on a real Gateway losing or closing its port; the application's reconnection with
start-up failing any number of times, at any point, in any way."""
from contracts.port import *
from contracts.app import App

MODULES = ["zigpy_cc.uart", "zigpy_cc.api", "zigpy_cc.zigbee.application"]
ASSUMES = ["the transport reports the loss of the port, and the end of a close, by connection_lost",
           "the port is lost after the API has been given its application"]


def opened(ctx, it):
    P = Port(ctx, it, fails=False, cancels=False)
    cfg = SDict({k: (k, v) for k, v in (("path", "/dev/x"), ("baudrate", 115200), ("flow_control", None))})
    app = Mock("app", connection_lost=Builtin("connection_lost", lambda i, a, k: ctx.emit(Ev("told"))),
               handle_znp=Builtin("handle_znp", lambda i, a, k: None))
    f = it.getattr(it.w.get("zigpy_cc.api:API"), "new")
    r = run_coro(it, f, [app, cfg])
    if r.raised:
        raise Unsupported("the port cannot be opened: %s" % describe_exc(r.exc))
    return P, r.value


def lose(ctx, it, P, on_purpose):
    exc = None
    if not on_purpose and ctx.choose(2):
        exc = it.call(X.EX("serial.SerialException"), ["device disconnected"], {})
    ctx.emit(Ev("lost"))
    return outcome(it, lambda: it.call(it.getattr(P.protocol, "connection_lost"), [exc], {}))


def pending(ctx, it, api):
    """What the connection was doing: nothing, waiting for an answer, in the middle of a frame."""
    n = ctx.choose(4)
    if n & 1:
        run_once = it.getattr(api, "wait_for")
        it.call(run_once, [enum(it, "zigpy_cc.types:CommandType.SRSP"), enum(it, "zigpy_cc.types:Subsystem.SYS"), "ping", SDict({}), 6000], {})
    if n & 2:
        p = api.attrs.get("_uart")
        if isinstance(p, SObj):
            outcome(it, lambda: it.call(it.getattr(p, "data_received"), [b"\xfe\x02\x61"], {}))


def g_lost(ctx, it):
    P, api = opened(ctx, it)
    pending(ctx, it, api)
    r = lose(ctx, it, P, False)
    ctx.prove("no exception", not r.raised, r.raised and describe_exc(r.exc))
    ctx.prove("the application is told once that the port went away", len(evs(ctx, "told")) == 1)
    r = outcome(it, lambda: it.call(it.getattr(api, "close"), [], {}))
    ctx.prove("the old connection can be closed", not r.raised, r.raised and describe_exc(r.exc))
    lose(ctx, it, P, True)
    ctx.prove("closing the old connection does not count as another loss", len(evs(ctx, "told")) == 1)


def g_close(times):
    def fn(ctx, it):
        P, api = opened(ctx, it)
        pending(ctx, it, api)
        for n in range(times):
            r = outcome(it, lambda: it.call(it.getattr(api, "close"), [], {}))
            ctx.prove("closing does not fail", not r.raised, r.raised and describe_exc(r.exc))
        ctx.prove("the port is closed", P.closes() >= 1)
        r = lose(ctx, it, P, ctx.choose(2) == 1)
        ctx.prove("no exception", not r.raised, r.raised and describe_exc(r.exc))
        ctx.prove("closing on purpose is not reported as a loss", not evs(ctx, "told"))
    return fn


def g_early(ctx, it):
    """A port that was never up is not lost."""
    g = it.w.get("zigpy_cc.uart:Gateway")
    api = Mock("api", connection_lost=Builtin("connection_lost", lambda i, a, k: ctx.emit(Ev("told"))))
    o = it.call(g, [api], {})
    r = outcome(it, lambda: it.call(it.getattr(o, "connection_lost"), [None], {}))
    ctx.prove("the loss of a port that was never up is not reported", not r.raised and not evs(ctx, "told"))


class Attempts:
    """The application with an old connection; start-up by contract."""

    def __init__(self, ctx, it, first):
        self.ctx, self.it = ctx, it
        A = self.A = App(ctx, it, start=False)
        self.open = {}
        it.w.get("zigpy_cc.zigbee.application:ControllerApplication.startup")
        ctx.contracts["zigpy_cc.zigbee.application:ControllerApplication.startup"] = self.startup
        attr(it, A.app, "_api")
        self.n = 0
        self.cur = None
        if first:
            self.cur = self.api()
            ctx.setitem(A.app.attrs, "_api", self.cur)
        self.ups = None

    def api(self):
        ctx = self.ctx
        m = Mock("connection")
        m.attrs["open"] = True

        def close(i, a, k):
            ctx.setitem(m.attrs, "open", False)
            ctx.emit(Ev("close", m))
        m.attrs["close"] = Builtin("close", close)
        return m

    def startup(self, it, a, k):
        ctx = self.ctx
        form = a[1] if len(a) > 1 else k.get("auto_form", False)

        def go():
            old = self.A.app.attrs["_api"]
            ctx.prove("the network is formed if needed", form is True)
            ctx.prove("the old connection is closed before a new one is opened", old is None or old.attrs["open"] is False)
            ctx.prove("after a successful attempt there is no other", not evs(ctx, "success"))
            ctx.emit(Ev("attempt", old))
            c = ctx.choose(5)
            if c == 0:
                it.raise_(X.EX("serial.SerialException"), "no such port")
            ctx.setitem(self.A.app.attrs, "_api", self.api())
            if c == 1:
                it.raise_(X.EX("asyncio.TimeoutError"))
            if c == 2:
                it.raise_("Exception", "Failed to connect to the adapter")
            if c == 3:
                raise PyRaise(it.call(it.w.get("zigpy_cc.exception:CommandError"), [ctx.int("status", 1, 255), "refused"], {}))
            ctx.emit(Ev("success"))
            return None
        return Coro("startup", go)


def reconnection(ctx, it, T):
    r = outcome(it, lambda: it.call(it.getattr(T.A.app, "connection_lost"), [], {}))
    ctx.prove("the loss is accepted", not r.raised, r.raised and describe_exc(r.exc))
    tasks = evs(ctx, "task")
    if not ctx.prove("one task reconnects", len(tasks) == 1):
        return None
    c = tasks[0][0]
    if not isinstance(c, Coro):
        raise Unsupported("the task is %r" % (c,))
    ctx.set(c, "used", False)
    return outcome(it, lambda: it.await_(c))


def g_attempts(n, first):
    """The first n attempts, one by one."""
    def fn(ctx, it):
        T = Attempts(ctx, it, first)
        k = {"n": 0}
        inner = T.startup

        def startup(i, a, kw):
            ctx.setitem(k, "n", k["n"] + 1)
            if k["n"] > n:
                raise Pruned()
            return inner(i, a, kw)
        ctx.contracts["zigpy_cc.zigbee.application:ControllerApplication.startup"] = startup
        ctx.shared["unroll_while"] = n + 1
        r = reconnection(ctx, it, T)
        if r is None:
            return
        ctx.prove("reconnecting ends without an error", not r.raised, r.raised and describe_exc(r.exc))
        ctx.prove("it ends only when an attempt has succeeded", len(evs(ctx, "success")) == 1)
        L = [e.kind for e, g in events(ctx, ctx.trace, ("attempt", "success", "sleep", "close"))]
        ctx.prove("nothing is tried after that", L and L[-1] == "success", L)
        ctx.prove("it waits before every attempt", all("sleep" in L[(max([j for j in range(i) if L[j] == "attempt"], default=-1) + 1):i] for i, x in enumerate(L) if x == "attempt"))
        cur = T.A.app.attrs["_api"]
        ctx.prove("the new connection is left open", cur is not None and cur.attrs["open"] is True)
    return fn


def g_any(ctx, it):
    """Any number of attempts: every one that fails is followed by another.

    Each iteration is judged on its own, on the assumption that there is a connection to close."""
    T = Attempts(ctx, it, True)
    conn = Mock("connection", close=Builtin("close", lambda i, a, k: ctx.emit(Ev("close", conn))))
    ctx.setitem(T.A.app.attrs, "_api", conn)

    def startup(i, a, k):
        form = a[1] if len(a) > 1 else k.get("auto_form", False)

        def go():
            ctx.emit(Ev("attempt", form))
            c = ctx.choose(5)
            if c == 1:
                i.raise_(X.EX("serial.SerialException"), "no such port")
            if c == 2:
                i.raise_(X.EX("asyncio.TimeoutError"))
            if c == 3:
                i.raise_("Exception", "Failed to connect to the adapter")
            if c == 4:
                raise PyRaise(i.call(i.w.get("zigpy_cc.exception:CommandError"), [ctx.int("status", 1, 255), "refused"], {}))
            ctx.emit(Ev("success"))
        return Coro("startup", go)
    ctx.contracts["zigpy_cc.zigbee.application:ControllerApplication.startup"] = startup
    r = reconnection(ctx, it, T)
    if r is None:
        return
    ctx.prove("reconnecting ends without an error", not r.raised, r.raised and describe_exc(r.exc))
    rounds = []
    last = []
    for e in ctx.trace:
        if isinstance(e, LoopEv):
            for cond, es in e.cases:
                if feasible(ctx, z3.And(e.j >= 0, e.j < e.n, cond)):
                    rounds.append([x for x, g in events(ctx, es)])
        elif e.kind in ("attempt", "success", "sleep", "close"):
            last.append(e)
    for x in rounds:
        k = [e.kind for e in x]
        ctx.prove("a successful attempt is the last one", "success" not in k, k)
    for x in rounds + [last]:
        k = [e.kind for e in x]
        if ctx.prove("one attempt at a time", k.count("attempt") == 1, k):
            n = k.index("attempt")
            ctx.prove("the old connection is closed first", "close" in k[:n], k)
            ctx.prove("it waits before an attempt", "sleep" in k[:n], k)
            ctx.prove("a connection being opened is not closed", "close" not in k[n:], k)
            ctx.prove("the network is formed if needed", x[n].args[0] is True)
    ctx.prove("it ends only when an attempt has succeeded", [e.kind for e in last][-1:] == ["success"], [e.kind for e in last])


class Interfered:
    """A reconnection during which, once, the new port is lost again or the application is shut down."""

    def __init__(self, ctx, it, act, where):
        self.ctx, self.it, self.act, self.where = ctx, it, act, where
        self.T = Attempts(ctx, it, True)
        self.app = self.T.A.app
        self.S = Mock("state")
        self.S.attrs.update({"n": 0, "done": False, "asleep": 0})
        self.tasks = []
        ctx.shared["create_task"] = self.created
        ctx.shared["suspend"] = self.suspended
        ctx.shared["unroll_while"] = 4
        ctx.contracts["zigpy_cc.zigbee.application:ControllerApplication.startup"] = self.startup
        self.running = None

    def created(self, it, c, m):
        ctx = self.ctx
        ctx.setitem(m.attrs, "_state", "pending")
        m.attrs["cancel"] = Builtin("cancel", lambda i, a, k: self.cancel(m))
        m.attrs["done"] = Builtin("done", lambda i, a, k: m.attrs["_state"] != "pending")
        m.attrs["cancelled"] = Builtin("cancelled", lambda i, a, k: m.attrs["_state"] == "cancelled")

    def cancel(self, m):
        if m.attrs["_state"] == "pending":
            self.ctx.setitem(m.attrs, "_state", "cancelled")
            return True
        return False

    def tasks_now(self):
        return [m for c, m in evs(self.ctx, "task")]

    def interfere(self):
        """The other event happens while the reconnection is suspended here."""
        ctx, it = self.ctx, self.it
        if self.S.attrs["done"]:
            return
        if ctx.choose(2) == 0:
            return
        ctx.setitem(self.S.attrs, "done", True)
        m = self.running
        if self.act == "loss":
            c = self.app.attrs["_api"]
            ctx.setitem(c.attrs, "lost", True)
            ctx.emit(Ev("lost"))
            it.call(it.getattr(self.app, "connection_lost"), [], {})
            ctx.prove("two reconnections do not go on at the same time", len([1 for t, in [x[1:] for x in evs(ctx, "task")] if t.attrs["_state"] == "pending"]) == 1)
        else:
            it.await_(it.call(it.getattr(self.app, "shutdown"), [], {}))
            ctx.emit(Ev("shut"))
        # waiting for an answer that is there already, wait_for forgets the cancellation
        if m.attrs["_state"] == "cancelled" and not (self.where == "up" and ctx.choose(2)):
            it.raise_(X.EX("asyncio.CancelledError"))

    def suspended(self, it, what):
        if what and what[0] == "sleep" and self.where == "sleep" and self.running is not None:
            self.interfere()

    def startup(self, it, a, k):
        ctx = self.ctx

        def go():
            n = self.S.attrs["n"]
            ctx.setitem(self.S.attrs, "n", n + 1)
            ctx.prove("no attempt after shutting down", not evs(ctx, "shut"))
            if n >= 3:
                raise Pruned()
            old = self.app.attrs["_api"]
            ctx.prove("the old connection is closed before a new one is opened", old is None or old.attrs["open"] is False)
            ctx.emit(Ev("attempt", n))
            if self.where == "opening":
                self.interfere()
            new = self.T.api()
            new.attrs["lost"] = False
            ctx.setitem(self.app.attrs, "_api", new)
            if self.where == "up":
                self.interfere()
            if n < 2 and ctx.choose(2):
                it.raise_(X.EX("asyncio.TimeoutError"))
            ctx.emit(Ev("success", new))
            return None
        return Coro("startup", go)

    def go(self):
        ctx, it = self.ctx, self.it
        it.call(it.getattr(self.app, "connection_lost"), [], {})
        ran = []
        for turn in range(3):
            live = [(c, m) for c, m in evs(ctx, "task") if m.attrs["_state"] == "pending"]
            if not live:
                break
            ctx.prove("one reconnection at a time", len(live) == 1)
            c, m = live[0]
            if not isinstance(c, Coro):
                raise Unsupported("the task is %r" % (c,))
            ctx.set(c, "used", False)
            self.running = m
            r = outcome(it, lambda: it.await_(c))
            self.running = None
            if m.attrs["_state"] == "pending":
                ctx.setitem(m.attrs, "_state", "finished")
                ctx.prove("reconnecting ends without an error", not r.raised, r.raised and describe_exc(r.exc))
        cur = self.app.attrs["_api"]
        if self.act == "shutdown" and evs(ctx, "shut"):
            ctx.prove("after shutting down no connection is open", cur is None or cur.attrs["open"] is False)
        else:
            ctx.prove("in the end there is a working connection", cur is not None and cur.attrs["open"] is True and not cur.attrs.get("lost"))
            ok = evs(ctx, "success")
            ctx.prove("the last attempt succeeded", len(ok) >= 1 and ok[-1][0] is cur)


def g_interfered(act, where):
    return lambda ctx, it: Interfered(ctx, it, act, where).go()


def g_shutdown(ctx, it):
    A = App(ctx, it)
    A.cut()
    r = A.coro("shutdown")
    ctx.prove("no exception", not r.raised, r.raised and describe_exc(r.exc))
    ctx.prove("shutting down closes the connection", len(A.calls("close")) == 1)
    ctx.prove("shutting down does not reconnect", not A.calls("task"))


def g_anew(ctx, it):
    """Shut down or not, and started again: a loss is answered as the first time."""
    A = App(ctx, it)
    ctx.kept[:] = [k for k in ctx.kept if k[2] is not A.app]       # a start-up changes the application
    for _ in range(1 + ctx.choose(2)):
        if ctx.choose(2):
            r = A.coro("shutdown")
            ctx.prove("shutting down works", not r.raised, r.raised and describe_exc(r.exc))
        A.reply = A.starting
        r = A.startup(False)
        if r.raised:
            raise Unsupported("starting again fails")       # C26
    A.cut()
    r = outcome(it, lambda: it.call(it.getattr(A.app, "connection_lost"), [], {}))
    ctx.prove("the loss is accepted", not r.raised, r.raised and describe_exc(r.exc))
    tasks = A.calls("task")
    ctx.prove("one task reconnects", len(tasks) == 1 and isinstance(tasks[0][0], Coro))


def g_same_api(ctx, it):
    """The application closes the API it was started with; API.close is the deliberate close."""
    A = App(ctx, it)
    app = A.app
    A.cut()
    made = [a for a, k in evs(ctx, "api_new")]
    ctx.prove("the API is created for this application", len(made) == 1 and any(x is app for x in made[0]))


def GOALS(w):
    return [Goal("port lost", g_lost), Goal("closed once", g_close(1)), Goal("closed twice", g_close(2)), Goal("never up", g_early), Goal("shutdown", g_shutdown),
            Goal("one application", g_same_api), Goal("lost after starting again", g_anew)] + [
        Goal("%d attempts, %s connection" % (n, "old" if f else "no"), g_attempts(n, f)) for n in (1, 2, 3) for f in (True, False)] + [Goal("any number of attempts", g_any)] + [
        Goal("lost again while reconnecting", g_interfered("loss", "up"))] + [
        Goal("shut down while reconnecting, %s" % w, g_interfered("shutdown", w)) for w in ("sleep", "opening", "up")]
