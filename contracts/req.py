"""The request path: API.request_raw / _request_raw on an API with an arbitrary table of waits."""
from contracts.lib import *


class Env:
    """An API whose table of waits and wait counter are arbitrary, connected to a port."""

    def __init__(self, ctx, it, encode_fails=True, write_fails=True, cancels=True, timeouts=True):
        self.ctx, self.it = ctx, it
        self.api = new_api(ctx, it)
        self.locks = [v for v in self.api.attrs.values() if isinstance(v, Mock) and "__aenter__" in v.attrs and v.attrs.get("count") == 1]
        self.W = Waits(ctx, it).install(self.api)
        attr(it, self.api, "_waiter_id")
        self.top = ctx.int("counter", 0).e
        self.api.attrs["_waiter_id"] = SInt(self.top)
        self.cancels, self.timeouts = cancels, timeouts
        attr(it, self.api, "_uart")
        ctx.keep(self.api, ("_waiters", "_waiter_id", "_uart", "_proto_ver"))
        self.frame = Mock("frame")
        self.response = None
        self.table_after = None

        def send(i, a, k):
            ctx.emit(Ev("send", a[0] if a else k.get("frame"), self.held(), self.registered()))
            if write_fails and ctx.choose(2):
                i.raise_("OSError" if ctx.choose(2) else "RuntimeError", "write failed")
        self.api.attrs["_uart"] = Mock("uart", send=Builtin("send", send), close=Builtin("close", lambda i, a, k: ctx.emit(Ev("close"))))

        def encode(i, a, k):
            if encode_fails and ctx.choose(2):
                i.raise_("KeyError" if ctx.choose(2) else "OverflowError", "cannot be encoded")
            return self.frame
        ctx.contracts["zigpy_cc.zpi_object:ZpiObject.to_unpi_frame"] = encode
        it.w.get("zigpy_cc.zpi_object:ZpiObject.to_unpi_frame")
        ctx.shared["suspend"] = self.suspend
        ctx.shared["wait_for"] = self.wait_for

    def held(self):
        return sum(m.attrs["held"] for m in self.locks)

    def registered(self):
        """Waits stored in the table and still in it."""
        return [(k, v) for o, k, v in self.ctx.shared.get("map_stores", [])
                if o is self.api.attrs.get("_waiters") and isinstance(v, SObj)]

    def suspend(self, it, what):
        if self.cancels and self.ctx.choose(2):
            self.ctx.emit(Ev("cancelled_at", what[0]))
            it.raise_(X.EX("asyncio.CancelledError"))

    def havoc(self):
        """What other tasks and arriving messages may do meanwhile: the table is arbitrary again."""
        self.W2 = Waits(self.ctx, self.it)
        self.ctx.setitem(self.api.attrs, "_waiters", self.W2.map)
        t = self.ctx.int("counter2").e
        self.ctx.assume(t >= zi(self.api.attrs["_waiter_id"]))
        self.ctx.setitem(self.api.attrs, "_waiter_id", SInt(t))

    def wait_for(self, it, aw, tmo):
        ctx = self.ctx
        fut = aw
        if isinstance(fut, Coro) or not isinstance(fut, Mock) or "state" not in fut.attrs:
            raise Unsupported("wait_for of something else than the future of a wait")
        if fut.attrs["state"] != "pending":
            return it.await_(fut)
        ctx.emit(Ev("await", fut, tmo, self.held()))
        n = ["answer"] + (["timeout"] if self.timeouts else []) + (["cancel"] if self.cancels else [])
        c = n[ctx.choose(len(n))]
        self.havoc()
        if c == "answer":
            m = message(ctx, it)
            T = it.w.load("zigpy_cc.types").ns
            pay = {k: (k, ctx.val("r." + k)) for k in "ab"}
            if ctx.choose(2):
                pay["status"] = ("status", ctx.int("status", 0, 255))
                ctx.inputs["status"] = pay["status"][1]
            ctx.setitem(m.attrs, "payload", SDict(pay))
            ctx.setitem(fut.attrs, "state", "done")
            ctx.setitem(fut.attrs, "value", m)
            ctx.emit(Ev("answer", m, self.held()))
            self.response = m
            return m
        ctx.setitem(fut.attrs, "state", "cancelled")
        ctx.emit(Ev(c, fut, self.held()))
        it.raise_(X.EX("asyncio.TimeoutError" if c == "timeout" else "asyncio.CancelledError"))

    def obj(self, ct=None, cmd=None):
        ctx, it = self.ctx, self.it
        o = message(ctx, it)
        if ct is not None:
            o.attrs["command_type"] = enum(it, "zigpy_cc.types:CommandType." + ct)
        if cmd is not None:
            o.attrs["command"] = cmd
        o.attrs["parameters"] = SList(())
        ctx.inputs.update(ct=o.attrs["command_type"], ss=o.attrs["subsystem"])
        return o

    def follow(self):
        """A follow-up wait handed in by the caller: none, or an identity given out before."""
        if self.ctx.choose(2):
            return None
        f = self.ctx.int("follow", 0)
        self.ctx.assume(f.e < self.top)
        return f

    def request(self, obj, waiter_id=None, expected=None):
        f = self.it.getattr(self.api, "request_raw")
        a = [obj, waiter_id] + ([] if expected is None else [expected])
        return run_coro(self.it, f, a)


def run_coro(it, f, a, kw=None):
    return outcome(it, lambda: it.await_(it.call(f, a, kw or {})))
