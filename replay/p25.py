"""C25 oracle: a started application losing its port, or closing it."""
from znp import *
import serial
import zigpy.types as zt

RULE = "applications losing the port idle or in the middle of a request, with several reconnection attempts failing in different ways, losing it again or being shut down while reconnecting, and applications closing the port on purpose"


class Ports:
    """Every opened port, and the loss of it reported as the real transport does."""

    def __init__(self, loop, z):
        self.loop, self.z, self.bad = loop, z, None
        self.inner = z.stick.open
        self.told = set()
        serial_is(self.open)
        feed = z.stick.feed
        z.stick.feed = lambda rec, f: None if id(rec["transport"]) in self.told else feed(rec, f)

    async def open(self, loop, factory, *a, **k):
        st = self.z.stick
        for o in st.opened:
            t = o["transport"]
            if t is not None and not t.closed:
                self.bad = self.bad or "a new port was opened while the old connection was not closed"
        try:
            return await self.inner(loop, factory, *a, **k)
        finally:
            for o in st.opened:
                t = o["transport"]
                if t is not None and id(t) not in self.told and not hasattr(t, "really"):
                    t.really = t.close
                    t.close = lambda t=t, o=o: self.close(t, o)

    def close(self, t, o):
        t.really()
        self.lost(o, None, True)

    def lost(self, o, exc, soon=False):
        t = o["transport"]
        if id(t) in self.told:
            return
        self.told.add(id(t))
        t.gone = True
        t.on_write = None
        if soon:
            self.loop.call_soon(o["protocol"].connection_lost, exc)
        else:
            o["protocol"].connection_lost(exc)


def trouble(z, f, r):
    """How the stick answers the command an attempt fails at."""
    return {"no": lambda: [], "refuse": lambda: [z.fixed(r, 1)], "write": lambda: [(0, serial.SerialException("write failed"))],
            "rpc": lambda: [(0.01, frame(3, 0, 0, bytes([2, 0x21, 2])))]}[f[0]]()


def attempts(z):
    return len(z.stick.opened)


def check(i):
    return run(lambda loop: together(loop, *[story(k) for k in [i] + i.get("beside", [])]))


def story(i):
    async def go(loop):
        z = ZStack(loop, product=i["product"])
        P = Ports(loop, z)
        app = await started(z, auto_form=i["form"])
        if attempts(z) != 1:
            return "start-up opened %d ports" % attempts(z)
        o = z.stick.opened[0]
        dev = type("D", (), {"nwk": zt.NWK(0x1234), "ieee": zt.EUI64(range(8))})()
        busy = None
        if i["busy"]:
            z.alive = False
            busy = asyncio.ensure_future(app.request(dev, 260, 6, 1, 1, 1, b"busy", expect_reply=False))
            await asyncio.sleep(0.5)
        bad = list(i["bad"])
        k = {"n": 0}

        def fail(rec):
            f = bad[k["n"]] if k["n"] < len(bad) else None
            k["n"] += 1
            z.alive = f != "silent"
            z.hook = (lambda r: trouble(z, f, r) if r.name == f[1] else None) if isinstance(f, list) else None
            if f == "serial":
                return serial.SerialException("gone")
            if f == "os":
                return FileNotFoundError(2, "No such file")
            return None
        z.stick.fail = fail
        if i["purpose"]:
            for _ in range(i["purpose"]):
                await app.shutdown()
            await asyncio.sleep(i["after"])
            if not o["transport"].closed:
                return "closing on purpose left the port open"
            if i["purpose"] and i["again"]:
                P.lost(o, serial.SerialException("unplugged"))
            await asyncio.sleep(300)
            if attempts(z) != 1:
                return "closing on purpose led to a reconnection"
            if i.get("anew"):
                # started again, it reconnects as ever
                for _ in range(i["anew"]):
                    if attempts(z) > 1:
                        await app.shutdown()
                        await asyncio.sleep(1)
                    z.alive, z.hook = True, None
                    await app.startup(i["form"])
                n = attempts(z)
                P.lost(z.stick.opened[-1], serial.SerialException("unplugged") if i["exc"] else None)
                await asyncio.sleep(300)
                if attempts(z) != n + 1:
                    return "%d attempts to reconnect after a loss, shut down and started again before" % (attempts(z) - n)
                r = await app.request(dev, 260, 6, 1, 1, 7, b"again", expect_reply=False)
                if r[0] != 0:
                    return "the application does not work after reconnecting: %r" % (r,)
            return P.bad
        if i.get("flaps") or i.get("shut") is not None:
            return await flapping(i, z, P, app, o, dev, attempts, loop)
        z.alive = True
        P.lost(o, serial.SerialException("unplugged") if i["exc"] else None)
        await asyncio.sleep(300 + 200 * len(bad))
        n = attempts(z)
        if n != 2 + len(bad):
            return "%d attempts to reconnect after a loss, with %d failing" % (n - 1, len(bad))
        opened = [x for x in z.stick.opened if x["transport"] and not x["transport"].closed]
        if len(opened) != 1 or opened[0] is not z.stick.opened[-1]:
            return "%d connections are open after reconnecting" % len(opened)
        await asyncio.sleep(3600)
        if attempts(z) != n:
            return "it goes on reconnecting after having succeeded"
        start = len(z.log)
        r = await app.request(dev, 260, 6, 1, 1, 7, b"again", expect_reply=False)
        if r[0] != 0 or ("AF", "dataRequestExt") not in z.names(start) and ("AF", "dataRequest") not in z.names(start):
            return "the application does not work after reconnecting: %r" % (r,)
        if busy is not None:
            await asyncio.gather(busy, return_exceptions=True)
        # and further losses
        for m in range(i.get("losses", 1)):
            P.lost(z.stick.opened[-1], None)
            await asyncio.sleep(300)
            if attempts(z) != n + 1 + m:
                return "%d attempts after another loss" % (attempts(z) - n - m)
        return P.bad
    return go


async def flapping(i, z, P, app, o, dev, attempts, loop):
    """The port is lost again and again, or the application is shut down, while it reconnects."""
    z.alive = True
    t0 = loop.time()
    loop.call_soon(P.lost, o, None)
    ev = sorted([(t, "lose") for t in i.get("flaps", [])] + ([(i["shut"], "shut")] if i.get("shut") is not None else []))
    for t, what in ev:
        await asyncio.sleep(max(0, t0 + t - loop.time()))
        if what == "lose":
            for x in z.stick.opened:
                if x["transport"] and not x["transport"].closed and id(x["transport"]) not in P.told:
                    loop.call_soon(P.lost, x, serial.SerialException("unplugged"))
        else:
            await app.shutdown()
            n = attempts(z)
            await asyncio.sleep(600)
            if attempts(z) != n:
                return "after shutting down, another attempt to reconnect was made"
            if [x for x in z.stick.opened if x["transport"] and not x["transport"].closed]:
                return "after shutting down while reconnecting, a port is open"
            return P.bad
    await asyncio.sleep(400)
    n = attempts(z)
    opened = [x for x in z.stick.opened if x["transport"] and not x["transport"].closed]
    if len(opened) != 1 or opened[0] is not z.stick.opened[-1] or id(opened[0]["transport"]) in P.told:
        return "%d connections are open after reconnecting" % len(opened)
    await asyncio.sleep(3600)
    if attempts(z) != n:
        return "it goes on reconnecting after having succeeded"
    r = await app.request(dev, 260, 6, 1, 1, 7, b"again", expect_reply=False)
    if r[0] != 0:
        return "the application does not work after reconnecting: %r" % (r,)
    return P.bad


BAD = ["serial", "os", "silent", ["no", "ping"], ["no", "version"], ["no", "getDeviceInfo"], ["no", "osalNvRead"],
       ["refuse", "getDeviceInfo"], ["write", "getDeviceInfo"], ["write", "ping"], ["write", "version"], ["rpc", "osalNvRead"]]


def cases(rng):
    last = None
    for i in alone(rng):
        yield i
        if last and rng.random() < 0.12:        # two applications at the same time
            yield dict(i, beside=[last])
        last = i


def alone(rng):
    base = {"product": 1, "form": True, "busy": False, "bad": [], "purpose": 0, "again": False, "exc": True, "after": 1}
    yield base
    for n in (1, 2):
        for ag in (False, True):
            yield dict(base, purpose=n, again=ag)
            yield dict(base, purpose=n, again=ag, anew=n, product=n)
    for b in BAD:
        yield dict(base, bad=[b])
        yield dict(base, bad=[b, b, "serial"], busy=True)
    for n in (30, 100, 400):
        yield dict(base, bad=["serial"] * n)
    yield dict(base, losses=rng.choice([20, 40]))
    yield dict(base, bad=[rng.choice(BAD) for _ in range(60)])
    for t in (5.5, 6.2, 6.01, 6.05, 7, 12):
        yield dict(base, flaps=[t])
        yield dict(base, shut=t)
    for t in (0.0, 1, 4.9):
        yield dict(base, shut=t)
    while True:
        if rng.random() < 0.3:
            t = [round(rng.choice([rng.uniform(0, 7), rng.uniform(5.9, 6.5), rng.uniform(0, 60)]), 3) for _ in range(rng.choice([1, 1, 2, 4]))]
            sh = rng.random() < 0.5
            yield dict(base, product=rng.choice([0, 1, 2]), form=rng.random() < 0.5, bad=[rng.choice(BAD) for _ in range(rng.choice([0, 0, 1, 2]))],
                       flaps=t[1:] if sh else t, shut=t[0] if sh else None)
            continue
        if rng.random() < 0.1:
            yield dict(base, product=rng.choice([0, 1, 2]), form=rng.random() < 0.5, purpose=rng.choice([1, 2]), again=rng.random() < 0.5, anew=rng.choice([1, 2]), busy=rng.random() < 0.3)
        yield {"product": rng.choice([0, 1, 2]), "form": rng.random() < 0.5, "busy": rng.random() < 0.4, "bad": [rng.choice(BAD) for _ in range(rng.choice([0, 1, 2, 5, 12]))],
               "purpose": rng.choice([0, 0, 0, 1, 2]), "again": rng.random() < 0.5, "exc": rng.random() < 0.5, "after": rng.choice([0, 1, 10])}


def from_model(goal, m):
    base = {"product": 1, "form": True, "busy": False, "bad": [], "purpose": 0, "again": False, "exc": True, "after": 1}
    out = [dict(base, exc=e, busy=b) for e in (True, False) for b in (True, False)]
    out += [dict(base, bad=[b] * n) for b in BAD for n in (1, 3, 25)]
    out += [dict(base, flaps=[t / 20]) for t in range(100, 140)] + [dict(base, shut=t / 10) for t in range(0, 80)]
    out += [dict(base, purpose=1, anew=k) for k in (1, 2)]
    return out + [dict(base, purpose=n, again=a) for n in (1, 2) for a in (False, True)]
