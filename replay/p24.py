"""C24 oracle: probing ports that fail, answer, stay silent, report errors or are given up on."""
from znp import *
import serial

RULE = "probes of ports that fail to open, whose link comes up late or never, of sticks that answer, stay silent, report an error or garbage, cancelled at random times"


def prepare(loop, i, st):
    """A stick that behaves as the input says."""
    z = ZStack(loop, product=i["product"])
    s = z.stick
    st["s"] = s
    s.open_delay, s.made = i["open_delay"], (True if i["made"] == 0 else i["made"])
    if i["fail"]:
        s.fail = {"serial": serial.SerialException("no"), "os": OSError(71, "Protocol error")}[i["fail"]]

    def hook(r):
        if r.name != "version" or r.ss != "SYS":
            return None
        st["asked"] = True
        h = i["how"]
        if h == "rpc":
            return [(0.01, frame(3, 0, 0, bytes([2, 0x21, 2])))]
        if h == "garbage":
            return [(0.01, b"\x00\x01\xfe\x05"), (0.02, b"\x61\x02")]
        if h == "other":
            return [(0.01, mk("SRSP", "SYS", "ping", {"capabilities": 1}))]
        if h == "write":
            return [(0, serial.SerialException("write failed"))]
        return None
    z.hook = hook
    z.delay = i["delay"]
    z.alive = i["how"] != "silent"
    return z


async def probe(loop, i, st, baudrate=115200):
    from zigpy_cc.api import API
    t = asyncio.ensure_future(API.probe({"path": "/dev/null", "baudrate": baudrate, "flow_control": i["flow"]}))
    if i["cancel"] is not None:
        await asyncio.sleep(i["cancel"])
        st["late"] = t.done()
        t.cancel()
    try:
        r = await t
    except asyncio.CancelledError:
        r = "cancelled"
    except Exception as e:
        r = e
    st["closed"] = [o["transport"].closed for o in st["s"].opened if o["transport"]]
    return r


def judge(i, st, r):
    s = st["s"]
    if any(c < 1 for c in st["closed"]):
        return "the port was left open (%r)" % (r,)
    if len(s.opened) > 1:
        return "the port was opened %d times" % len(s.opened)
    if i["cancel"] is not None and not st["late"]:
        return "a cancelled probe says yes" if r is True else None
    good = not i["fail"] and i["made"] is not None and i["how"] == "ok" and i["delay"] < 1
    if good and i["made"] + i["open_delay"] > 0.6:
        return None
    if r is not good:
        return "the probe gave %r instead of %r" % (r, good)
    return None


def check(i):
    """One probe, or several which overlap, each of a stick of its own."""
    many = i["several"] if "several" in i else [[0, i]]
    sts = [{} for _ in many]

    async def go(loop):
        for (_, x), st in zip(many, sts):
            prepare(loop, x, st)

        async def open_(loop, factory, *a, **k):
            return await sts[k["baudrate"] - 115200]["s"].open(loop, factory, *a, **k)
        serial_is(open_)

        async def later(n, t, x, st):
            await asyncio.sleep(t)
            return await probe(loop, x, st, 115200 + n)
        r = await asyncio.gather(*[later(n, t, x, st) for n, ((t, x), st) in enumerate(zip(many, sts))])
        await asyncio.sleep(60)
        return r
    for (_, x), st, r in zip(many, sts, run(go)):
        e = judge(x, st, r)
        if e:
            return e
    return None


def cases(rng):
    base = {"product": 1, "open_delay": 0.0, "made": 0, "fail": None, "how": "ok", "delay": 0.01, "flow": None, "cancel": None}
    yield base
    for h in ("silent", "rpc", "garbage", "other", "write"):
        yield dict(base, how=h)
    for f in ("serial", "os"):
        yield dict(base, fail=f)
    yield dict(base, made=None)
    yield dict(base, delay=40)
    for c in (0.0, 0.05, 0.5, 1.0, 1.005, 1.9):
        yield dict(base, cancel=c, how="silent")
        yield dict(base, cancel=c, made=0.4)
        yield dict(base, cancel=c, made=None)
    yield {"several": [[0, base], [0, base]]}
    yield {"several": [[0, dict(base, how="silent")], [0.5, base], [1.2, base], [2.5, base]]}

    def one():
        return {"product": rng.choice([0, 1, 2]), "open_delay": rng.choice([0.0, 0.0, 0.1, 5.0]), "made": rng.choice([0, 0, 0.1, 0.3, None, 10.0]),
               "fail": rng.choice([None, None, None, "serial", "os"]), "how": rng.choice(["ok", "ok", "ok", "silent", "rpc", "garbage", "other", "write"]),
               "delay": rng.choice([0.001, 0.05, 0.2, 40]), "flow": rng.choice([None, "hardware", "software"]),
               "cancel": rng.choice([None, None, None, 0, 0.203, 0.707, 1.013, 1.517, 0.0007 + rng.random() * 2])}

    # one after the other
    for h in ("ok", "silent", "write", None):
        yield {"several": [[3 * k, dict(base, how=h) if h else one()] for k in range(20)]}
    while True:
        if rng.random() < 0.05:
            yield {"several": [[3 * k, one()] for k in range(rng.choice([5, 10, 30]))]}
        yield one()
        if rng.random() < 0.3:
            yield {"several": [[rng.choice([0, 0, 0.5, 1.0, 1.2, 2 * rng.random()]), one()] for _ in range(rng.choice([2, 3, 5]))]}


def from_model(goal, m):
    base = {"product": 1, "open_delay": 0.0, "made": 0, "fail": None, "how": "ok", "delay": 0.01, "flow": None, "cancel": None}
    out = [base] + [dict(base, how=h) for h in ("silent", "rpc", "write")] + [dict(base, fail=f) for f in ("serial", "os")] + [dict(base, made=None), dict(base, delay=40)]
    out += [{"several": [[0, base], [0, base]]}, {"several": [[0, dict(base, how="silent")], [0.5, base], [2.5, base]]}]
    return out + [dict(base, cancel=c, made=d, how="silent") for c in (0.0, 0.2, 0.5, 1.005, 1.5) for d in (0, 0.4, None)]
