"""C11 oracle: histories of waits; times of requests and resets."""
from waits import *
from reqs import Stick, open_api, kind_of, limit, mk
from zigpy_cc.types import Subsystem as SSE

RULE = "histories of waits, messages, cancellations and time passing; the time after which requests, resets and waits of every kind give up; late and repeated completions"


def check(i):
    if "ops" in i:
        return run_history(i["ops"], beside=i.get("beside", ()))
    if "cmd" in i:
        return timing(i)
    return repeated(i)


def timing(i):
    """A request that is never answered gives up when its time is up and leaves nothing behind."""
    async def go(loop):
        stick = Stick(loop)
        api = await open_api(stick)
        k = kind_of(i["ss"], i["cmd"])
        want = limit(i["cmd"], k)
        t0 = loop.time()
        try:
            await asyncio.wait_for(api.request(SSE[i["ss"]], i["cmd"], i["vals"]), 200)
            return "unanswered, it ended without an error"
        except asyncio.TimeoutError:
            pass
        dt = loop.time() - t0
        if abs(dt - want) > 0.5:
            return "%s.%s gave up after %.2f s instead of %d s" % (i["ss"], i["cmd"], dt, want)
        await asyncio.sleep(1)
        left = getattr(api, "_waiters", None)
        if left:
            return "the wait is still registered %.1f s after its time" % (loop.time() - t0 - want)
        # answered just in time
        t1 = loop.time()
        f = mk("SRSP", i["ss"], i["cmd"], i["rsp"]) if k == "SREQ" else mk("AREQ", "SYS", "resetInd", i["rsp"])
        loop.call_later(want - 0.2, stick.send, f)
        try:
            await asyncio.wait_for(api.request(SSE[i["ss"]], i["cmd"], i["vals"]), 200)
        except asyncio.TimeoutError:
            return "%s.%s, answered %.1f s after it was sent, gave up after %.2f s" % (i["ss"], i["cmd"], want - 0.2, loop.time() - t1)
        return None
    return run(go)


def repeated(i):
    async def go(loop):
        api = zapi.API({})
        w = api.wait_for(CommandType.AREQ, Subsystem.SYS, "resetInd", timeout=1000)
        t = asyncio.ensure_future(w.wait())
        await asyncio.sleep(0)
        first = None
        for op in i["seq"]:
            if op == "set":
                v = object()
                over = w.future.done() if hasattr(w, "future") else t.done()
                try:
                    w.set_result(v)
                except Exception as e:
                    return "a completion raised %s after %r" % (describe(e), i["seq"])
                if first is None and not over:
                    first = v
            elif op == "cancel":
                t.cancel()
            elif op == "expire":
                await asyncio.sleep(2)
            await asyncio.sleep(0)
            await asyncio.sleep(0)
        await asyncio.sleep(0.01)
        if first is not None and t.done() and not t.cancelled() and not t.exception() and t.result() is not first:
            return "the wait was completed twice"
        return None
    return run(go)


def cases(rng):
    import itertools
    for n in (1, 2, 3):
        for s in itertools.product(["set", "cancel", "expire"], repeat=n):
            yield {"seq": list(s)}
    todo = [("ZDO", "startupFromApp"), ("APP_CNF", "bdbStartCommissioning"), ("SYS", "ping"), ("SYS", "resetReq"), ("SAPI", "systemReset"), ("ZDO", "nodeDescReq"), ("AF", "dataRequest")]
    for ss, cmd in todo:
        c = find(ss, cmd)
        k = kind_of(ss, cmd)
        rsp = rvals(rng, [tuple(p) for p in (layout(c, 3) if k == "SREQ" else layout(find("SYS", "resetInd"), 2))], maxn=2)
        if "status" in rsp:
            rsp["status"] = 0
        yield {"ss": ss, "cmd": cmd, "vals": rvals(rng, [tuple(p) for p in layout(c, 1)], maxn=3), "rsp": rsp}
    for tmo in (None, 6000, 30000, 1000):
        yield {"ops": [["wait", "AREQ", "ZDO", "nodeDescRsp", {"srcaddr": 1}, tmo], ["sleep", (tmo or 10000) / 1000 - 0.05], ["sleep", 0.04], ["sleep", 0.5]]}
    for _ in range(3):
        yield {"ops": crowd(rng)}
    while True:
        if rng.random() < 0.01:
            yield {"ops": crowd(rng)}
        yield {"ops": rhistory(rng, rng.choice([3, 6, 15, 30]))}
        if rng.random() < 0.1:
            yield {"ops": rhistory(rng, rng.choice([3, 6])), "beside": [rhistory(rng, rng.choice([3, 6, 15]))]}
