"""Histories of concurrent requests on a real API with a simulated stick."""
from stick import *
from zigpy_cc.types import Subsystem
from zigpy_cc.zpi_object import ZpiObject

# synchronous requests with a status in their response / without / asynchronous
CMDS = [("ZDO", "nodeDescReq"), ("ZDO", "activeEpReq"), ("ZDO", "bindReq"), ("AF", "register"), ("AF", "dataRequest"), ("SYS", "osalNvWrite"),
        ("UTIL", "ledControl"), ("ZDO", "mgmtLqiReq"), ("SYS", "ping"), ("SYS", "version"), ("SYS", "getExtAddr"), ("ZDO", "startupFromApp"),
        ("APP_CNF", "bdbStartCommissioning"), ("SYS", "resetReq"), ("SAPI", "systemReset"), ("SAPI", "startRequest"), ("ZDO", "extRouteDisc"), ("UTIL", "syncReq"), ("ZDO", "autoFindDestination")]
CMDS = [c for c in CMDS if any(x["name"] == c[1] for x in MT.get(c[0], []))]
LIMIT = {"startupFromApp": 20, "bdbStartCommissioning": 20}


def limit(name, kind):
    return 30 if kind == "reset" else LIMIT.get(name, 6)


def kind_of(ss, name):
    c = find(ss, name)
    t = c["type"] if isinstance(c["type"], str) else CTN[c["type"]]
    if (ss, name) in (("SYS", "resetReq"), ("SAPI", "systemReset")):
        return "reset"
    return t


# all synchronous requests whose response can be read
MANY = [(s, c["name"]) for s, c in cmds() if c["type"] == "SREQ" and decodable([tuple(p) for p in layout(c, CT["SRSP"])]) and decodable([tuple(p) for p in layout(c, CT["SREQ"])])]


def crowd(rng, n):
    """Many requests at once."""
    out = []
    for ss, name in rng.sample(MANY, min(n, len(MANY))):
        r = rreq(rng, 0.0, (ss, name))
        if r["how"] not in ("ok", "sync", "err"):
            r = dict(r, how="ok" if r["rsp"].get("status", 0) in (r["expected"] or [0]) else "err")
        out.append(dict(r, delay=0.01, follow=None))
    return out


def series(rng, n, hows):
    """Many requests one after the other, most of which end alike."""
    ss, name = rng.choice(CMDS[:8])
    out, t = [], 0.0
    while len(out) < n:
        r = rreq(rng, t, (ss, name) if rng.random() < 0.7 else None)
        if r["how"] in hows or rng.random() < 0.1:
            out.append(r)
            t += 1000
    return out


def rreq(rng, at, which=None):
    ss, name = which or rng.choice(CMDS)
    c = find(ss, name)
    k = kind_of(ss, name)
    vals = rvals(rng, [tuple(p) for p in layout(c, CT["AREQ"] if k != "SREQ" else CT["SREQ"])], maxn=6)
    how = rng.choice(["ok", "ok", "sync", "err", "none", "cancel", "badenc", "writefail"])
    r = {"at": at, "ss": ss, "cmd": name, "vals": vals, "how": how, "delay": rng.choice([0.01, 0.5, 3])}
    rsp = [tuple(p) for p in layout(c, CT["SRSP"])]
    rv = rvals(rng, rsp, maxn=4) if k == "SREQ" else {}
    if "status" in rv:
        rv["status"] = 0
        r["expected"] = rng.choice([None, None, None, [0], [0, 1], [0, 9], [1], [2, 1, 0], [], [0xFF, 9]])
        ok = [0] if r["expected"] is None else r["expected"]
        if not ok and how not in ("none", "cancel", "badenc", "writefail"):
            how = r["how"] = "err"
        rv["status"] = rng.choice([s for s in (0, 1, 2, 9, 0x10, 0xFF, 0xC7) if (s in ok) == (how != "err")] or [7])
    else:
        r["expected"] = rng.choice([None, [0], [3]])
        if how == "err":
            r["how"] = "ok"
    r["rsp"] = rv
    r["follow"] = rng.choice([None, "live", "live", "expired", "cancelled", "done", "unknown"])
    r["cancel_after"] = rng.choice([0, 0.005, 0.3])
    return r


def rhist(rng, n):
    t, out = 0.0, []
    used = set()
    for _ in range(n):
        if out and rng.random() < 0.2:
            t += 1000       # the same commands again, long after
            used = set()
        r = rreq(rng, t)
        old = [(x["ss"], x["cmd"]) for x in out]
        for _ in range(200):
            if (r["ss"], r["cmd"]) not in used and (used or not old or (r["ss"], r["cmd"]) in old):
                break
            r = rreq(rng, t)
        used.add((r["ss"], r["cmd"]))
        out.append(r)
        t += rng.choice([0, 0, 0, 0.001, 0.2, 7])
    return out


def run_reqs(i, order, results):
    """order: check C09, results: check C10; "beside": those of another stick at the same time"""
    return run(lambda loop: together(loop, *[story(k, order, results) for k in [i["reqs"]] + i.get("beside", [])]))


def story(reqs, order, results):
    async def go(loop):
        bad = []
        byvals = {}
        cur = {"req": None}
        tasks = []

        def outstanding():
            r = cur["req"]
            return r is not None and not r["answered"] and not r["task"].done()

        def answer(rec):
            r = next((x for x in st if x["ss"] == rec.ss and x["cmd"] == rec.name and not x["written"] and x["bytes"] == rec.data and x["how"] != "badenc"
                      and not x["task"].done()), None)
            if r is None:
                bad.append("unexpected or repeated write of %r" % rec)
                return
            r["written"] = True
            if order and outstanding() and cur["req"] is not r:
                bad.append("%s.%s is written while %s.%s is still waiting for its response" % (r["ss"], r["cmd"], cur["req"]["ss"], cur["req"]["cmd"]))
            k = r["kind"]
            r["wt"] = loop.time()
            if k in ("SREQ", "reset"):
                cur["req"] = r
            if r["how"] == "writefail":
                raise OSError("write failed")
            if k == "AREQ":
                return
            if r["how"] in ("none", "cancel"):
                return
            f = mk("SRSP", r["ss"], r["cmd"], r["rsp"]) if k == "SREQ" else mk("AREQ", "SYS", "resetInd", rvals(random.Random(1), [tuple(p) for p in layout(find("SYS", "resetInd"), 2)]))

            def reply():
                r["answered"] = True
                stick.send(f)
            if r["how"] == "sync":
                reply()
            else:
                loop.call_later(r["delay"], reply)

        stick = Stick(loop)
        api = await open_api(stick)

        def written(rec, data, orig=stick.written):
            fs = parse(data)
            if fs and len(fs) == 1:
                ct, ss, cid, payload = fs[0]
                x = Rec()
                c = by_id(SSN.get(ss), cid) or {"name": None}
                x.t, x.ct, x.ss, x.name, x.data, x.raw, x.vals, x.n = loop.time(), ct, SSN.get(ss), c["name"], payload, data, None, 0
                answer(x)
        stick.written = written
        st = []
        t0 = loop.time()
        for q in reqs:
            r = dict(q)
            r.update(written=False, answered=False, wt=None)
            r["kind"] = kind_of(r["ss"], r["cmd"])
            c = find(r["ss"], r["cmd"])
            ps = [tuple(p) for p in layout(c, 1)]
            r["bytes"] = encode(ps, r["vals"])
            if r["how"] == "badenc" and not ps:
                r["how"] = "ok"
            if r["kind"] == "AREQ":
                r["how"] = {"badenc": "badenc", "writefail": "writefail"}.get(r["how"], "ok")
            st.append(r)

        async def one(r):
            await asyncio.sleep(r["at"])
            vals = dict(r["vals"])
            if r["how"] == "badenc":
                c = find(r["ss"], r["cmd"])
                n, ty = layout(c, 1)[0]
                if r["at"] % 2 or ty not in WIDTH:
                    del vals[n]
                else:
                    vals[n] = 1 << 70
            wid = None
            f = r["follow"]
            if f == "unknown":
                wid = 10 ** 6
            elif f is not None:
                from zigpy_cc.types import CommandType
                w = api.wait_for(CommandType.AREQ, Subsystem.ZDO, "concentratorIndCb", {"srcaddr": 70000 + len(tasks)}, timeout=1000000000 if f != "expired" else 1)
                wid = w.id
                r["w"] = w
                r["wtask"] = asyncio.ensure_future(w.wait())
                if f == "cancelled":
                    await asyncio.sleep(0)
                    r["wtask"].cancel()
                    await asyncio.sleep(0)
                elif f == "done":
                    w.set_result("earlier")
                    await asyncio.sleep(0)
                elif f == "expired":
                    await asyncio.sleep(1)
            r["t0"] = loop.time()
            a = [] if r["expected"] is None else [r["expected"]]
            return await api.request(Subsystem[r["ss"]], r["cmd"], vals, wid, *a)
        for r in st:
            r["task"] = asyncio.ensure_future(one(r))
            r["task"].add_done_callback(lambda t, r=r: r.update(over=loop.time()))
            tasks.append(r["task"])

        async def canceller(r):
            await asyncio.sleep(max(0, t0 + r["at"] - loop.time()))
            while r["wt"] is None and not r["task"].done():
                if r["cancel_after"] == 0 and loop.time() - t0 > r["at"] + 1.5:
                    break               # cancelled while still waiting for its turn
                await asyncio.sleep(0.01)
            await asyncio.sleep(r["cancel_after"])
            r["task"].cancel()
        cs = [asyncio.ensure_future(canceller(r)) for r in st if r["how"] == "cancel"]
        await asyncio.wait(tasks, timeout=600 + 1040 * len(tasks))
        if bad:
            return bad[0]
        for r in st:
            t = r["task"]
            what = "%s.%s (%s)" % (r["ss"], r["cmd"], r["how"])
            if not t.done():
                return what + " never ends"
            cancelled = t.cancelled()
            exc = None if cancelled else t.exception()
            if order:
                if r["how"] == "badenc" and r["written"]:
                    return what + ": written although it cannot be encoded"
                if r["how"] == "none" and r["kind"] in ("SREQ", "reset") and not isinstance(exc, asyncio.TimeoutError):
                    return what + ": without a response it ended with %r" % (exc if exc else t,)
                if r["kind"] == "AREQ" and r["how"] == "ok" and r["written"] and (exc or cancelled or r["over"] > r["wt"] + 0.1):
                    return what + ": an asynchronous request, written, ended %.2f s later with %r" % (r["over"] - r["wt"], exc)
                if r["how"] in ("ok", "sync", "err") and not r["written"]:
                    return what + ": never written (%r)" % exc
                if r["how"] == "sync" and r["kind"] in ("SREQ", "reset") and isinstance(exc, asyncio.TimeoutError):
                    return what + ": the response came right after the write and was missed"
            if results and r["kind"] == "SREQ" and r["how"] in ("ok", "sync", "err"):
                exp = [0] if r["expected"] is None else r["expected"]
                w = r.get("w")
                if "status" in r["rsp"] and r["rsp"]["status"] not in exp:
                    from zigpy_cc.exception import CommandError
                    if not isinstance(exc, CommandError):
                        return what + ": status %d is not in %r but the caller got %r" % (r["rsp"]["status"], exp, exc if exc else t.result())
                    if exc.status != r["rsp"]["status"]:
                        return what + ": the error carries status %r, not %d" % (exc.status, r["rsp"]["status"])
                    if r["follow"] == "live":
                        for _ in range(3):
                            await asyncio.sleep(0)
                        wt = r["wtask"]
                        if not wt.done() or wt.cancelled() or wt.exception():
                            return what + ": failed, but the wait for the follow-up reply was not released"
                        o = wt.result()
                        if plain(getattr(o, "payload", None)) != plain(r["rsp"]) or o.command != r["cmd"]:
                            return what + ": the follow-up wait was released with %r" % (o,)
                else:
                    if exc is not None:
                        return what + ": response %r, expected %r, raised %s" % (r["rsp"], exp, describe(exc))
                    o = t.result()
                    if o is None or plain(o.payload) != plain(r["rsp"]) or o.command != r["cmd"]:
                        return what + ": the caller got %r, the response was %r" % (o, r["rsp"])
                    if r["follow"] == "live" and r["wtask"].done():
                        return what + ": succeeded, but the follow-up wait ended: %r" % r["wtask"]
                if r["follow"] == "done" and r["wtask"].done() and not r["wtask"].cancelled() and r["wtask"].result() != "earlier":
                    return what + ": a completed follow-up wait changed its result"
        for c in cs:
            c.cancel()
        if order:
            n0 = len(stick.raw)
            got = []
            stick.written = lambda rec, data: (got.append(loop.time()), stick.send(mk("SRSP", "SYS", "ping", {"capabilities": 5})))
            t1 = loop.time()
            try:
                o = await asyncio.wait_for(api.request(Subsystem.SYS, "ping", {"capabilities": 1}), 5)
            except Exception as e:
                return "after all requests are over the next one fails: %s" % describe(e)
            if not got or got[0] > t1 + 0.5:
                return "after all requests are over the next one is not written at once"
        return None
    return go
