"""C14 oracle: results, number of sendings and places in the limit, over histories of concurrent senders."""
from znp import *
import p13
import zigpy.types as zt
import zigpy_cc.api as zapi

RULE = "up to 40 concurrent senders of unicast, group, broadcast and device management messages, each accepted, refused with any status, unanswered or cancelled"


CMDS = [c for c in p13.ZDO if tuple(c["request"][0] if c["request"] else ()) == ("dstaddr", "UINT16") or c["name"] == "mgmtPermitJoinReq"]


def start(app, m):
    d = m["data"]
    ep = m.get("eps", [1, 1])
    prof, cl = m.get("what", [260, 6])
    if m["kind"] == "unicast":
        dev = type("D", (), {"nwk": zt.NWK(m["dst"]), "ieee": zt.EUI64(range(8))})()
        kw = {"use_ieee": True} if m.get("ieee") else {}
        return app.request(dev, prof, cl, ep[0], ep[1], m["seq"], d, expect_reply=m["reply"], **kw)
    if m["kind"] == "zdo":
        dev = type("D", (), {"nwk": zt.NWK(m["dst"]), "ieee": zt.EUI64(range(8))})()
        body = m["body"] if "body" in m else bytes([m["seq"]]) + m["dst"].to_bytes(2, "little")
        return app.request(dev, 0, m.get("cluster", 2), 0, 0, m["seq"], body, expect_reply=m["reply"])
    rad = m.get("radius", 3)
    if m["kind"] == "group":
        return app.mrequest(zt.Group(m.get("to", m["dst"])), prof, cl, ep[0] or None, m["seq"], d, hops=rad)
    to = m.get("to", 0xFFFD)
    return app.broadcast(prof, cl, ep[0], ep[1], 0, rad, m["seq"], d, *([] if to is None else [zt.BroadcastAddress(to)]))


def check(i):
    async def go(loop):
        z = ZStack(loop, product=i["product"])
        app = await started(z)
        limit = 16 if i["product"] == 1 else 2
        fl = {"now": 0, "max": 0}
        orig = zapi.API.request_raw

        async def raw(self, *a, **k):
            fl["now"] += 1
            fl["max"] = max(fl["max"], fl["now"])
            try:
                return await orig(self, *a, **k)
            finally:
                fl["now"] -= 1
        zapi.API.request_raw = raw
        try:
            by = {}
            for m in i["msgs"]:
                by[m["tag"]] = m
                m["n"] = 0

            def tag(r):
                if r.ss == "AF":
                    return bytes(r.vals["data"])
                return b"zdo%d" % r.vals["dstaddr"]

            def fault(r, n):
                m = by.get(tag(r).hex())
                if m is None:
                    return None
                m["n"] += 1
                return {"ok": 0, "refuse": m["status"], "silent": "silent", "write": OSError("write failed"), "cancel": 0 if m["answer"] else "silent"}[m["how"]]
            z.fault = fault
            z.delay = i["delay"]
            tasks = []
            for m in i["msgs"]:
                t = asyncio.ensure_future(start(app, m))
                tasks.append(t)
                if m["how"] == "cancel":
                    loop.call_later(m["after"], t.cancel)
                if m["gap"]:
                    await asyncio.sleep(m["gap"])
            if i.get("close") is not None:
                # the port is closed meanwhile: whatever becomes of the messages, none waits for ever for its place
                await asyncio.sleep(i["close"])
                app._api.close()
                done, late = await asyncio.wait(tasks, timeout=600)
                for t in late:
                    t.cancel()
                await asyncio.gather(*tasks, return_exceptions=True)
                if late:
                    return "%d messages are still waiting 10 minutes after the port was closed" % len(late)
                if any(m["n"] > 1 for m in i["msgs"]):
                    return "a message was sent more than once"
                return None
            res = await asyncio.gather(*tasks, return_exceptions=True)
            if fl["max"] > limit:
                return "%d messages at once, the stick's limit is %d" % (fl["max"], limit)
            for m, r in zip(i["msgs"], res):
                what = "%s message (%s)" % (m["kind"], m["how"])
                if m["n"] > 1 or (m["n"] != 1 and m["how"] != "cancel"):
                    return "%s was sent %d times" % (what, m["n"])
                if m["how"] == "ok":
                    if not (isinstance(r, tuple) and r[0] == 0):
                        return "%s gave %r" % (what, r)
                elif m["how"] == "refuse":
                    if not (isinstance(r, tuple) and r[0] == m["status"] and isinstance(r[1], str)):
                        return "%s with status %d gave %r" % (what, m["status"], r)
                elif m["how"] in ("silent", "write"):
                    if not isinstance(r, BaseException):
                        return "%s gave %r although the stick never answered" % (what, r)
                elif isinstance(r, tuple) and (r[0] != 0 or m["n"] != 1 or not m["answer"]):
                    return "%s gave %r" % (what, r)
            # every place is free again
            fl["max"] = 0
            z.fault = None
            more = [asyncio.ensure_future(start(app, {"kind": "unicast", "dst": k, "seq": k, "reply": False, "data": b"after%d" % k})) for k in range(limit)]
            await settle(20)
            if fl["max"] != limit:
                return "only %d of %d places are free afterwards" % (fl["max"], limit)
            for r in await asyncio.gather(*more, return_exceptions=True):
                if not (isinstance(r, tuple) and r[0] == 0):
                    return "a later message gave %r" % (r,)
            return None
        finally:
            zapi.API.request_raw = orig
    return run(go)


def cases(rng):
    n = 0
    while True:
        n += 1
        msgs = []
        nm = rng.choice([1, 1, 2, 3, 5, 20]) if n % 40 != 7 else 150
        delay = rng.choice([0.001, 0.05, 0.5])
        for k in range(nm):
            kind = rng.choice(["unicast", "zdo", "group", "broadcast"])
            how = rng.choice(["ok", "refuse", "refuse", "silent", "cancel", "ok"]) if n % 5 else rng.choice(["refuse", "cancel", "silent"])
            m = {"kind": kind, "how": how, "status": rng.choice([1, 2, 9, 0x10, 0xCD, 0xE1, 0xFF, rng.randrange(1, 256)]), "dst": 1000 + k, "seq": rng.randrange(256), "reply": rng.random() < 0.6,
                 "data": b"msg%d" % k, "after": rng.choice([0, 0.001, 0.05, 0.1, 0.21, 3]), "gap": rng.choice([0, 0, 0, 0.01, 0.3])}
            m["eps"] = rng.choice([[1, 1], [242, 242], [0, 0], [rng.randrange(256), rng.randrange(256)]])
            m["what"] = rng.choice([[260, 6], [0xA1E0, 0x21], [0xC05E, 0x1000], [rng.randrange(1, 65536), rng.randrange(65536)]])
            m["radius"] = rng.choice([0, 1, 3, 30, 255])
            m["ieee"] = rng.random() < 0.2
            if kind == "zdo":
                z = p13.zdo_case(rng, rng.choice(CMDS), "unicast")
                m.update(cluster=z["cluster"], body=bytes([m["seq"]]) + z["data"][1:])
            if kind == "broadcast":
                m["to"] = rng.choice([None, 0xFFFF, 0xFFFD, 0xFFFC, 0xFFFB])
            elif kind == "group":
                m["to"] = rng.choice([0, 1, 0xFFFF, rng.randrange(65536)])
            # an answer to a given-up message would be taken for the next message's, so only a lone message gets one
            m["answer"] = nm == 1 and delay == 0.001 and m["after"] >= 0.05
            m["tag"] = (b"zdo%d" % m["dst"] if kind == "zdo" else m["data"]).hex()
            msgs.append(m)
        x = {"product": rng.choice([0, 1, 2]), "msgs": msgs, "delay": delay}
        if n % 6 == 3 and nm < 100:
            x["close"] = rng.choice([0, 0.01, 0.2, 1, 7])
        elif n % 6 == 5:
            for m in msgs:
                if rng.random() < 0.3:
                    m["how"] = "write"
        yield x
