"""C12 oracle: numbered requests and replies, against a queue model."""
from waits import *
from zigpy_cc.zpi_object import ZpiObject
import inc
import p16

RULE = "histories of device management requests with numbers 0..255 to few devices, replies, time passing and cancellations"
PAIRS = [("nodeDescReq", "nodeDescRsp"), ("activeEpReq", "activeEpRsp"), ("simpleDescReq", "simpleDescRsp"), ("bindReq", "bindRsp"),
         ("unbindReq", "unbindRsp"), ("mgmtLqiReq", "mgmtLqiRsp"), ("mgmtPermitJoinReq", "mgmtPermitJoinRsp"), ("powerDescReq", "powerDescRsp"),
         ("matchDescReq", "matchDescRsp"), ("mgmtLeaveReq", "mgmtLeaveRsp"), ("complexDescReq", "complexDescRsp"), ("userDescReq", "userDescRsp")]
PAIRS = [p for p in PAIRS if decodable([tuple(x) for x in layout(find("ZDO", p[1]), 2)])]


def check(i):
    if "devs" in i:     # through the application: the number is that of the message handed on
        return inc.drive(i, p16.judge)
    return run(lambda loop: together(loop, *[story(k) for k in [i] + i.get("beside", [])]))


def story(i):
    async def go(loop):
        api = zapi.API({})
        seen = []

        class App:
            def handle_znp(self, obj):
                seen.append((obj.command, obj.sequence))
        api.set_application(App())
        pend = []
        for k, op in enumerate(i["ops"]):
            if op[0] == "req":
                o = ZpiObject.from_command(Subsystem.ZDO, op[1], op[2])
                w = api.create_response_waiter(o, op[3])
                if w is None:
                    return "no wait for the reply to %s" % op[1]
                t = asyncio.ensure_future(w.wait())
                pend.append({"cmd": dict(PAIRS)[op[1]], "dst": op[2]["dstaddr"], "seq": op[3], "t": t, "end": loop.time() + 10, "n": k})
            elif op[0] == "rsp":
                n0 = len(seen)
                api.data_received(mk_frame("AREQ", "ZDO", op[1], op[2]))
                if len(seen) != n0 + 1:
                    return "reply %s was handed on %d times" % (op[1], len(seen) - n0)
                now = loop.time()
                m = [p for p in pend if p["cmd"] == op[1] and p["dst"] == op[2]["srcaddr"] and now < p["end"] + 0.05]
                # a request whose wait was given up may or may not still count until its time is up
                live = [p for p in m if not p.get("cancelled")]
                want = live[0]["seq"] if live else None
                got = seen[-1][1]
                if any(p.get("cancelled") for p in m) and not (live and m[0] is live[0]):
                    # only check that the number belongs to one of them
                    if got is not None and got not in [p["seq"] for p in m]:
                        return "reply %s got number %r" % (op[1], got)
                    if got is not None:
                        for p in m:
                            if p["seq"] == got:
                                pend.remove(p)
                                break
                elif got != want:
                    return "op %d: reply %s from 0x%04x got number %r, pending requests: %r" % (k, op[1], op[2]["srcaddr"], got, [p["seq"] for p in live])
                elif live:
                    p = live[0]
                    pend.remove(p)
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                    if not p["t"].done() or p["t"].cancelled() or p["t"].exception():
                        return "op %d: the wait of the request is not completed by its reply" % k
                    for q in pend:
                        if q["t"].done() and not q.get("cancelled") and loop.time() < q["end"]:
                            return "op %d: a reply to another request ended the wait of %s number %d" % (k, q["cmd"], q["seq"])
            elif op[0] == "sleep":
                await asyncio.sleep(op[1])
                pend = [p for p in pend if loop.time() <= p["end"] + 0.3]
                if any(abs(loop.time() - p["end"]) <= 0.3 for p in pend):
                    await asyncio.sleep(0.7)
                    pend = [p for p in pend if loop.time() <= p["end"] + 0.3]
            elif op[0] == "cancel" and pend:
                p = pend[op[1] % len(pend)]
                p["t"].cancel()
                p["cancelled"] = True
            for _ in range(3):
                await asyncio.sleep(0)
        return None
    return go


def req(rng, name, dst, seq):
    v = rvals(rng, [tuple(p) for p in layout(find("ZDO", name), 1)], maxn=3)
    v["dstaddr"] = dst
    return ["req", name, v, seq]


def rsp(rng, name, src):
    v = rvals(rng, [tuple(p) for p in layout(find("ZDO", name), 2)], maxn=3)
    v["srcaddr"] = src
    return ["rsp", name, v]


def cases(rng):
    for a, b in PAIRS:
        for s in (0, 1, 255):
            yield {"ops": [req(rng, a, 0x1234, s), rsp(rng, b, 0x1234), rsp(rng, b, 0x1234)]}
        yield {"ops": [req(rng, a, 1, 0), req(rng, a, 1, 0), req(rng, a, 2, 7), rsp(rng, b, 2), rsp(rng, b, 1), rsp(rng, b, 1), rsp(rng, b, 1)]}
    for c in inc.REQS:
        for s in (0, 1, 255):
            devs = inc.rdevs(rng, 2)
            a, rsp_ = devs[0]["nwk"], inc.REQS[c].replace("Req", "Rsp")
            q = [inc.zdo_req(rng, c, a, x) for x in (s, (s + 5) % 256)]
            yield {"product": 1, "devs": devs, "ops": q + [inc.zdo_rsp(rng, rsp_, a) for _ in range(3)]}
    for s in range(256):
        a, b = PAIRS[s % len(PAIRS)]
        yield {"ops": [req(rng, a, s * 257, s), rsp(rng, b, s * 257)]}
    for n in (40, 80, 260):     # many requests pending at once
        a, b = rng.choice(PAIRS)
        ops = [req(rng, a, k, k % 256) for k in range(n)]
        ops += [rsp(rng, b, k) for k in rng.choice([[0], [n - 1, 0, 1], range(n)])]
        yield {"ops": ops}
        ops = [req(rng, a, 5, k % 256) for k in range(n)]
        yield {"ops": ops + [rsp(rng, b, 5) for k in range(min(n, 60))]}
    for n in (100, 400):        # and many one after the other, every one answered
        a, b = rng.choice(PAIRS)
        yield {"ops": [op for k in range(n) for op in (req(rng, a, k % 7, k % 256), rsp(rng, b, k % 7))]}
        yield {"ops": [op for k in range(n) for op in (req(rng, a, 7, rng.choice([0, 255, 3])), ["sleep", 3] if k % 5 else rsp(rng, b, 7))] + [["sleep", 60], req(rng, a, 7, 1), rsp(rng, b, 7)]}
    through, last = p16.cases(rng), []
    while True:
        if rng.random() < 0.3:
            yield next(through)
            continue
        ops = []
        pool = rng.sample(PAIRS, rng.choice([1, 2]))
        devs = rng.sample([0, 1, 0x1234, 0xFFFF], 2)
        for _ in range(rng.choice([4, 10, 25])):
            a, b = rng.choice(pool)
            k = rng.random()
            if k < 0.45:
                ops.append(req(rng, a, rng.choice(devs), rng.choice([0, 0, 255, rng.randrange(256), rng.randrange(256)])))
            elif k < 0.85:
                ops.append(rsp(rng, b, rng.choice(devs)))
            elif k < 0.95:
                ops.append(["sleep", rng.choice([0.1, 3, 9, 12])])
            else:
                ops.append(["cancel", rng.randrange(5)])
        yield {"ops": ops}
        if rng.random() < 0.1:      # two connections at the same time
            yield {"ops": ops, "beside": [{"ops": last}]}
        last = ops


def from_model(goal, m):
    if "cluster" not in m or "application" not in goal:
        return None
    d = bytes.fromhex(m["data"]["bytes"])[1:]
    c = by_id("ZDO", m["cluster"])
    v, _ = decode([tuple(p) for p in c["request"]][1:], d)
    dev = [{"nwk": m["dst"], "ieee": [9] * 8}] if m["dst"] else []
    r = inc.zdo_rsp(random.Random(0), c["name"].replace("Req", "Rsp"), m["dst"])
    return {"product": 1, "devs": dev, "ops": [["req", m["cluster"], m["dst"], m["sequence"], v], r, r]}
