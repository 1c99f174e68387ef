"""Histories of waits and messages on a real API object, against a small model."""
from lib import *
from zigpy_cc import uart, api as zapi
from zigpy_cc.types import CommandType, Subsystem

MSGS = [("AREQ", "AF", "dataConfirm"), ("AREQ", "ZDO", "nodeDescRsp"), ("AREQ", "ZDO", "activeEpRsp"), ("AREQ", "ZDO", "bindRsp"),
        ("AREQ", "ZDO", "unbindRsp"), ("AREQ", "ZDO", "mgmtPermitJoinRsp"), ("AREQ", "ZDO", "simpleDescRsp"), ("SRSP", "SYS", "version"),
        ("SRSP", "SYS", "ping"), ("SRSP", "AF", "dataRequest"), ("SRSP", "AF", "dataRequestExt"), ("AREQ", "SYS", "resetInd"),
        ("SRSP", "ZDO", "nodeDescReq"), ("SRSP", "ZDO", "bindReq"), ("AREQ", "ZDO", "stateChangeInd"), ("SRSP", "UTIL", "getDeviceInfo"),
        # same number in another subsystem, same name with another type
        ("SRSP", "SAPI", "readConfiguration"), ("SRSP", "SYS", "osalNvRead"), ("AREQ", "ZDO", "mgmtLqiRsp")]


def mk_frame(ct, ss, name, vals):
    c = find(ss, name)
    ps = [tuple(p) for p in layout(c, CT[ct])]
    return uart.UnpiFrame(CommandType[ct], Subsystem[ss], c["ID"], encode(ps, vals))


def vals_of(rng, ct, ss, name):
    v = rvals(rng, [tuple(p) for p in layout(find(ss, name), CT[ct])], maxn=3)
    # few distinct values so that correlation hits and misses are both common
    for k in ("srcaddr", "nwkaddr"):
        if isinstance(v.get(k), int):
            v[k] = rng.choice([0, 1, 0x1234, 0xFFFF])
    if "transid" in v:
        v["transid"] = rng.choice([0, 1, 255])
    if isinstance(v.get("status"), int):
        v["status"] = rng.choice([0, 0, 1])
    return v


def matches(w, m):
    return w["ct"] == m[1] and w["ss"] == m[2] and w["cmd"] == m[3] and all(m[4].get(k) == v for k, v in (w["pay"] or {}).items())


class Late(Exception):
    pass


def run_history(ops, margin=0.3, beside=()):
    """beside: histories of other connections at the same time"""
    return run(lambda loop: together(loop, *[story(k, margin) for k in [ops] + list(beside)]))


def story(ops, margin):
    """ops -> error text or None.  ["wait", ct, ss, cmd, pay, timeout_ms, number or nothing] | ["msg", ct, ss, cmd, vals] | ["sleep", s]
    | ["cancel", k] (cancel the task awaiting wait k)"""
    async def go(loop):
        api = zapi.API({})
        ws = []
        ids = set()
        for op in ops:
            if op[0] == "wait":
                kw = {} if op[5] is None else {"timeout": op[5]}
                num = op[6] if len(op) > 6 else None
                if num is not None:
                    kw["sequence"] = num
                w = api.wait_for(CommandType[op[1]], Subsystem[op[2]], op[3], op[4], **kw)
                if w.id in ids:
                    return "two waits with the identity %r" % (w.id,)
                ids.add(w.id)
                t = asyncio.ensure_future(w.wait())
                ws.append({"ct": op[1], "ss": op[2], "cmd": op[3], "pay": op[4], "t": t, "w": w, "st": "pending", "num": num,
                           "end": loop.time() + (10000 if op[5] is None else op[5]) / 1000})
            elif op[0] == "msg":
                try:
                    api.data_received(mk_frame(op[1], op[2], op[3], op[4]))
                except Exception as e:
                    return "message %r raised %s" % (op[:4], describe(e))
                if any(w["num"] is not None and w["end"] <= loop.time() <= w["end"] + margin and matches(w, op) for w in ws):
                    return None     # shortly after its time it may or may not be there
                for w in ws:
                    if w["st"] == "pending" and loop.time() < w["end"] and matches(w, op):
                        w["st"] = "done"
                        w["m"] = op
                        if w["num"] is not None:
                            break       # the reply answers this request and no other (C12)
            elif op[0] == "cancel" and ws:
                w = ws[op[1] % len(ws)]
                if w["st"] == "pending" and w["num"] is None:
                    w["t"].cancel()
                    w["st"] = "cancelled"
            elif op[0] == "sleep":
                await asyncio.sleep(op[1])
                for w in ws:
                    if w["st"] == "pending" and loop.time() >= w["end"]:
                        w["st"] = "expired"
            for _ in range(4):
                await asyncio.sleep(0)
            for k, w in enumerate(ws):
                t = w["t"]
                if w["st"] == "pending":
                    if t.done() and loop.time() < w["end"] - 0.001:
                        return "after %r: wait %d (%s %s) is over although nothing matched it: %r" % (op[:4], k, w["cmd"], w["pay"], t)
                elif w["st"] == "done":
                    if not t.done():
                        return "after %r: wait %d (%s %s) is still pending although a message matched it" % (op[:4], k, w["cmd"], w["pay"])
                    if t.cancelled() or t.exception():
                        return "wait %d for %s ended with %r" % (k, w["cmd"], t)
                    o = t.result()
                    m = w["m"]
                    if (int(o.command_type), int(o.subsystem), o.command, plain(o.payload)) != (CT[m[1]], SS[m[2]], m[3], plain(m[4])):
                        return "wait %d got %r, the message was %r" % (k, (o.command_type, o.subsystem, o.command, o.payload), m)
                elif w["st"] == "expired":
                    if not t.done():
                        if loop.time() > w["end"] + margin:
                            return "wait %d for %s still pending %.2f s after its time" % (k, w["cmd"], loop.time() - w["end"])
                    elif t.cancelled() or not isinstance(t.exception(), asyncio.TimeoutError):
                        return "wait %d for %s, unanswered, ended with %r" % (k, w["cmd"], t)
            left = getattr(api, "_waiters", None)
            if left is not None:
                pend = {w["w"].id for w in ws if w["st"] == "pending"}
                soon = {w["w"].id for w in ws if w["st"] in ("expired", "cancelled") and loop.time() <= w["end"] + margin}
                have = set(left)
                if not pend <= have:
                    return "after %r: pending waits %r are no longer registered" % (op[:4], sorted(pend - have))
                if have - pend - soon:
                    return "after %r: waits %r are over but still registered" % (op[:4], sorted(have - pend - soon))
        return None
    return go


def rhistory(rng, n, timeouts=(None, 6000, 2000, 20000, 30000, 1000, 1)):
    ops = []
    pool = rng.sample(MSGS, rng.choice([1, 2, 3]))
    numbers = rng.random() < 0.3
    sent = []
    for _ in range(n):
        k = rng.random()
        ct, ss, cmd = rng.choice(pool)
        if k < 0.4:
            v = rng.choice(sent)[1] if sent and rng.random() < 0.3 else vals_of(rng, ct, ss, cmd)
            names = [x for x in ("srcaddr", "transid", "nwkaddr", "status", "endpoint") if x in v]
            pay = {x: v[x] for x in names if rng.random() < 0.5}
            c2, s2 = ct, ss
            if rng.random() < 0.15:
                c2 = rng.choice(list(CT))
            if rng.random() < 0.15:
                s2 = rng.choice(["ZDO", "AF", "SYS"])
            ops.append(["wait", c2, s2, cmd, rng.choice([pay, pay, {}, None]), rng.choice(timeouts)]
                       + ([rng.choice([0, 1, 255, rng.randrange(256)])] if numbers and "srcaddr" in v else []))
        elif k < 0.8:
            v = vals_of(rng, ct, ss, cmd)
            sent.append((cmd, v))
            ops.append(["msg", ct, ss, cmd, v])
        elif k < 0.93:
            ops.append(["sleep", rng.choice([0.01, 0.1, 0.5, 1, 1.9, 2.5, 5, 6.2, 10.2, 31])])
        else:
            ops.append(["cancel", rng.randrange(8)])
    return fix(ops)


def fix(ops):
    """Correlating fields must be parameters of the awaited command: drop other waits."""
    out = []
    for o in ops:
        if o[0] == "wait":
            c = next((x for x in MT.get(o[2], []) if x["name"] == o[3]), None)
            if c is not None:
                ps = dict(map(tuple, layout(c, CT[o[1]])))
                if o[4] and not set(o[4]) <= set(ps):
                    continue
        out.append(o)
    return out


def crowd(rng):
    """Many waits pending at once, the oldest of them completed first, last or not at all."""
    n = rng.choice([17, 65, 70, 129, 257, 300])
    ct, ss, cmd = rng.choice([m for m in MSGS if m[2] in ("nodeDescRsp", "activeEpRsp", "bindRsp", "mgmtPermitJoinRsp")])
    vs = []
    for k in range(n):
        v = vals_of(rng, ct, ss, cmd)
        v["srcaddr"] = k
        vs.append(v)
    ops = [["wait", ct, ss, cmd, {"srcaddr": k}, rng.choice([None, 30000])] for k in range(n)]
    order = rng.choice([[0], [n - 1, 0], [1, 0, n // 2], list(range(min(n, 20))), rng.sample(range(n), 5)])
    ops += [["msg", ct, ss, cmd, vs[k]] for k in order]
    if rng.random() < 0.5:
        ops += [["sleep", rng.choice([1, 9, 11])], ["msg", ct, ss, cmd, vs[rng.randrange(n)]], ["msg", ct, ss, cmd, vs[2]]]
    return ops
