"""C13 oracle: the frame on the wire for everything the application can ask for."""
from znp import *
import zigpy.types as zt

RULE = "unicast, group and broadcast messages over all profiles, clusters, endpoints, numbers, radii and data lengths; device management messages of every command"
ZDO = [c for c in MT["ZDO"] if c["type"] == "SREQ" and decodable([tuple(p) for p in c["request"]])]


def expected(i):
    """(subsystem, command id, payload) of the frame, from the statement."""
    d = i["data"]
    if i["profile"] == 0:
        c = by_id("ZDO", i["cluster"])
        ps = [tuple(p) for p in c["request"]]
        body = d[1:]
        if c["name"] == "mgmtPermitJoinReq":
            rest = encode(ps[2:], decode(ps[2:], body)[0])
            return "ZDO", c["ID"], bytes([15 if i["dst"] == 0xFFFC else 2]) + i["dst"].to_bytes(2, "little") + rest
        if ps and ps[0] == ("dstaddr", "UINT16"):
            return "ZDO", c["ID"], i["dst"].to_bytes(2, "little") + body
        return "ZDO", c["ID"], body
    if i["kind"] == "unicast":
        return "AF", 1, i["dst"].to_bytes(2, "little") + bytes([i["dst_ep"], i["src_ep"]]) + i["cluster"].to_bytes(2, "little") + bytes([i["seq"], None or 0, 0, len(d)]) + d
    mode = 1 if i["kind"] == "group" else 2
    ep = 255 if i["kind"] == "group" else i["dst_ep"]
    src = (i["src_ep"] or 1) if i["kind"] == "group" else i["src_ep"]
    rad = (i["radius"] or 30) if i["kind"] == "group" else i["radius"]
    return "AF", 2, (bytes([mode]) + i["dst"].to_bytes(8, "little") + bytes([ep, 0, 0, src]) + i["cluster"].to_bytes(2, "little") +
                     bytes([i["seq"], 0, rad]) + len(d).to_bytes(2, "little") + d)


def asked(app, i):
    if i["kind"] == "unicast":
        dev = type("D", (), {"nwk": zt.NWK(i["dst"]), "ieee": zt.EUI64(range(8))})()
        kw = {} if i["reply"] is None else {"expect_reply": i["reply"]}
        return app.request(dev, i["profile"], i["cluster"], i["src_ep"], i["dst_ep"], i["seq"], i["data"], **kw)
    if i["kind"] == "group":
        kw = {"hops": i["radius"]} if i["radius"] is not None else {}
        return app.mrequest(zt.Group(i["dst"]), i["profile"], i["cluster"], i["src_ep"], i["seq"], i["data"], **kw)
    return app.broadcast(i["profile"], i["cluster"], i["src_ep"], i["dst_ep"], 0, i["radius"], i["seq"], i["data"], zt.BroadcastAddress(i["dst"]))


def check(i):
    """One message, or several at the same time, and those of another application."""
    return run(lambda loop: together(loop, *[story(k) for k in [i] + i.get("beside", [])]))


def story(i):
    msgs = i["several"] if "several" in i else i["row"] if "row" in i else [i]

    async def go(loop):
        z = ZStack(loop, product=i.get("product", 1))
        app = await started(z)
        z.hook = lambda r: [z.fixed(r)]
        n = len(z.log)
        if "row" in i:
            res = []
            for m in msgs:
                res += await asyncio.gather(asked(app, m), return_exceptions=True)
                await asyncio.sleep(i["gap"])
        else:
            res = await asyncio.gather(*[asked(app, m) for m in msgs], return_exceptions=True)
        for x in res:
            if isinstance(x, BaseException):
                return "sending failed: %s" % describe(x)
            if x[0] != 0:
                return "sending gave status %r" % (x,)
        got = z.log[n:]
        if len(got) != len(msgs):
            return "%d frames sent" % len(got)
        sent, want = [], []
        for g in got:
            gd = bytearray(g.data)
            if g.ct != "SREQ":
                return "%s %s.%s sent" % (g.ct, g.ss, g.name)
            if g.ss == "AF" and g.name == "dataRequest" and len(gd) > 8:
                gd[7] = gd[8] = 0            # options and radius of a unicast are not the caller's
            if g.ss == "AF" and g.name == "dataRequestExt" and len(gd) > 16:
                gd[10] = gd[11] = gd[16] = 0  # destination network, options
            sent.append((g.ss, g.name, bytes(gd).hex()))
        for m in msgs:
            ss, cid, data = expected(m)
            want.append((ss, by_id(ss, cid)["name"], data.hex()))
        if sent != want if "row" in i else sorted(sent) != sorted(want):
            return "sent %r, expected %r" % ([x for x in sent if x not in want] or sent, [x for x in want if x not in sent] or want)
    return go


def distinct(msgs):
    """Each management command once: their answers cannot be told apart."""
    seen, r = set(), []
    for m in msgs:
        k = m["cluster"] if m["profile"] == 0 else None
        if k is None or k not in seen:
            r.append(m)
        seen.add(k)
    return r


def zdo_case(rng, c, kind):
    ps = [tuple(p) for p in c["request"]]
    own = ps[2:] if c["name"] == "mgmtPermitJoinReq" else ps[1:] if ps and ps[0] == ("dstaddr", "UINT16") else ps
    seq = rint(rng, 8)
    return {"kind": kind, "profile": 0, "cluster": c["ID"], "src_ep": 0, "dst_ep": 0, "seq": seq, "data": bytes([seq]) + encode(own, rvals(rng, own, maxn=5)),
            "dst": rint(rng, 16) if kind == "unicast" else rng.choice([0xFFFC, 0xFFFC, 0xFFFD, 0xFFFF]), "radius": 0, "reply": rng.choice([None, True, False])}


def case(rng):
    kind = rng.choice(["unicast", "group", "broadcast"])
    n = rng.choice([0, 1, 2, 3, 50, rng.randrange(230)])
    prof = rng.choice([260, 260, 1, 2, 256, 0x104, 0xA1E0, 0xC05E, 0xFFFF, rng.randrange(1, 65536)])
    r = {"kind": kind, "profile": prof, "cluster": rng.choice([0, 1, 2, 6, 0x36, 0x22, rint(rng, 16)]), "src_ep": rng.choice([0, 1, 242, 255, rint(rng, 8)]),
         "dst_ep": rint(rng, 8), "seq": rint(rng, 8), "data": rbytes(rng, n), "dst": rint(rng, 16) if kind != "broadcast" else rng.choice([0xFFFC, 0xFFFD, 0xFFFF]),
         "radius": rint(rng, 8), "reply": rng.choice([None, True, False])}
    if kind == "group":
        r["src_ep"] = rng.choice([None, r["src_ep"] or 1])
        r["radius"] = rng.choice([None, 0, r["radius"]])
    return r


def row(rng, m, n=None):
    """Messages sent one after another, each differing from an earlier one in few of its parts."""
    out = [m]
    for _ in range(n or rng.choice([1, 2, 4])):
        a = dict(rng.choice(out))
        if a["profile"] == 0:
            c = by_id("ZDO", a["cluster"])
            b = zdo_case(rng, rng.choice([x for x in ZDO if x["ID"] == a["cluster"]]), a["kind"])
        else:
            b = case(rng)
            while b["kind"] != a["kind"]:
                b = case(rng)
            if rng.random() < 0.5 and a["data"]:
                d = bytearray(a["data"])
                d[rng.randrange(len(d))] ^= 1 << rng.randrange(8)
                b["data"] = bytes(d)
        fs = ["dst", "seq", "data", "reply"] + (["profile", "cluster", "src_ep", "dst_ep", "radius"] if a["profile"] else [])
        for f in rng.sample(fs, rng.choice([0, 1, 1, 1, 2])):
            a[f] = b[f]
        if a["profile"] == 0:
            a["data"] = bytes([a["seq"]]) + a["data"][1:]
        out.append(a)
    return {"row": out, "product": rng.choice([1, 2]), "gap": rng.choice([0, 0, 1, 12])}


def cases(rng):
    for _ in range(30):
        yield case(rng)
    for c in ZDO:
        for kind in ("unicast", "broadcast"):
            yield zdo_case(rng, c, kind)
    def one():
        return case(rng) if rng.random() < 0.6 else zdo_case(rng, rng.choice(ZDO), rng.choice(["unicast", "broadcast"]))
    for n in (40, 300):
        yield dict(row(rng, case(rng), n), gap=0)
        yield dict(row(rng, zdo_case(rng, rng.choice(ZDO), "unicast"), 30), gap=12)
    while True:
        yield one()
        if rng.random() < 0.005:
            yield row(rng, one(), 60)
        if rng.random() < 0.4:
            yield row(rng, one())
        if rng.random() < 0.1:
            yield dict(row(rng, one()), beside=[row(rng, one())])
        if rng.random() < 0.5:
            yield {"several": distinct([one() for _ in range(rng.choice([2, 3, 5, 20]))]), "product": rng.choice([1, 2])}
