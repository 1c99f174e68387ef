"""C26 oracle: the application after start-up on sticks of every kind."""
from boot import *
import zigpy.types as zt
import zigpy_cc.api as zapi

RULE = "start-ups on every firmware with random addresses (changing when the network is formed), with and without forming, and with a stick that ignores some command"


def formed(names):
    return any(n in (("AF", "register"), ("ZDO", "activeEpReq")) or n[1].startswith("osalNv") or n[0] == "APP_CNF" for n in names)


def check(i):
    async def go(loop):
        z = ZStack(loop, product=i["product"], ieee=i["ieee"], nwk=i["before"], state=i["state"])
        if i["holds"]:
            z.nv = {k: v for k, v in configured(i["product"], mask=(1 << 15 | 1 << 20 | 1 << 25)).items()}
        if i["ignored"]:
            z.hook = lambda r: [] if r.name == i["ignored"] else [(0.01, frame(3, 0, 0, bytes([2, 0x21, 1])))] if i["ignored"] == "rpc" and r.name == "ping" else None
        old = z.normal

        def normal(r):
            if r.name == "activeEpReq" or r.name == "extFindGroup":
                z.nwk = i["nwk"]
            return old(r)
        z.normal = normal
        from zigpy_cc.zigbee.application import ControllerApplication
        app = ControllerApplication(config())
        try:
            if i["form"] is None:
                await app.startup()
            else:
                await app.startup(i["form"])
        except Exception as e:
            if i["ignored"]:
                return None
            return "start-up failed on a healthy stick: %r" % e
        if i["ignored"] in ("ping", "rpc", "version", "getDeviceInfo"):
            return "start-up succeeded although %s was not answered" % i["ignored"]
        if z.names()[:1] != [("SYS", "ping")]:
            return "the stick was not pinged first: %r" % z.names()[:3]
        if formed(z.names()) != bool(i["form"]):
            return "the network was %sformed" % ("" if not i["form"] else "not ")
        nwk = i["nwk"] if i["form"] else i["before"]
        if bytes(app.ieee.serialize()) != bytes(i["ieee"]) or app.nwk != nwk:
            return "the application thinks it is %s / 0x%04X" % (app.ieee, app.nwk)
        d = app.devices.get(zt.EUI64(i["ieee"]))
        if d is None or bytes(d.ieee.serialize()) != bytes(i["ieee"]) or d.nwk != nwk:
            return "the stick is listed as %r" % (d,)
        if app.get_device(nwk=nwk) is not d:
            return "the stick is not found by its short address"
        if i.get("again"):
            # another start-up of the same application: the stick has another short address since, or is another stick
            g = i["again"]
            await app.shutdown()
            z.nwk = g["nwk"]
            z.ieee = list(g["ieee"] or z.ieee)
            z.product = g.get("product", z.product)
            await app.startup()
            if bytes(app.ieee.serialize()) != bytes(z.ieee) or app.nwk != g["nwk"]:
                return "the second time, the application thinks it is %s / 0x%04X" % (app.ieee, app.nwk)
            d = app.devices.get(zt.EUI64(z.ieee))
            if d is None or bytes(d.ieee.serialize()) != bytes(z.ieee) or d.nwk != g["nwk"]:
                return "the second time, the stick is listed as %r" % (d,)
        # how many messages at once
        fl = {"now": 0, "max": 0}
        orig = zapi.API.request_raw

        async def raw(self, *a, **k):
            fl["now"] += 1
            fl["max"] = max(fl["max"], fl["now"])
            try:
                return await orig(self, *a, **k)
            finally:
                fl["now"] -= 1
        zapi.API.request_raw = raw
        try:
            dev = type("D", (), {"nwk": zt.NWK(9), "ieee": zt.EUI64(range(8))})()
            ts = [asyncio.ensure_future(app.request(dev, 260, 6, 1, 1, k, b"m%d" % k, expect_reply=False)) for k in range(20)]
            await asyncio.gather(*ts, return_exceptions=True)
        finally:
            zapi.API.request_raw = orig
        limit = 16 if z.product == 1 else 2
        if fl["max"] != limit:
            return "%d messages at once instead of %d" % (fl["max"], limit)
        return None
    return run(go)


def cases(rng):
    def w(**k):
        d = {"product": rng.choice([0, 1, 2]), "ieee": list(rbytes(rng, 8)), "before": rng.choice([0, 0xFFFE, 0xFFFF, rng.randrange(65536)]),
             "nwk": rng.choice([0, 0, 1, 0xFFFD, rng.randrange(65536)]), "form": rng.choice([True, True, False, None]), "ignored": None, "state": rng.choice([0, 1, 8, 9]),
             "holds": rng.random() < 0.5, "again": rng.choice([None, {"nwk": rng.randrange(0xFFF8), "ieee": rng.choice([None, list(rbytes(rng, 8))]), "product": rng.choice([0, 1, 2])}])}
        d.update(k)
        return d
    for p in (0, 1, 2):
        for f in (True, False, None):
            yield w(product=p, form=f)
            yield w(product=p, form=f, ignored=rng.choice(["ping", "rpc", "version", "getDeviceInfo"]))
    while True:
        yield w(ignored=rng.choice([None, None, None, "ping", "rpc", "version", "getDeviceInfo"]))


def from_model(goal, m):
    b = m.get("ieee", {"bytes": "0102030405060708"})
    i = {"product": m.get("product", 1), "ieee": list(mb(b, 8)), "before": 0xFFFE, "nwk": m.get("nwk", 0), "form": m.get("form", True), "ignored": None, "state": 0, "holds": False}
    f = str(m.get("fault", "")).split()
    out = [i, dict(i, holds=True, state=9), dict(i, again={"nwk": m.get("nwk before forming", 7) or 7, "ieee": None})]
    if "product later" in m:
        out.append(dict(i, again={"nwk": m.get("nwk later", 7), "ieee": None, "product": m["product later"]}))
    if f:
        out += [dict(i, ignored=f[0]), dict(i, ignored="rpc")]
    return out
