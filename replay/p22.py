"""C22 oracle: the application formed on an empty stick with a configuration."""
from boot import *

RULE = "applications with every subset of network parameters configured (extreme and random values) started on an empty stick"


def conf(c):
    import zigpy.config
    n = {}
    if c["pan"] is not None:
        n[zigpy.config.CONF_NWK_PAN_ID] = c["pan"] if not c["hex"] else "0x%04x" % c["pan"]
    if c["key"] is not None:
        n[zigpy.config.CONF_NWK_KEY] = list(c["key"])
    if c["ext"] is not None:
        n[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] = ":".join("%02x" % b for b in reversed(c["ext"]))
    if c["chans"] is not None:
        n[zigpy.config.CONF_NWK_CHANNELS] = c["chans"]
    return n


def mask(chans):
    import zigpy.config
    if chans is None:
        # the schema of the library may have a default of its own: that one counts as configured
        return int(zigpy.config.SCHEMA_NETWORK({}).get(zigpy.config.CONF_NWK_CHANNELS) or 1 << 11)
    return sum(1 << k for k in chans or [11])


def check(i):
    async def go(loop):
        for b in i.get("before", []):       # other applications, earlier in the same process
            await started(ZStack(loop, product=b["product"]), conf(b["conf"]), True)
            await asyncio.sleep(1)
        return await together(loop, *[story(k, i.get("prepared")) for k in [i] + i.get("beside", [])])
    return run(go)


def story(i, prepared=False):
    c = i["conf"]

    async def go(loop):
        z = ZStack(loop, product=i["product"])
        if prepared:        # every application is made before any is started
            from zigpy_cc.zigbee.application import ControllerApplication
            app = ControllerApplication(config(conf(c)))
            await asyncio.sleep(0)
            await app.startup(True)
        else:
            app = await started(z, conf(c), True)
        await asyncio.sleep(1)
        for n in range(i.get("again", 0)):      # the network is formed once more
            e = wrong(z, i, i.get("again") and not i.get("erase") and n)
            if e:
                return e
            del z.log[:]
            if i.get("erase"):
                z.nv.clear()
            await app.form_network()
            await asyncio.sleep(1)
        return wrong(z, i, i.get("again") and not i.get("erase"))
    return go


def wrong(z, i, there=False):
    # there: the network is there already, nothing needs to be done
    c = i["conf"]
    want = {"panid": (0x1A62 if c["pan"] is None else c["pan"]).to_bytes(2, "little"), "key": DEFAULT_KEY if c["key"] is None else c["key"],
            "extpan": b"\xdd" * 8 if c["ext"] is None else c["ext"], "channels": mask(c["chans"]).to_bytes(4, "little")}
    for k, v in want.items():
        if z.nv.get(NV[k]) != v:
            return "%s is %r, not %r" % (k, z.nv.get(NV[k]), v)
    pr = [x.vals["channel"] for x in z.log if x.name == "bdbSetChannel" and x.vals["isPrimary"] == 1]
    if i["product"] != 0 and not (there and not pr) and pr != [int.from_bytes(want["channels"], "little")]:
        return "primary channels %r" % (pr,)
    return None


def cases(rng):
    z8, f8, z16, f16 = b"\0" * 8, b"\xff" * 8, b"\0" * 16, b"\xff" * 16
    edge = [(0, z8, z16, [26]), (0xFFFF, f8, f16, list(range(11, 27))), (None,) * 4, (None, None, None, []), (0, None, None, None), (1, None, z16, [11, 26])]
    for p in (0, 1, 2):
        for pan, ext, key, ch in edge:
            yield {"product": p, "conf": {"pan": pan, "ext": ext, "key": key, "chans": ch, "hex": False}}
    def one():
        g = [rng.random() < 0.6 for _ in range(4)]
        return {"product": rng.choice([0, 1, 2]), "conf": {
            "pan": rng.choice([0, 1, 255, 256, 0xFFFE, 0xFFFF, rng.randrange(65536)]) if g[0] else None,
            "ext": rng.choice([z8, f8, rbytes(rng, 8), rbytes(rng, 8)]) if g[1] else None,
            "key": rng.choice([z16, f16, rbytes(rng, 16), rbytes(rng, 16)]) if g[2] else None,
            "chans": rng.choice([[], [11], [26], [k for k in range(11, 27) if rng.random() < 0.5]]) if g[3] else None, "hex": rng.random() < 0.3}}
    while True:
        i = one()
        if rng.random() < 0.4:
            i["before"] = [one() for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.3:
            i.update(again=rng.choice([1, 2]), erase=rng.random() < 0.5)
        if rng.random() < 0.2:
            i.update(beside=[one()], prepared=rng.random() < 0.5)
        yield i


def from_model(goal, m):
    g = m.get("given", [1, 1, 1, 1])
    ch = [k for k in range(11, 27) if m.get("channels", 2048) >> k & 1]
    c = {"pan": m["pan"] if g[0] else None, "ext": mb(m["ext"], 8) if g[1] else None, "key": mb(m["key"], 16) if g[2] else None, "chans": ch if g[3] else None, "hex": False}
    return [{"product": p, "conf": c} for p in ([m["version"]] if "version" in m else [0, 1, 2])]
