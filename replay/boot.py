"""Start-up of the real code (start_znp on a real API) on a simulated stick, and what is true of it."""
from znp import *

GREEN, GROUP = 242, 0x0B84
ENDPOINTS = {1: 0x0104, 2: 0x0101, 3: 0x0106, 4: 0x0107, 5: 0x0108, 6: 0x0109, 8: 0x0104, 11: 0x0104, 0x6E: 0x0104, 12: 0xC05E, 13: 0x0104,
             47: 0x0104, 242: 0xA1E0}
LINK_KEY = bytes([255] * 8) + b"ZigBeeAlliance09" + bytes(8)
ITEMS = ("channels", "distribute", "key", "panid", "extpan")


def network(rng):
    return {"pan": rng.choice([0x1A62, 0, 1, 0x00FF, 0xFF00, 0xFFFF, 0x1234, rng.randrange(65536)]), "ext": rbytes(rng, 8), "key": rbytes(rng, 16),
            "mask": rng.choice([1 << 11, 1 << 26, 0x07FFF800, 1 << rng.randrange(11, 27), sum(1 << k for k in range(11, 27) if rng.random() < 0.4) or 2048]),
            "dist": rng.choice([False, False, False, False, False, 0, True, True, 1])}


def values(net, product):
    """What the stick holds when it is configured with this network: item -> bytes."""
    return {NV["channels"]: net["mask"].to_bytes(4, "little"), NV["distribute"]: bytes([int(net["dist"])]), NV["key"]: net["key"], NV["panid"]: net["pan"].to_bytes(2, "little"),
            NV["extpan"]: net["ext"], configured_id(product): b"\x55"}


def settings(net, product):
    v = dict(values(net, product))
    v.update({NV["logical"]: b"\0", NV["directcb"]: b"\1", NV["startup"]: b"\2"})
    if product == 0:
        v[NV["tclk"]] = LINK_KEY
    return v


def holds(nv, net, product):
    """The stick holds the configured network (C19)."""
    v = values(net, product)
    if any(nv.get(NV[n]) != v[NV[n]] for n in ("channels", "distribute", "key")) or nv.get(configured_id(product)) != b"\x55":
        return False
    return all(nv.get(NV[n]) == v[NV[n]] for n in ("panid", "extpan")) or (product != 0 and nv.get(NV["panid"]) == b"\xff\xff")


def options(net):
    import zigpy.config
    import zigpy.types as zt
    from zigpy_cc.types import NetworkOptions
    o = NetworkOptions(zigpy.config.SCHEMA_NETWORK({
        zigpy.config.CONF_NWK_PAN_ID: net["pan"], zigpy.config.CONF_NWK_KEY: list(net["key"]),
        zigpy.config.CONF_NWK_EXTENDED_PAN_ID: ":".join("%02x" % b for b in reversed(net["ext"])),
        zigpy.config.CONF_NWK_CHANNELS: [k for k in range(27) if net["mask"] >> k & 1]}))
    assert bytes(o.extendedPanID.serialize()) == net["ext"], "harness: extended PAN ID order"
    if net["dist"]:
        o.networkKeyDistribute = net["dist"]
    return o


class Run:
    pass


async def boot_on(loop, z, net, fault=None, cancel_at=None, api=None, keep=False, o=None):
    """One start with the options object o (one of its own); fault(rec, n) as in ZStack; cancel_at: the start-up is cancelled when command n arrives;
    api: the connection of the start before is used again; keep: and stays open."""
    from zigpy_cc.zigbee.start_znp import start_znp
    r = Run()
    r.api = api = api or await open_api(z.stick)
    r.start = len(z.log)
    r.before = dict(z.nv)
    z.n = 0
    z.fault = None
    o = o or options(net)
    t = asyncio.ensure_future(start_znp(api, z.product, o, GROUP, ""))
    r.marks = []        # contents of the marker after each command

    def f(rec, n):
        if cancel_at is not None and n == cancel_at[0]:
            loop.call_later(cancel_at[1], t.cancel)
        return fault(rec, n) if fault else None
    z.fault = f
    try:
        r.result, r.error = await t, None
    except asyncio.CancelledError:
        r.result, r.error = None, "cancelled"
    except Exception as e:
        r.result, r.error = None, "%s: %s" % (type(e).__name__, e)
    z.fault = None
    await asyncio.sleep(1)
    r.log = z.log[r.start:]
    r.nv = dict(z.nv)
    if not keep:
        api.close()
    return r


def history(i):
    """The starts of i: the first and those of "then" (with what has changed on the stick since, "same": on
    the same connection), and those of "beside" on another stick at the same time.
    -> [(input as it was at that start, its Run)]"""
    async def all_of(loop):
        rs = await asyncio.gather(*[asyncio.ensure_future(story(k)(loop)) for k in [i] + i.get("beside", [])])
        return [x for r in rs for x in r]
    return run(all_of)


def story(i):
    async def go(loop):
        z = make(loop, i)
        out, api, made = [], None, {}
        steps = [i] + i.get("then", [])
        for n, k in enumerate(steps):
            z.product = k.get("product", z.product)
            z.state = k.get("state", z.state)
            if "nv" in k:
                z.nv = {a: bytes(b) for a, b in k["nv"]}
            if "endpoints" in k:
                z.endpoints = list(k["endpoints"])
            if "group" in k:
                z.groups = {(GREEN, GROUP)} if k["group"] else set()
            z.coord_state = k.get("up", 9)
            at = {"product": z.product, "net": k.get("net", i["net"]), "nv": [[a, b] for a, b in z.nv.items()], "state": z.state, "endpoints": list(z.endpoints),
                  "group": (GREEN, GROUP) in z.groups, "fault": k.get("fault"), "up": k.get("up", 9)}
            f = k.get("fault") or {}
            keep = n + 1 < len(steps) and steps[n + 1].get("same", False)
            r = await boot_on(loop, z, at["net"], fault_of(k), (f["at"], f["after"]) if f.get("kind") == "cancel" else None, api if k.get("same") else None, keep,
                              made.setdefault(repr(sorted(at["net"].items())), options(at["net"])))
            api = r.api
            r.state, r.groups = z.state, set(z.groups)
            out.append((at, r))
        return out
    return go


def each(i, one):
    """The first thing wrong with any of the starts of i."""
    for n, (at, r) in enumerate(history(i)):
        e = one(at, r)
        if e:
            return ("start %d: " % (n + 1) if n else "") + e
    return None


def later(rng, w):
    """Starts to follow that of w."""
    out, net, p = [], w["net"], w["product"]
    for _ in range(rng.choice([1, 1, 2])):
        k = {"same": rng.random() < 0.5}
        x = rng.random()
        if x < 0.2 and not k["same"]:
            p = rng.choice([0, 1, 2])       # another stick
            net = rng.choice([net, network(rng)])
            k.update(product=p, net=net, nv=[[a, b] for a, b in memory(rng, net, p).items()], endpoints=[], group=False, state=rng.choice([0, 9]))
        elif x < 0.4:
            net = network(rng)              # another configuration
            if rng.random() < 0.5:
                net = dict(w["net"], **{y: net[y] for y in rng.sample(list(net), 1)})
        elif x < 0.6:
            k["nv"] = [[a, b] for a, b in memory(rng, net, p).items()]
        elif x < 0.75:                      # one item is not what it was configured to be any more
            nv = values(net, p)
            a = rng.choice(list(nv))
            if a == configured_id(p) and rng.random() < 0.5:
                del nv[a]
            else:
                nv[a] = rng.choice([b"\xff" * len(nv[a]), bytes(len(nv[a])), bytes([nv[a][0] ^ 1]) + nv[a][1:]])
            k["nv"] = [[a, b] for a, b in nv.items()]
        if rng.random() < 0.4:
            k["endpoints"] = [e for e in list(ENDPOINTS) + [7, 255] if rng.random() < rng.choice([0, 0.5, 0.9])]
        if rng.random() < 0.3:
            k["group"] = rng.random() < 0.5
        if rng.random() < 0.3:
            k["state"] = rng.choice([0, 1, 8, 9, 10])
        k["net"] = net
        out.append(k)
    return out


def maybe_later(rng, w, q=0.4):
    if rng.random() < q:
        w = dict(w, then=later(rng, w))
    if rng.random() < q / 3:
        o = world(rng, rng.choice([None, w["product"]]))
        w = dict(w, beside=[dict(o, then=later(rng, o)) if rng.random() < q else o])
    return w


def names(r):
    return [(x.ss, x.name) for x in r.log]


def initialised(r):
    return ("SYS", "resetReq") in names(r)


def writes(r):
    """(item, offset, declared length, value, record) of every memory write."""
    for x in r.log:
        if x.vals is None:
            continue
        if (x.ss, x.name) == ("SYS", "osalNvWrite"):
            yield x.vals["id"], x.vals["offset"], x.vals["len"], bytes(x.vals["value"]), x
        elif (x.ss, x.name) == ("SAPI", "writeConfiguration"):
            yield x.vals["configid"], 0, x.vals["len"], bytes(x.vals["value"]), x


def memory(rng, net, product):
    """Contents of the stick's memory: how it holds the network, or not."""
    k = rng.random()
    nv = {i: v for i, v in values(net, product).items()}
    if k < 0.2:
        return nv
    if k < 0.35:
        # never set
        nv[NV["panid"]] = b"\xff\xff"
        if rng.random() < 0.5:
            nv[NV["extpan"]] = b"\xff" * 8
        if rng.random() < 0.3:
            i = rng.choice(list(nv))
            nv[i] = rbytes(rng, len(nv[i]))
        return nv
    if k < 0.8:
        # one or two items differ
        for i in rng.sample(list(nv), rng.choice([1, 1, 1, 2])):
            v = bytearray(nv[i])
            w = rng.random()
            if w < 0.5:
                v[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
            elif w < 0.7:
                v.reverse()
                if bytes(v) == nv[i]:
                    v[-1] ^= 1
            elif w < 0.85:
                v = bytearray(rbytes(rng, len(v)))
            else:
                v = bytearray(b"\xff" * len(v))
            nv[i] = bytes(v)
        if rng.random() < 0.2:
            nv.pop(configured_id(product))
        return nv
    if k < 0.9:
        # a fresh stick
        nv = {i: b"\xff" * len(v) for i, v in nv.items()}
        nv.pop(configured_id(product))
        return nv
    return {i: rbytes(rng, len(v)) for i, v in nv.items()}


def world(rng, product=None):
    product = rng.choice([0, 1, 2]) if product is None else product
    net = network(rng)
    eps = [e for e in list(ENDPOINTS) + [7, 9, 77, 255] if rng.random() < rng.choice([0, 0.5, 0.9, 1])]
    rng.shuffle(eps)
    return {"product": product, "net": net, "nv": [[k, v] for k, v in memory(rng, net, product).items()], "state": rng.choice([9, 9, 0, 1, 8, 10, rng.randrange(256)]),
            "endpoints": eps, "group": rng.random() < 0.5, "delay": rng.choice([0.01, 0.3])}


def make(loop, i):
    return ZStack(loop, product=i["product"], nv={k: v for k, v in i["nv"]}, state=i["state"], endpoints=i["endpoints"],
                  groups=[(GREEN, GROUP)] if i["group"] else [], delay=i["delay"])


def fault_of(i):
    f = i.get("fault")
    if not f:
        return None

    def g(rec, n):
        if n != f["at"]:
            return None
        return f["status"] if f["kind"] == "refuse" else "silent" if f["kind"] == "silent" else None
    return g


def run_boot(i, *more):
    """Starts in sequence on one stick: the first with the fault of i, the others (dicts) with theirs."""
    async def go(loop):
        z = make(loop, i)
        out = []
        for k in (i,) + more:
            f = k.get("fault") or {}
            out.append(await boot_on(loop, z, k.get("net", i["net"]), fault_of(k), (f["at"], f["after"]) if f.get("kind") == "cancel" else None))
        return out
    return run(go)


def mb(x, n=None):
    """Bytes of a model value."""
    b = bytes.fromhex(x["bytes"]) if isinstance(x, dict) else bytes(x or b"")
    return (b + bytes(n))[:n] if n is not None else b


def from_start(m):
    """Inputs from a counterexample of the start-up goals."""
    import re
    net = {"pan": m.get("pan", 0x1234), "ext": mb(m["ext"], 8) if "ext" in m else bytes(range(8)), "key": mb(m["key"], 16) if "key" in m else bytes(range(16)),
           "mask": m.get("channels", 2048) & 0x07FFFFFF or 2048, "dist": m["distribute as a number"] if "distribute as a number" in m else bool(m.get("distribute", False))}
    out = []
    for p in ([m["version"]] if "version" in m else [0, 1, 2]):
        nv = {k: v for k, v in values(net, p).items()}
        for k, v in m.items():
            if k.startswith("item"):
                nv[int(k[4:], 16)] = mb(v)
        st = int(m.get("state", 9))
        eps = m.get("endpoints", list(ENDPOINTS))
        eps = list(mb(eps)) if isinstance(eps, dict) else list(eps)
        i = {"product": p, "net": net, "nv": [[k, v] for k, v in nv.items()], "state": st, "endpoints": eps, "group": bool(m.get("group", True)), "delay": 0.01}
        f = re.match(r"\('(\w+)', '(\w+)', (\d+), '(\w+)'\)", str(m.get("fault", "")))
        out.append(i)
        if f:
            out.append(dict(i, fault={"at": int(f.group(3)), "kind": {"refuse": "refuse", "cancel": "cancel"}.get(f.group(4), "silent"), "status": int(m.get("refusal", 1)), "after": 0.001}))
            out.append(dict(out[-1], nv=[[k, v if k == configured_id(p) else b"\xff" * len(v)] for k, v in nv.items()]))
        out.append(dict(i, nv=[]))
    return out
