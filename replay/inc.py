"""What the application does with what the stick sends: a reference model and a driver."""
from znp import *
import zigpy.device
import zigpy.types as zt

REPLIES = {"nodeDescRsp": 0x8002, "simpleDescRsp": 0x8004, "activeEpRsp": 0x8005, "bindRsp": 0x8021, "mgmtLqiRsp": 0x8031, "mgmtPermitJoinRsp": 0x8036}
REQS = {0x0002: "nodeDescReq", 0x0004: "simpleDescReq", 0x0005: "activeEpReq", 0x0021: "bindReq", 0x0031: "mgmtLqiReq"}


def areqs():
    return [(s, c) for s, c in cmds() if c["type"] == "AREQ" and decodable([tuple(p) for p in c["request"] or []])]


def make(rng, s, c, **over):
    """A message of command c."""
    v = rvals(rng, [tuple(p) for p in layout(c, 2)], maxn=over.pop("maxn", None), total=200)
    v.update(over)
    return {"ct": over.get("ct", "AREQ"), "ss": s, "name": c["name"], "vals": v}


class HandlerFails(Exception):
    pass


class Model:
    """What must happen, by the statements of C15, C16, C17 and C27."""

    def __init__(self, devs, product):
        self.devs = {tuple(d["ieee"]): {"nwk": d["nwk"], "ieee": tuple(d["ieee"])} for d in devs}
        self.product, self.pend = product, []
        self.msgs, self.joins, self.leds, self.lqi = [], [], [], []
        self.now, self.unsure = 0, False

    def dev(self, nwk=None, ieee=None):
        if ieee is not None:
            return self.devs.get(tuple(ieee))
        return next((d for d in self.devs.values() if d["nwk"] == nwk), None)

    def request(self, name, dst, seq):
        self.pend.append((name.replace("Req", "Rsp"), dst, seq, self.now))

    def frame(self, f):
        if f["ct"] != "AREQ":
            return
        n, v = f["name"], f["vals"]
        data = encode([tuple(p) for p in layout(find(f["ss"], n), CT["AREQ"])], v)
        if f["ss"] == "AF" and n in ("incomingMsg", "incomingMsgExt"):
            if n == "incomingMsg":
                d = self.dev(nwk=v["srcaddr"])
            elif v["srcaddrmode"] == 3:
                d = self.dev(ieee=v["srcaddr"])
            else:
                d = self.dev(nwk=v["srcaddr"][0] | v["srcaddr"][1] << 8)
            if d:
                self.msgs.append((d["ieee"], v["clusterid"], v["srcendpoint"], v["dstendpoint"], bytes(v["data"])))
                self.lqi.append((d["ieee"], v["linkquality"]))
        if f["ss"] == "ZDO":
            if n == "endDeviceAnnceInd":
                self.joins.append((v["nwkaddr"], tuple(v["ieeeaddr"])))
                d = self.dev(ieee=v["ieeeaddr"])
                if d:
                    d["nwk"] = v["nwkaddr"]
                    self.msgs.append((d["ieee"], 0x13, 0, 0, b"\0" + data[2:]))
            if n == "permitJoinInd" and self.product != 1:
                self.leds.append(1 if v["duration"] else 0)
            if n == "mgmtPermitJoinRsp" and self.product != 1:
                self.leds.append(1)
            if n.endswith("Rsp"):
                # how long a number is kept is C11's and C12's matter
                self.pend = [p for p in self.pend if self.now - p[3] < 35]
                self.unsure = self.unsure or any(self.now - p[3] > 5 for p in self.pend)
                p = next((p for p in self.pend if p[0] == n and p[1] == v["srcaddr"]), None)
                if p:
                    self.pend.remove(p)
                    d = self.dev(nwk=v["srcaddr"])
                    if n in REPLIES and d:
                        self.msgs.append((d["ieee"], REPLIES[n], 0, 0, bytes([p[2]]) + data[2:]))


def drive(i, judge):
    """ops: ["msg", frame] (and what it is handed on to may fail: ["msg", frame, "fails"]) | ["burst", [frame, ...], delay] (one after the other without a pause, the stick answering
    commands after the delay, or not at all) | ["req", cluster, dst, seq, vals] | ["permit", t] | ["sleep", t] |
    ["permits", [t, ...], delay] (several at once) | ["start", how, form, k, [frame, ...]] (shut down and started again, or
    reconnected after the connection is lost; the messages come while the stick works on the k-th command of that)
    "beside": the same of another application at the same time"""
    return run(lambda loop: together(loop, *[story(k, judge) for k in [i] + i.get("beside", [])]))


def story(i, judge):
    async def go(loop):
        await asyncio.sleep(i.get("at", 0))
        z = ZStack(loop, product=i["product"])
        app = await started(z)
        got = {"msgs": [], "joins": [], "leds": [], "lqi": []}
        m = Model(i["devs"], i["product"])
        real = {}
        own = {"nwk": 0, "ieee": list(range(1, 9))}      # the coordinator knows itself
        m.devs[tuple(own["ieee"])] = {"nwk": 0, "ieee": tuple(own["ieee"])}
        for d in i["devs"] + [own]:
            ie = zt.EUI64(d["ieee"])
            if d is own:
                dev = app.devices[ie]
            else:
                dev = zigpy.device.Device(app, ie, d["nwk"])
                app.devices[ie] = dev
            real[tuple(d["ieee"])] = dev

            def radio(*a, _d=tuple(d["ieee"]), **k):
                got["lqi"].append((_d, int(a[0] if a else k["lqi"])))
            dev.radio_details = radio

        def message(*a, **k):
            b = dict(zip(["sender", "profile", "cluster", "src_ep", "dst_ep", "message"], a), **k)
            ie = [x for x, d in real.items() if d is b["sender"]]
            got["msgs"].append((ie[0] if ie else repr(b["sender"]), int(b["cluster"]), int(b["src_ep"]), int(b["dst_ep"]), bytes(b["message"])))
            if fails["next"]:
                fails["next"] = False
                raise HandlerFails("the device's handler fails")

        def join(*a, **k):
            b = dict(zip(["nwk", "ieee", "parent_nwk"], a), **k)
            ie = tuple(int(x) for x in b["ieee"])
            got["joins"].append((int(b["nwk"]), ie))
            if ie in real:
                real[ie].nwk = b["nwk"]
        app.handle_message, app.handle_join = message, join
        def adopt():
            """The coordinator the application knows now."""
            dev = app.devices[zt.EUI64(own["ieee"])]
            real[tuple(own["ieee"])] = dev

            def radio(*a, **k):
                got["lqi"].append((tuple(own["ieee"]), int(a[0] if a else k["lqi"])))
            dev.radio_details = radio

        async def start(op, m, got, n):
            _, how, form, at, frames = op
            calm, count = z.hook, [0]
            leds = len(m.leds)
            m.pend = []

            def hook(r):
                count[0] += 1
                if count[0] - 1 != at:
                    return None
                for f in frames:
                    m.frame(f)
                return [(0.002, mk(f["ct"], f["ss"], f["name"], f["vals"])) for f in frames] + list(z.normal(r))
            z.hook = hook
            try:
                if how == "again":
                    await app.shutdown()
                    await app.startup(form)
                else:
                    z.stick.opened[-1]["protocol"].connection_lost(OSError("gone"))
                    await asyncio.sleep(90)
                    form = True
                adopt()
            except Exception as e:
                return GIVE_UP      # another property's matter
            finally:
                z.hook = calm
            if z.state != z.coord_state and form:
                return GIVE_UP
            if form and i["product"] != 1:
                m.leds.append(0)
            await asyncio.sleep(8)
            got["leds"] += [r.vals["mode"] for r in z.log[n:] if (r.ct, r.ss, r.name) == ("SREQ", "UTIL", "ledControl")]
            # the order of those of this start-up is not specified
            got["leds"][leds:] = sorted(got["leds"][leds:])
            m.leds[leds:] = sorted(m.leds[leds:])

        z.hook = lambda r: [z.fixed(r)]
        tasks = []
        fails = {"next": False}     # the next message handed on makes its handler fail
        for k, op in enumerate(i["ops"]):
            n = len(z.log)
            m.now = loop.time()
            if op[0] == "start":
                e = await start(op, m, got, n)
                if e:
                    return e if e is not GIVE_UP else None
                e = judge(m, got, k, op)
                if e:
                    return "op %d (%s): %s" % (k, op[1], e)
                continue
            if op[0] == "permits":
                calm = z.hook
                z.hook = lambda r: [(op[2], z.fixed(r)[1])]
                rs = await asyncio.gather(*[app.permit_ncp(t) for t in op[1]], return_exceptions=True)
                z.hook = calm
                for t, r in zip(op[1], rs):
                    if isinstance(r, BaseException):
                        return "op %d: permitting joins for %r s, with others, raised %s" % (k, t, describe(r))
                new = [(r.ct, r.ss, r.name, r.data[:4]) for r in z.log[n:]]
                want = [("SREQ", "ZDO", "mgmtPermitJoinReq", bytes([15, 0xFC, 0xFF, t])) for t in op[1]]
                if sorted(map(repr, new)) != sorted(map(repr, want)):
                    return "op %d: permitting joins for %r s at once sent %r" % (k, op[1], [(x[2], x[3].hex()) for x in new])
                continue
            if op[0] == "burst":
                calm = z.hook
                if op[2] is None:
                    z.hook = lambda r: []
                elif op[2]:
                    z.hook = lambda r: [(op[2], z.fixed(r)[1])]
                try:
                    for f in op[1]:
                        m.frame(f)
                        z.stick.send(mk(f["ct"], f["ss"], f["name"], f["vals"]))
                except Exception as e:
                    return "op %d: %s %s.%s raised %s" % (k, f["ct"], f["ss"], f["name"], describe(e))
                await asyncio.sleep(len(op[1]) * 7)
                z.hook = calm
            if op[0] == "msg":
                f = op[1]
                m.frame(f)
                fails["next"] = len(op) > 2
                try:
                    z.stick.send(mk(f["ct"], f["ss"], f["name"], f["vals"]))
                except HandlerFails:
                    pass
                except Exception as e:
                    return "op %d: %s %s.%s raised %s" % (k, f["ct"], f["ss"], f["name"], describe(e))
                fails["next"] = False
            elif op[0] == "req":
                c = by_id("ZDO", op[1])
                ps = [tuple(p) for p in c["request"]]
                bad = op[5] if len(op) > 5 else 0       # the status the stick refuses the request with
                if not bad:
                    m.request(c["name"], op[2], op[3])
                z.fault = (lambda r, n: bad) if bad else None
                dev = type("D", (), {"nwk": zt.NWK(op[2]), "ieee": zt.EUI64(range(8))})()
                r = await app.request(dev, 0, op[1], 0, 0, op[3], bytes([op[3]]) + encode(ps[1:], op[4]), expect_reply=True)
                z.fault = None
                if r[0] != bad:
                    return "op %d: sending gave %r" % (k, r)
            elif op[0] == "permit":
                try:
                    await (app.permit_ncp() if op[1] is None else app.permit_ncp(op[1]))
                    err = None
                except Exception as e:
                    err = e
                t = 60 if op[1] is None else op[1]
                new = z.log[n:]
                if 0 <= t <= 254:
                    if err is not None:
                        return "op %d: permitting joins for %r s raised %s" % (k, t, describe(err))
                    if len(new) != 1 or (new[0].ct, new[0].ss, new[0].name) != ("SREQ", "ZDO", "mgmtPermitJoinReq"):
                        return "op %d: permitting joins for %r s sent %r" % (k, t, new)
                    if new[0].data[:4] != bytes([15, 0xFC, 0xFF, t]):
                        return "op %d: permitting joins for %r s sent %s" % (k, t, new[0].data.hex())
                elif err is None:
                    return "op %d: permitting joins for %r s is not refused" % (k, t)
                elif new:
                    return "op %d: permitting joins for %r s is refused, but %r was sent" % (k, t, new)
                continue
            elif op[0] == "sleep":
                await asyncio.sleep(op[1])
            if op[0] != "req":
                await asyncio.sleep(0.05)
                for r in z.log[n:]:
                    if (r.ct, r.ss, r.name) == ("SREQ", "UTIL", "ledControl"):
                        got["leds"].append(r.vals["mode"])
                    elif not i.get("permit"):
                        return "op %d (%s) sent %r" % (k, op[0] if op[0] != "msg" else op[1]["name"], r)
            if m.unsure:
                return None
            e = judge(m, got, k, op)
            if e:
                return "op %d (%s): %s" % (k, op[1]["ss"] + "." + op[1]["name"] if op[0] == "msg" else op[0], e)
        return None
    return go


def beside(rng, gen, p=0.15):
    """Some of the inputs, and two of them at the same time."""
    for i in gen:
        yield i
        if rng.random() < p:
            o = next(gen, None)
            if o and "devs" in i and "devs" in o:
                yield dict(i, beside=[dict(o, at=rng.choice([0, 0, 0.02, 3]))])


def marathon(rng, one, n=None):
    """A long history of one kind: many at once, and many one after the other, of few devices."""
    n = n or rng.choice([70, 150, 300])
    for product in rng.sample([0, 1, 2], 2):
        devs = rdevs(rng, 2)
        fs = [op[1] for op in (one(devs) for _ in range(n)) if op[0] == "msg"]
        yield {"product": product, "devs": devs, "ops": [["burst", fs, 0]] + [op for _ in range(n) for op in [one(devs)]]}


GIVE_UP = object()


def restart(rng, frames):
    return ["start", rng.choice(["again", "lost"]), rng.random() < 0.5, rng.choice([0, 1, 2, 2, 3, rng.randrange(40)]), [f[1] for f in frames]]


def restarts(rng, ops, p=0.12):
    """Some of the messages come while the application is being started again."""
    out = []
    for op in ops:
        if op[0] == "msg" and rng.random() < p and op[1]["ct"] == "AREQ" and op[1]["name"] in OWN:
            out.append(restart(rng, [op]))
            if rng.random() < 0.5:
                out.append(op)
        else:
            out.append(op)
    return out


# what no start-up waits for
OWN = ("incomingMsg", "incomingMsgExt", "endDeviceAnnceInd", "permitJoinInd", "mgmtPermitJoinRsp", "nodeDescRsp", "simpleDescRsp", "bindRsp", "mgmtLqiRsp")


def differs(what, got, want):
    if got == want:
        return None
    n = min(len(got), len(want))
    j = next((k for k in range(n) if got[k] != want[k]), n)
    return "%s: %d instead of %d" % (what, len(got), len(want)) if j == n else "%s %d is %r instead of %r" % (what, j, got[j], want[j])


def rdevs(rng, n=None):
    out = []
    for k in range(n if n is not None else rng.choice([1, 2, 4])):
        out.append({"nwk": rng.choice([0x1234, 0x3412, 1, 0x100, 0xFF, 0xFF00, 0xFFF7, rint(rng, 16)]), "ieee": list(rbytes(rng, 8))})
    seen, r = set(), []
    for d in out:
        if d["nwk"] and d["nwk"] not in seen and tuple(d["ieee"]) not in seen and d["ieee"] != list(range(1, 9)):
            seen |= {d["nwk"], tuple(d["ieee"])}
            r.append(d)
    return r or [{"nwk": 0x1234, "ieee": [9] * 8}]


def app_msg(rng, devs, ext=None):
    ext = rng.random() < 0.5 if ext is None else ext
    d = rng.choice(devs) if rng.random() < 0.75 else {"nwk": rint(rng, 16), "ieee": list(rbytes(rng, 8))}
    f = make(rng, "AF", find("AF", "incomingMsgExt" if ext else "incomingMsg"), maxn=rng.choice([0, 1, 5, 180]))
    v = f["vals"]
    if ext:
        v["srcaddrmode"] = rng.choice([3, 3, 2, 2, 1, 15, 0])
        v["srcaddr"] = list(d["ieee"]) if v["srcaddrmode"] == 3 else list(d["nwk"].to_bytes(2, "little") + rng.choice([bytes(6), rbytes(rng, 6)]))
    else:
        v["srcaddr"] = d["nwk"]
    v["clusterid"] = rng.choice([0, 6, 0x500, 0x13, 0x8002, rint(rng, 16)])
    return ["msg", f]


def zdo_rsp(rng, name, src):
    f = make(rng, "ZDO", find("ZDO", name), maxn=rng.choice([0, 1, 3, 40]), srcaddr=src)
    return ["msg", f]


def zdo_req(rng, cluster, dst, seq=None):
    ps = [tuple(p) for p in find("ZDO", REQS[cluster])["request"]]
    return ["req", cluster, dst, rng.choice([0, 1, 255, rng.randrange(256)]) if seq is None else seq, rvals(rng, ps[1:], maxn=5)]


def annce(rng, devs, k=None):
    k = rng.random() if k is None else k
    d = rng.choice(devs)
    if k < 0.03 or k == 2:
        nwk, ieee = 0, list(range(1, 9))                                    # the coordinator itself
    elif k < 0.5:
        nwk, ieee = d["nwk"], d["ieee"]
    elif k < 0.65:
        nwk, ieee = rng.choice([0x7777, 0x4242, 0xABC]), d["ieee"]          # came back with another short address
        if any(x["nwk"] == nwk for x in devs):
            nwk = d["nwk"]
    else:
        nwk, ieee = rng.choice([0x5555, 0, 0x8001]), list(rbytes(rng, 8))
        if any(x["nwk"] == nwk or x["ieee"] == ieee for x in devs):
            return annce(rng, devs, 0.1)
    return ["msg", make(rng, "ZDO", find("ZDO", "endDeviceAnnceInd"), nwkaddr=nwk, ieeeaddr=list(ieee))]


ANY = None


def noise(rng, devs):
    """Any message but those the application hands on."""
    global ANY
    if ANY is None:
        ANY = areqs()
    while True:
        s, c = rng.choice(ANY)
        if s == "AF" and c["name"].startswith("incomingMsg") or s == "ZDO" and (c["name"] == "endDeviceAnnceInd" or c["name"] == "permitJoinInd" or c["name"] == "mgmtPermitJoinRsp"):
            continue
        f = make(rng, s, c, maxn=3)
        if "srcaddr" in f["vals"] and isinstance(f["vals"]["srcaddr"], int):
            f["vals"]["srcaddr"] = rng.choice(devs)["nwk"]
        if "ieeeaddr" in f["vals"]:
            f["vals"]["ieeeaddr"] = list(rng.choice(devs)["ieee"])
        return ["msg", f]


def wrong_kind(rng, devs):
    """One of the application's messages, but not as an indication."""
    f = rng.choice([lambda: app_msg(rng, devs), lambda: annce(rng, devs), lambda: zdo_rsp(rng, rng.choice(list(REPLIES)), rng.choice(devs)["nwk"])])()
    m = f[1]
    c = find(m["ss"], m["name"])
    ct = rng.choice(["SREQ", "POLL", "SRSP"])
    if ct == "SRSP":
        m["vals"] = rvals(rng, [tuple(p) for p in layout(c, 3)], maxn=3)
    m["ct"] = ct
    return f


def again(rng, ops, p=0.2):
    """Some operations come again, at once or later."""
    out = []
    for op in ops:
        if op[0] == "msg" and op[1]["ct"] == "AREQ" and op[1]["ss"] == "AF" and op[1]["name"].startswith("incomingMsg") and rng.random() < 0.05:
            op = op + ["fails"]
        out.append(op)
        if rng.random() < p:
            out.append(rng.choice(out[-3:]))
        if rng.random() < 0.06:
            out.append(["sleep", rng.choice([0.3, 0.3, 40, 400, 4000, 90000])])
    if rng.random() < 0.2:
        out = bursts(rng, out)
    if rng.random() < 0.4:
        out = restarts(rng, out)
    return out


def bursts(rng, ops):
    """Messages in a row come without a pause between them."""
    out = []
    for op in ops:
        if op[0] == "msg" and out and out[-1][0] == "msg" and rng.random() < 0.5:
            out[-1] = ["burst", [out[-1][1], op[1]], rng.choice([0, 0, 0.5, 5, None])]
        elif op[0] == "msg" and out and out[-1][0] == "burst" and rng.random() < 0.6:
            out[-1] = ["burst", out[-1][1] + [op[1]], out[-1][2]]
        else:
            out.append(op)
    return out


def from_received(m, goal=""):
    """Inputs from the model of a goal whose messages were decoded from received bytes
    (keys starting with "1:" belong to a first message)."""
    ops, nwks, ieees = [], [], []
    for pre in ("1:", ""):
        if pre + "subsystem" not in m:
            continue
        if pre + "data" not in m:
            return None
        ss, name = m[pre + "subsystem"], m[pre + "command"]
        v, used = decode([tuple(p) for p in layout(find(ss, name), 2)], bytes.fromhex(m[pre + "data"]["bytes"]))
        nwk, ieee = None, None
        if name == "endDeviceAnnceInd":
            nwk, ieee = v["nwkaddr"], v["ieeeaddr"]
        elif name == "incomingMsgExt":
            if v["srcaddrmode"] == 3:
                ieee = v["srcaddr"]
            else:
                nwk = v["srcaddr"][0] | v["srcaddr"][1] << 8
        elif "srcaddr" in v:
            nwk = v["srcaddr"]
        nwks.append(nwk)
        ieees.append(ieee)
        req = name.replace("Rsp", "Req")
        if m.get(pre + "sequence") is not None and req in REQS.values():
            c = find("ZDO", req)["ID"]
            ops.append(zdo_req(random.Random(0), c, nwk, m[pre + "sequence"]))
        ops.append(["msg", {"ct": "AREQ", "ss": ss, "name": name, "vals": v}])
    devs, seen = [], set()
    for n, i in zip(nwks, ieees):
        d = {"nwk": n if n is not None else next(x for x in range(0x1234, 0x1300) if x not in nwks), "ieee": list(i) if i is not None else [9 + len(devs)] * 8}
        if d["nwk"] not in seen and tuple(d["ieee"]) not in seen and d["nwk"] != 0:
            devs.append(d)
            seen |= {d["nwk"], tuple(d["ieee"])}
    out = [{"product": p, "devs": ds, "ops": ops} for p in (0, 1) for ds in ([devs, [], devs[:1], devs[1:]] if devs else [[]])]
    how = next((h for h, w in (("again", "start: "), ("lost", "reconnect: ")) if w in goal), None)
    if how and ops and ops[-1][0] == "msg":
        for p in (0, 1):
            for ds in ([devs, []] if devs else [[]]):
                for k in list(range(6)) + [20, 33, 34, 35, 36, 37, 38]:
                    out.append({"product": p, "devs": ds, "ops": ops[:-1] + [["start", how, False, k, [ops[-1][1]]], ops[-1]]})
    return out
