"""C07 oracle: the command table against the frozen MT interface, and the layout frames are read with."""
from lib import *
from zigpy_cc import uart
from zigpy_cc.types import Subsystem, CommandType
from zigpy_cc.zpi_object import ZpiObject
from zigpy_cc.definition import Definition

RULE = "every entry of the table; for every command and frame type, payloads laid out for the request and for the response; for every subsystem, every number no command has"


def table(ss):
    out = []
    for c in Definition[Subsystem[ss]]:
        d = {"name": c["name"], "ID": int(c["ID"]), "type": CommandType(c["type"]).name}
        for k in ("request", "response"):
            d[k] = [[p["name"], p["parameterType"].name] for p in c[k]] if k in c else None
        out.append(d)
    return out


def check(i):
    if i["what"] == "numbers":
        for n, v in SS.items():
            if int(Subsystem[n]) != v:
                return "Subsystem %s is %d, expected %d" % (n, Subsystem[n], v)
        for n, v in CT.items():
            if int(CommandType[n]) != v:
                return "CommandType %s is %d, expected %d" % (n, CommandType[n], v)
        return None
    ss = i["ss"]
    if i["what"] == "table":
        t = table(ss)
        for k in ("ID", "name"):
            vs = [c[k] for c in t]
            dup = sorted({v for v in vs if vs.count(v) > 1})
            if dup:
                return "%s: several commands with %s %r" % (ss, k, dup)
        by = {c["name"]: c for c in t}
        for c in MT[ss]:
            g = by.get(c["name"])
            w = {"name": c["name"], "ID": c["ID"], "type": c["type"], "request": c.get("request"), "response": c.get("response")}
            if g != w:
                return "%s.%s is %r, the MT interface has %r" % (ss, c["name"], g, w)
        return None
    c = by_id(ss, i["cid"]) if ss in MT else None
    ct = i["ct"]
    if c is None:
        if Subsystem[ss] in Definition and any(int(x["ID"]) == i["cid"] for x in Definition[Subsystem[ss]]):
            return None
        f = uart.UnpiFrame(CommandType(ct), Subsystem[ss], i["cid"], bytes(i["data"]))
        try:
            o = ZpiObject.from_unpi_frame(f)
        except Exception:
            return None
        return "%s frame of %s with number 0x%02x, which no command has, is interpreted as %r" % (CTN[ct], ss, i["cid"], o.command)
    kind = "response" if ct == 3 else "request"
    ps = c.get(kind)
    f = uart.UnpiFrame(CommandType(ct), Subsystem[ss], c["ID"], bytes(i["data"]))
    try:
        o = ZpiObject.from_unpi_frame(f)
    except Exception as e:
        if ps is None or not decodable(ps):
            return None
        try:
            v, _ = decode(ps, bytes(i["data"]))
        except Short:
            return None
        if any(t == "UINT8" and n.endswith("addrmode") and v[n] not in ADDRMODES for n, t in ps):
            return None
        return "%s %s frame %s refused: %s" % (CTN[ct], c["name"], bytes(i["data"]).hex(), describe(e))
    if ps is None:
        return "%s frame of %s, which has no %s layout, is interpreted as %r" % (CTN[ct], c["name"], kind, o.payload)
    if not decodable(ps):
        return None
    try:
        v, _ = decode(ps, bytes(i["data"]))
    except Short:
        return "too short %s frame of %s is interpreted as %r" % (CTN[ct], c["name"], o.payload)
    if (int(o.command_type), int(o.subsystem), o.command, plain(o.payload)) != (ct, SS[ss], c["name"], plain(v)):
        return "%s frame of %s.%s interpreted as %r" % (CTN[ct], ss, c["name"], (o.command_type, o.subsystem, o.command, o.payload))
    return None


def cases(rng):
    yield {"what": "numbers"}
    for ss in MT:
        yield {"what": "table", "ss": ss}
    while True:
        for ss in SS:
            for cid in range(256):
                if ss not in MT or by_id(ss, cid) is None:
                    yield {"what": "frame", "ss": ss, "cid": cid, "ct": rng.randrange(4), "data": rbytes(rng, rng.choice([0, 1, 4, 40]))}
        for s, c in cmds():
            for ct in range(4):
                for kind in ("request", "response"):
                    if c.get(kind) is not None and encodable(c[kind]):
                        yield {"what": "frame", "ss": s, "cid": c["ID"], "ct": ct, "data": encode(c[kind], rvals(rng, [tuple(p) for p in c[kind]], maxn=6))}


def from_model(goal, m):
    if goal.startswith("table of "):
        return {"what": "table", "ss": goal[9:]}
    if goal.startswith("numbers"):
        return {"what": "numbers"}
    if goal.startswith("unknown numbers of "):
        return {"what": "frame", "ss": goal[19:], "cid": m["cid"], "ct": m["ct"], "data": bytes.fromhex(m["data"]["bytes"])}
    s, name = goal.split(".", 1)
    return {"what": "frame", "ss": s, "cid": find(s, name)["ID"], "ct": m["ct"], "data": bytes.fromhex(m["data"]["bytes"])}
