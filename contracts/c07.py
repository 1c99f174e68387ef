"""C07: the command table is unambiguous and matches the MT interface.

Every entry of the table (a finite object, checked entry by entry) against the frozen
MT interface of spec/mt.json; and for every command, frame type and payload: which
layout from_unpi_frame interprets the frame with."""
import json
from contracts.codec import *

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "mt.json")) as _f:
    MT = json.load(_f)


def entries(w):
    D = w.load("zigpy_cc.definition").ns["Definition"]
    out = {}
    for k, (ss, lst) in D.d.items():
        out[ss.name] = (ss, [x for s in segs_of(lst) for x in s.vals])
    return out


def table_goal(ssn):
    def fn(ctx, it):
        E = entries(it.w)
        if not ctx.prove("the subsystem has a command table", ssn in E):
            return
        ss, lst = E[ssn]
        ids = [get(c, "ID") for c in lst]
        names = [get(c, "name") for c in lst]
        ctx.prove("no two commands of %s share a number" % ssn, len(set(ids)) == len(ids), str(sorted(i for i in ids if ids.count(i) > 1)))
        ctx.prove("no two commands of %s share a name" % ssn, len(set(names)) == len(names), str(sorted(i for i in names if names.count(i) > 1)))
        by = {get(c, "name"): c for c in lst}
        for c in MT.get(ssn, []):
            n = c["name"]
            if not ctx.prove("%s.%s is in the table" % (ssn, n), n in by):
                continue
            d = by[n]
            ctx.prove("%s.%s has number %d" % (ssn, n, c["ID"]), get(d, "ID") == c["ID"])
            ctx.prove("%s.%s is of type %s" % (ssn, n, c["type"]), get(d, "type").name == c["type"])
            for kind in ("request", "response"):
                w = c.get(kind)
                g = params(d.d[kind][1]) if kind in d.d else None
                ctx.prove("%s.%s has the %s layout of the MT interface" % (ssn, n, kind), g == (None if w is None else [tuple(p) for p in w]), "%r vs %r" % (g, w))
    return fn


def types_goal(ctx, it):
    """The numbers behind types and subsystems."""
    ns = it.w.load("zigpy_cc.types").ns
    for cls, want in (("CommandType", {"POLL": 0, "SREQ": 1, "AREQ": 2, "SRSP": 3}),
                      ("Subsystem", {"RESERVED": 0, "SYS": 1, "MAC": 2, "NWK": 3, "AF": 4, "ZDO": 5, "SAPI": 6, "UTIL": 7, "DEBUG": 8, "APP": 9,
                                     "APP_CNF": 15, "GREENPOWER": 21})):
        for k, v in want.items():
            ctx.prove("%s.%s is %d" % (cls, k, v), k in ns[cls].members and ns[cls].members[k].value == v)


def interp_goal(ss, cmd):
    def fn(ctx, it):
        CT = it.w.load("zigpy_cc.types").ns["CommandType"].members
        Z = it.w.get("zigpy_cc.zpi_object:ZpiObject")
        ct = list(CT.values())[ctx.choose(len(CT))]
        kind = "response" if ct.name == "SRSP" else "request"
        # payloads long enough for any count (C05 decides on shorter ones)
        need = 0
        for _, t in params(get(cmd, kind)) if kind in cmd.d else ():
            need += WIDTH.get(t) or FIXED.get(t) or {"IEEEADDR": 8, "BUFFER": 255, "LIST_UINT8": 255, "LIST_UINT16": 510, "LIST_NEIGHBOR_LQI": 255 * LQI}.get(t, 0)
        N = ctx.int("len", need).e
        data = mk_bytes((ctx.array("D", N),))
        ctx.inputs.update({"subsystem": ss.name, "command": get(cmd, "name"), "ct": ct.value, "data": data})
        f = it.call(it.w.get("zigpy_cc.uart:UnpiFrame"), [ct, ss, get(cmd, "ID"), data], {})
        r = outcome(it, lambda: it.call(it.getattr(Z, "from_unpi_frame"), [f], {}))
        if kind not in cmd.d:
            ctx.prove("a frame of a kind the command does not have is refused", r.raised)
            return
        if r.raised:
            return              # C05 decides when
        o = r.value
        prove_eq(ctx, "command name", it.getattr(o, "command"), get(cmd, "name"))
        prove_eq(ctx, "command type", it.getattr(o, "command_type"), ct)
        prove_eq(ctx, "subsystem", it.getattr(o, "subsystem"), ss)
        pl = it.getattr(o, "payload")
        ctx.prove("interpreted with the %s layout" % kind, isinstance(pl, SDict) and list(pl.d) == [n for n, _ in params(get(cmd, kind))],
                  str(list(pl.d) if isinstance(pl, SDict) else pl))
    return fn


def unknown_goal(ssn):
    """A number no command of the subsystem has."""
    def fn(ctx, it):
        T = it.w.load("zigpy_cc.types").ns
        E = entries(it.w)
        CT = T["CommandType"].members
        Z = it.w.get("zigpy_cc.zpi_object:ZpiObject")
        ct = list(CT.values())[ctx.choose(len(CT))]
        cid = ctx.int("cid", 0, 255)
        for c in E[ssn][1] if ssn in E else ():
            ctx.assume(cid.e != int(get(c, "ID")))
        data = ctx.bytes("data")
        ctx.inputs.update({"cid": cid, "ct": ct.value, "data": data})
        ctx.require_reachable("a number no command has")
        f = it.call(it.w.get("zigpy_cc.uart:UnpiFrame"), [ct, T["Subsystem"].members[ssn], cid, data], {})
        r = outcome(it, lambda: it.call(it.getattr(Z, "from_unpi_frame"), [f], {}))
        ctx.prove("a frame with a number no command has is refused", r.raised)
    return fn


def GOALS(w):
    E = entries(w)
    out = [Goal("numbers of types and subsystems", types_goal)]
    out += [Goal("table of " + s, table_goal(s)) for s in sorted(set(MT) | set(E))]
    out += [Goal("unknown numbers of " + s, unknown_goal(s)) for s in w.load("zigpy_cc.types").ns["Subsystem"].members]
    for ssn, (ss, lst) in E.items():
        out += [Goal("%s.%s" % (ssn, get(c, "name")), interp_goal(ss, c)) for c in lst
                if any(k not in c.d or decodable(params(get(c, k))) for k in ("request", "response"))]
    return out
