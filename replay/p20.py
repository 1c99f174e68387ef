"""C20 oracle: initialisation on a healthy stick, and interrupted at every command."""
from boot import *

RULE = "initialisations of sticks with random networks, undisturbed or with one command refused, unanswered, carried out but unanswered, or the start-up cancelled there, followed by a second start"
INI = ("channels", "distribute", "key", "panid", "extpan", "logical", "directcb")


def good(r, net, p, upto=None):
    """What is missing in this part of an initialisation (all its commands acknowledged)."""
    want = settings(net, p)
    log = r.log[:upto]
    first = next((n for n, x in enumerate(log) if (x.ss, x.name) == ("SYS", "resetReq")), None)
    if first is None:
        return "no reset"
    st = [n for n, x in enumerate(log) if x.name == "osalNvWrite" and x.vals and x.vals["id"] == NV["startup"] and bytes(x.vals["value"]) == b"\2"]
    if not st:
        return "the stick was not told to clear its state"
    again = [n for n, x in enumerate(log) if x.name == "resetReq" and n > st[0]]
    if not again:
        return "no reset after the stick was told to clear its state"
    last = {}
    for n, x in enumerate(log):
        if x.name in ("osalNvWrite", "writeConfiguration") and x.vals:
            last[x.vals["id"] if x.name == "osalNvWrite" else x.vals["configid"]] = (n, bytes(x.vals["value"]))
    for k in INI + (("tclk",) if p == 0 else ()):
        n, v = last.get(NV[k], (-1, None))
        if n < again[-1]:
            return "%s was not written after the last reset" % k
        if v != want[NV[k]]:
            return "%s was written as %r, not %r" % (k, v, want[NV[k]])
    if p != 0:
        c = [(n, x.vals) for n, x in enumerate(log) if x.name == "bdbSetChannel" and n > again[-1]]
        pr = [v for n, v in c if v["isPrimary"] == 1]
        se = [v for n, v in c if v["isPrimary"] == 0]
        if not pr or pr[-1]["channel"] != net["mask"]:
            return "primary channels %r" % (pr,)
        if not se or se[-1]["channel"] != 0:
            return "secondary channels %r" % (se,)
        m = [(n, x.vals["mode"]) for n, x in enumerate(log) if x.name == "bdbStartCommissioning"]
        f = [n for n, v in m if v == 4]
        if not f or min(f) < max(n for n, v in c):
            return "the network was not formed (%r)" % (m,)
        if not any(v == 2 and n > f[-1] for n, v in m):
            return "steering not started after forming"
    return None


def born(r, p, nv0):
    """Positions at which the marker is created as valid."""
    return [] if nv0.get(configured_id(p)) is not None else \
        [n for n, x in enumerate(r.log) if x.name == "osalNvItemInit" and x.vals and x.vals["id"] == configured_id(p) and bytes(x.vals["initvalue"])[:1] == b"\x55"][:1]


def marks(r, p):
    """Positions at which the marker is written as valid."""
    return [n for n, x in enumerate(r.log) if x.name == "osalNvWrite" and x.vals and x.vals["id"] == configured_id(p) and bytes(x.vals["value"]) == b"\x55"]


def check(i):
    if "then" in i or "beside" in i:
        return each(i, lambda at, r: first(at, r)[0])
    second = {"delay": i["delay"]}
    rs = run_boot(i, second)
    e, r, mk_, nv0 = first(i, rs[0])
    return e or redone(i, r, rs[1], mk_, nv0)


def first(i, r):
    p, net = i["product"], i["net"]
    nv0 = {k: v for k, v in i["nv"]}
    need = not holds(nv0, net, p)
    f = i.get("fault")
    if not f and r.error:
        return ("start-up failed on a healthy stick: " + r.error), r, None, nv0
    mk_ = marks(r, p)
    for n in mk_ + born(r, p, nv0):
        bad = good(r, net, p, n)
        if bad:
            return ("the marker was written although %s" % bad), r, None, nv0
        late = [x for x in r.log[n:] if x.name == "bdbStartCommissioning" or (x.name == "osalNvWrite" and x.vals and x.vals["id"] in settings(net, p) and x.vals["id"] not in (configured_id(p), NV["channels"]))]
        if late:
            return ("%r after the marker" % late[0]), r, None, nv0
    if need and not f:
        if not mk_:
            return ("the marker was not written"), r, None, nv0
    if f and f["kind"] in ("refuse", "silent") and need and len(r.log) > f["at"]:
        x = r.log[f["at"]]
        fine = {"osalNvItemInit": (9,), "startupFromApp": (1,), "extFindGroup": (1,), "osalNvRead": (2,), "readConfiguration": (2,)}.get(x.name, ())
        if mk_ and f["at"] < mk_[0] and initialised(r) and f["at"] >= next(n for n, y in enumerate(r.log) if y.name == "resetReq") and not (f["kind"] == "refuse" and f["status"] in fine) \
                and not (f["kind"] == "refuse" and x.name == "resetReq"):
            return ("the marker was written although %r was %s" % (x, "refused" if f["kind"] == "refuse" else "not answered")), r, None, nv0
    if initialised(r):
        cleared = [x for x in r.log[:next(n for n, y in enumerate(r.log) if y.name == "resetReq")] if x.name == "osalNvWrite" and x.vals and x.vals["id"] == configured_id(p)]
        if nv0.get(configured_id(p)) == b"\x55" and not (cleared and bytes(cleared[-1].vals["value"]) != b"\x55"):
            return ("an earlier marker was still there when the stick was reset"), r, None, nv0
    return None, r, mk_, nv0


def redone(i, r, s, mk_, nv0):
    """The second start."""
    p, net = i["product"], i["net"]
    if s.error:
        return "the second start failed: " + s.error
    done = bool(mk_) and r.nv.get(configured_id(p)) == b"\x55"
    if initialised(r) and not done and not initialised(s):
        return "an interrupted initialisation was not redone"
    if initialised(s):
        bad = good(s, net, p, (marks(s, p) or [None])[-1])
        if bad:
            return "the second initialisation: " + bad
        if not marks(s, p):
            return "the second initialisation did not write the marker"
    want = values(net, p)
    skip = () if (initialised(r) or initialised(s)) else (NV["panid"], NV["extpan"])
    for k, v in want.items():
        if s.nv.get(k) != v and k not in skip:
            return "in the end item 0x%X holds %r, not %r" % (k, s.nv.get(k), v)
    return None


def fault(rng, at, kind=None):
    kind = kind or rng.choice(["refuse", "silent", "cancel", "cancel"])
    return {"at": at, "kind": kind, "status": rng.choice([1, 2, 9, 0x0A, 0x0C, 0xFF]), "after": rng.choice([0.0, 0.001, 0.02, 0.4])}


def cases(rng):
    for p in (0, 1, 2):
        w = world(rng, p)
        w["nv"] = [[k, v if k == configured_id(p) else b"\xff" * len(v)] for k, v in values(w["net"], p).items()]
        yield w
        for at in range(0, 32):
            yield dict(w, fault=fault(rng, at))
    while True:
        w = world(rng)
        if rng.random() < 0.8:
            w["fault"] = fault(rng, rng.randrange(34))
        else:
            w = maybe_later(rng, w, 0.7)
        yield w


def from_model(goal, m):
    return from_start(m)
