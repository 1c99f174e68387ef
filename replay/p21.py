"""C21 oracle: the state of the stick after start-up, and the result."""
from boot import *

RULE = "start-ups in every device state, with random endpoints and group membership, faults in single commands, or a coordinator that never comes up; up to three starts in a row with changes in between"


def check(i):
    return each(i, one)


def one(i, r):
    s = r
    p = i["product"]
    f = i.get("fault")
    nv = {k: v for k, v in i["nv"]}
    ini = initialised(r)
    if r.error:
        if not f and i.get("up", 9) == 9:
            return "start-up failed on a healthy stick: " + r.error
        return None
    if f and len(r.log) > f["at"]:
        x = r.log[f["at"]]
        fine = {"osalNvItemInit": (9,), "startupFromApp": (1,), "extFindGroup": (1,)}.get(x.name, ())
        # (reading the memory may fail and count as not configured; a query for endpoints as long as the list comes)
        if f["kind"] == "refuse" and f["status"] not in fine and x.name not in ("osalNvRead", "readConfiguration", "activeEpReq", "resetReq"):
            return "start-up succeeded although %r was refused" % x
        if f["kind"] == "silent" and x.name not in ("osalNvRead", "readConfiguration"):
            return "start-up succeeded although %r was not answered" % x
        if f["kind"] == "refuse" and x.name == "extFindGroup":
            return None
    if s.state != 9:
        return "start-up succeeded but the stick is in state %d" % s.state
    told = [n for n, x in enumerate(r.log) if x.name == "startupFromApp"]
    if not ini and bool(told) != (i["state"] != 9):
        return "a stick in state %d was %stold to start" % (i["state"], "" if told else "not ")
    have = [] if ini else i["endpoints"]
    reg = [x.vals for x in r.log if (x.ss, x.name) == ("AF", "register")]
    nums = [v["endpoint"] for v in reg]
    want = [e for e in ENDPOINTS if e not in have]
    if sorted(nums) != sorted(want):
        return "registered %r, missing were %r" % (sorted(nums), sorted(want))
    for v in reg:
        if v["appprofid"] != ENDPOINTS[v["endpoint"]]:
            return "endpoint %d registered with profile 0x%X" % (v["endpoint"], v["appprofid"])
        if v["appnuminclusters"] != len(v["appinclusterlist"]) or v["appnumoutclusters"] != len(v["appoutclusterlist"]):
            return "endpoint %d registered with cluster counts that are not those of its lists" % v["endpoint"]
    grp = [(x.vals["endpoint"], x.vals["groupid"]) for x in r.log if (x.ss, x.name) == ("ZDO", "extAddGroup")]
    if grp != ([] if i["group"] and not ini else [(GREEN, GROUP)]):
        return "added to groups %r (member before: %r)" % (grp, i["group"] and not ini)
    if (GREEN, GROUP) not in s.groups:
        return "the Green Power endpoint is not in its group"
    if not f:
        m = nv.get(configured_id(p)) == b"\x55"
        want = "resumed" if not ini else "reset" if p != 0 or m else "restored"
        if r.result != want:
            return "the result is %r instead of %r" % (r.result, want)
    return None


def cases(rng):
    for p in (0, 1, 2):
        for st in (0, 1, 8, 9, 10):
            w = world(rng, p)
            w["nv"] = [[k, v] for k, v in values(w["net"], p).items()]
            yield dict(w, state=st)
        yield dict(w, state=0, up=8)
        yield dict(w, state=0, up=10)
    while True:
        w = world(rng)
        k = rng.random()
        if k < 0.5:
            w["nv"] = [[k, v] for k, v in values(w["net"], w["product"]).items()]
        if k < 0.4:
            n = rng.randrange(34) if rng.random() < 0.5 else rng.randrange(5, 12)
            w["fault"] = {"at": n, "kind": rng.choice(["refuse", "silent", "cancel"]), "status": rng.choice([1, 2, 9, 0xB8, 0xFF]), "after": rng.choice([0, 0.02, 0.4])}
        elif rng.random() < 0.1:
            w["up"] = rng.choice([0, 1, 7, 8, 10])
        else:
            w = maybe_later(rng, w, 0.5)
        yield w


def from_model(goal, m):
    return from_start(m)
