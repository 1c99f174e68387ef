"""C18 oracle: every memory command of start-up on sticks with any contents."""
from boot import *

RULE = "start-ups with random networks on sticks holding the network, parts of it or anything else; every memory command compared with the firmware's item table; up to three starts in a row with changes in between"


def check(i):
    return each(i, one)


def one(i, r):
    p, net = i["product"], i["net"]
    want = settings(net, p)
    for item, off, n, v, x in writes(r):
        if item not in want:
            return "item 0x%X written, which is none of the firmware's" % item
        ok = (want[item], b"\0") if item == configured_id(p) else (want[item],)
        if v not in ok:
            return "item 0x%X written with %r instead of %r" % (item, v, want[item])
        if off != 0 or n != len(v):
            return "item 0x%X written at offset %d with declared length %d (%d bytes)" % (item, off, n, len(v))
    for x in r.log:
        if x.vals is None:
            if x.ss in ("SYS", "SAPI"):
                return "a %s command that does not decode: %r" % (x.ss, x.raw)
            continue
        k = (x.ss, x.name)
        if k == ("SYS", "osalNvRead") and (x.vals["id"] not in want or x.vals["offset"] != 0):
            return "item 0x%X read at offset %d" % (x.vals["id"], x.vals["offset"])
        if k == ("SAPI", "readConfiguration") and x.vals["configid"] not in want:
            return "item 0x%X read" % x.vals["configid"]
        if k == ("SYS", "osalNvItemInit"):
            if x.vals["id"] != configured_id(p) or x.vals["len"] != 1 or x.vals["initlen"] != 1 or bytes(x.vals["initvalue"]) != b"\0":
                return "item created: %r" % (x.vals,)
    if r.error:
        return "start-up failed on a healthy stick: " + r.error
    return None


def cases(rng):
    while True:
        yield maybe_later(rng, world(rng))


def from_model(goal, m):
    return from_start(m)
