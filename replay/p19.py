"""C19 oracle: which sticks are left alone."""
from boot import *

RULE = "start-ups on sticks whose memory differs from the configuration in nothing, in one or two items by bits, order or value, in everything, or was never set; up to three starts in a row with changes in between"


def check(i):
    return each(i, one)


def one(i, r):
    nv = {k: v for k, v in i["nv"]}
    h = holds(nv, i["net"], i["product"])
    if r.error:
        return "start-up failed on a healthy stick: " + r.error
    ini = initialised(r)
    if ini == h:
        return "a stick that %s the configured network was %s (marker %r, PAN ID %r)" % ("holds" if h else "does not hold", "initialised" if ini else "left alone",
                                                                                         nv.get(configured_id(i["product"])), nv.get(NV["panid"]))
    if not ini and any(True for _ in writes(r)):
        return "the memory of a stick that holds the network was written"
    return None


def cases(rng):
    for p in (0, 1, 2):
        net = network(rng)
        base = dict(world(rng, p), net=net)
        full = values(net, p)
        for drop in [None] + list(full):
            for change in ((None,) if drop is None else ("bit", "ff", "gone")):
                nv = dict(full)
                if change == "bit":
                    nv[drop] = bytes([nv[drop][0] ^ 1]) + nv[drop][1:]
                elif change == "ff":
                    nv[drop] = b"\xff" * len(nv[drop])
                elif change == "gone":
                    if drop != configured_id(p):
                        continue
                    del nv[drop]
                yield dict(base, nv=[[k, v] for k, v in nv.items()])
                if drop is not None and drop != NV["panid"] and change != "ff":
                    nv[NV["panid"]] = b"\xff\xff"
                    yield dict(base, nv=[[k, v] for k, v in nv.items()])
    while True:
        yield maybe_later(rng, world(rng))


def from_model(goal, m):
    return from_start(m)
