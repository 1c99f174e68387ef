"""C10 oracle: statuses, expected sets and follow-up waits."""
from reqs import *
import inc
import p16

RULE = "synchronous requests with every kind of response status, expected set (default, lists) and follow-up wait (none, pending, expired, cancelled, completed, unknown)"


def check(i):
    if "devs" in i:     # through the application: the wait of a refused request is gone, so a reply answers nothing
        return inc.drive(i, p16.judge)
    return run_reqs(i, False, True)


def cases(rng):
    for follow in (None, "live", "expired", "cancelled", "done", "unknown"):
        for how in ("err", "ok"):
            for _ in range(4):
                while True:
                    r = rreq(rng, 0.0)
                    if r["how"] == how and "status" in r["rsp"]:
                        break
                r["follow"] = follow
                yield {"reqs": [r]}
    for c in inc.REQS:
        for st in (1, 2, 0xE1, 0xFF):
            devs = inc.rdevs(rng, 1)
            a, rsp = devs[0]["nwk"], inc.REQS[c].replace("Req", "Rsp")
            yield {"product": 1, "devs": devs, "ops": [inc.zdo_req(rng, c, a) + [st], inc.zdo_rsp(rng, rsp, a), inc.zdo_req(rng, c, a), inc.zdo_req(rng, c, a) + [st]] +
                   [inc.zdo_rsp(rng, rsp, a) for _ in range(3)]}
    for hows in (("err",), ("ok", "sync"), ("err", "ok")):
        yield {"reqs": series(rng, rng.choice([30, 80]), hows)}
    yield {"reqs": crowd(rng, 60)}
    while True:
        if rng.random() < 0.02:
            yield {"reqs": series(rng, rng.choice([15, 60, 150]), ("err",))}
        i = {"reqs": rhist(rng, rng.choice([1, 1, 2, 4]))}
        yield dict(i, beside=[rhist(rng, rng.choice([1, 2]))]) if rng.random() < 0.1 else i
