"""C09 oracle: concurrent requests with every outcome; order of writes and responses."""
from reqs import *

RULE = "1..8 concurrent synchronous, asynchronous and reset requests; answered at once, later, with an error, never, cancelled, not encodable or failing to be written"


def check(i):
    return run_reqs(i, True, False)


def cases(rng):
    # every outcome followed by an ordinary request
    for how in ("ok", "sync", "err", "none", "cancel", "badenc", "writefail"):
        for ss, cmd in CMDS:
            for _ in range(50):
                r = rreq(rng, 0.0)
                if r["ss"] == ss and r["cmd"] == cmd and r["how"] == how:
                    break
            else:
                continue
            r2 = rreq(rng, 0.0)
            while r2["cmd"] == r["cmd"]:
                r2 = rreq(rng, 0.0)
            r2["how"] = "ok" if r2["how"] == "err" else r2["how"]
            yield {"reqs": [r, r2]}
    for n in (20, 40, 100):
        yield {"reqs": crowd(rng, n)}
    for hows in (("err",), ("none",), ("cancel",), ("badenc", "writefail"), ("ok", "sync")):
        yield {"reqs": series(rng, rng.choice([30, 80]), hows)}
    while True:
        if rng.random() < 0.02:
            yield {"reqs": crowd(rng, rng.choice([15, 35, 70, 150]))}
        i = {"reqs": rhist(rng, rng.choice([1, 2, 3, 5, 8]))}
        yield dict(i, beside=[rhist(rng, rng.choice([1, 2, 5]))]) if rng.random() < 0.1 else i
