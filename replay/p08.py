"""C08 oracle: histories of waits and messages."""
from waits import *

RULE = "histories of waits (none to two correlating fields, right and wrong type, subsystem, command) and messages, with few distinct correlation values so that hits and near misses are frequent"


def check(i):
    return run_history(i["ops"], beside=i.get("beside", ()))


def cases(rng):
    # every single difference between a wait and a message
    for ct, ss, cmd in MSGS:
        v = vals_of(rng, ct, ss, cmd)
        ps = [tuple(p) for p in layout(find(ss, cmd), CT[ct])]
        counts = {ps[k - 1][0] for k in range(1, len(ps)) if ps[k][1] == "BUFFER" or ps[k][1].startswith("LIST")}
        names = [x for x, y in v.items() if isinstance(y, int) and not x.endswith("addrmode") and x not in counts]
        for f in names:
            other = dict(v)
            other[f] = v[f] ^ 1
            yield {"ops": [["wait", ct, ss, cmd, {f: v[f]}, None], ["msg", ct, ss, cmd, other], ["msg", ct, ss, cmd, v]]}
        for c2, s2, cmd2 in MSGS:
            if (c2, s2, cmd2) != (ct, ss, cmd):
                yield {"ops": [["wait", ct, ss, cmd, {}, None], ["msg", c2, s2, cmd2, vals_of(rng, c2, s2, cmd2)], ["msg", ct, ss, cmd, v]]}
        for c2 in CT:
            yield {"ops": fix([["wait", c2, ss, cmd, None, None], ["msg", ct, ss, cmd, v]])}
        for s2 in SS:
            yield {"ops": fix([["wait", ct, s2, cmd, None, None], ["msg", ct, ss, cmd, v]])}
    for _ in range(3):
        yield {"ops": crowd(rng)}
    while True:
        if rng.random() < 0.01:
            yield {"ops": crowd(rng)}
        yield {"ops": rhistory(rng, rng.choice([4, 8, 20]))}
        if rng.random() < 0.1:
            yield {"ops": rhistory(rng, rng.choice([4, 8])), "beside": [rhistory(rng, rng.choice([4, 8]))]}
