"""C16 oracle: device management requests and replies."""
from inc import *

RULE = "histories of device management requests with numbers 0..255 and replies of all supported kinds, answering them or not, from known and unknown devices"


def judge(m, got, k, op):
    return differs("message handed on", got["msgs"], m.msgs)


def check(i):
    return drive(i, judge)


def cases(rng):
    return beside(rng, alone(rng))


def alone(rng):
    cl = list(REQS)
    for c in cl:
        rsp = REQS[c].replace("Req", "Rsp")
        for seq in (0, 1, 255):
            devs = rdevs(rng, 2)
            a = devs[0]["nwk"]
            yield {"product": 1, "devs": devs, "ops": [zdo_rsp(rng, rsp, a), zdo_req(rng, c, a, seq), zdo_rsp(rng, rsp, a), zdo_rsp(rng, rsp, a)]}
    for n in REPLIES:
        devs = rdevs(rng, 1)
        yield {"product": 1, "devs": devs, "ops": [zdo_rsp(rng, n, devs[0]["nwk"])]}
    yield from answered(rng)
    while True:
        if rng.random() < 0.01:
            yield from answered(rng)
        devs = rdevs(rng)
        ops = []
        pool = rng.sample(cl, rng.choice([1, 2]))
        for _ in range(rng.choice([4, 10, 20])):
            k = rng.random()
            d = rng.choice(devs)["nwk"] if rng.random() < 0.85 else rng.choice([0x7ABC, 0x0BAD])
            c = rng.choice(pool)
            ops.append(zdo_req(rng, c, d) + ([rng.choice([1, 9, 0xE1])] if k < 0.1 else []) if k < 0.4 else zdo_rsp(rng, REQS[c].replace("Req", "Rsp"), d) if k < 0.75 else
                       zdo_rsp(rng, rng.choice(list(REPLIES)), d) if k < 0.85 else app_msg(rng, devs) if k < 0.95 else wrong_kind(rng, devs))
            if ops[-1][0] == "msg" and ops[-1][1]["ct"] == "SRSP" and ops[-1][1]["name"].endswith("Req"):
                ops.pop()
        yield {"product": rng.choice([0, 1, 2]), "devs": devs, "ops": again(rng, ops)}


def answered(rng):
    """Many requests one after the other, every one answered."""
    for c in rng.sample(list(REQS), 2):
        devs = rdevs(rng, 2)
        ops = []
        for k in range(rng.choice([70, 150, 300])):
            a = rng.choice(devs)["nwk"]
            ops += [zdo_req(rng, c, a, k % 256), zdo_rsp(rng, REQS[c].replace("Req", "Rsp"), a)]
        yield {"product": rng.choice([0, 1, 2]), "devs": devs, "ops": ops}


def from_model(goal, m):
    return from_received(m, goal)
