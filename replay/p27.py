"""C27 oracle: permit requests for any time and the LED, on all firmwares."""
from inc import *

RULE = "permit requests for all times 0..254 and times out of range; histories of messages about joining among all others, on all firmwares"


def judge(m, got, k, op):
    return differs("LED command", got["leds"], m.leds)


def check(i):
    return drive(i, judge)


def ind(rng, d=None):
    return ["msg", make(rng, "ZDO", find("ZDO", "permitJoinInd"), duration=rng.choice([0, 0, 1, 60, 254, 255]) if d is None else d)]


def cases(rng):
    return beside(rng, alone(rng))


def alone(rng):
    yield {"product": 1, "devs": [], "permit": True, "ops": [["permit", None]] + [["permit", t] for t in range(255)]}
    yield {"product": 0, "devs": [], "permit": True, "ops": [["permit", t] for t in (-1, 255, 256, 300, -255, 1 << 20, 65535, 0, 254)]}
    for p in (0, 1, 2):
        for d in range(0, 256, 5):
            yield {"product": p, "devs": [], "ops": [ind(rng, d)]}
        yield {"product": p, "devs": [], "ops": [ind(rng, 60), ind(rng, 0), zdo_rsp(rng, "mgmtPermitJoinRsp", 0), ind(rng, 0)]}
        for late in (0, 0.5, 5, None):
            yield {"product": p, "devs": [], "ops": [["burst", [ind(rng, d)[1] for d in (60, 0, 0, 255, 0)], late], ind(rng, 0)]}
    for how in ("again", "lost"):
        for at in range(6):
            yield {"product": at % 3, "devs": [], "ops": [ind(rng, 60), ["start", how, False, at, [ind(rng, 60)[1]]], ind(rng, 0), ind(rng, 60)]}
    for late in (0.01, 0.3, 1.0):
        for p in (0, 1, 2):
            n = 40 if p == 1 else 5
            yield {"product": p, "devs": [], "permit": True, "ops": [["permits", [rng.randrange(255) for _ in range(n)], late], ["permits", [60, 0, 60, 30], late]]}
    yield from marathon(rng, lambda devs: ind(rng))
    while True:
        if rng.random() < 0.01:
            yield from marathon(rng, lambda devs: ind(rng))
        devs = rdevs(rng)
        ops = []
        for _ in range(rng.choice([3, 10])):
            k = rng.random()
            ops.append(ind(rng) if k < 0.4 else zdo_rsp(rng, "mgmtPermitJoinRsp", rng.choice(devs)["nwk"]) if k < 0.5 else ["permit", rng.choice([0, 1, 60, 254, 255, -1, rng.randrange(-500, 500)])] if k < 0.66 else
                       ["permits", [rng.choice([0, 60, 254, rng.randrange(255)]) for _ in range(rng.choice([2, 4, 6]))], rng.choice([0.01, 0.5])] if k < 0.7 else
                       app_msg(rng, devs) if k < 0.8 else annce(rng, devs) if k < 0.9 else noise(rng, devs))
        yield {"product": rng.choice([0, 1, 2]), "devs": devs, "ops": again(rng, ops)}
