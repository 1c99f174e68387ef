"""C17 oracle: announcements among all other messages."""
from inc import *

RULE = "histories of announcements of known, unknown and returning devices among all other messages of the command table"


def judge(m, got, k, op):
    return differs("join", got["joins"], m.joins) or differs("announcement handed on", [x for x in got["msgs"] if x[1:4] == (0x13, 0, 0)], [x for x in m.msgs if x[1:4] == (0x13, 0, 0)])


def check(i):
    return drive(i, judge)


def cases(rng):
    return beside(rng, alone(rng))


def alone(rng):
    for k in (0.1, 0.6, 0.9, 2):
        devs = rdevs(rng, 2)
        yield {"product": 1, "devs": devs, "ops": [annce(rng, devs, k)]}
    for s, c in areqs():
        devs = rdevs(rng, 1)
        f = make(rng, s, c, maxn=3)
        yield {"product": rng.choice([0, 1, 2]), "devs": devs, "ops": [["msg", f], annce(rng, devs, 0.1)]}
    for how in ("again", "lost"):
        for at in range(6):
            devs = rdevs(rng, 2)
            yield {"product": at % 3, "devs": devs, "ops": [["start", how, False, at, [annce(rng, devs)[1]]], annce(rng, devs)]}
    yield from marathon(rng, lambda devs: annce(rng, devs))
    while True:
        if rng.random() < 0.01:
            yield from marathon(rng, lambda devs: annce(rng, devs))
        devs = rdevs(rng)
        ops = []
        for _ in range(rng.choice([3, 10, 20])):
            k = rng.random()
            ops.append(annce(rng, devs) if k < 0.5 else app_msg(rng, devs) if k < 0.65 else noise(rng, devs) if k < 0.8 else
                       zdo_req(rng, rng.choice(list(REQS)), rng.choice(devs)["nwk"]) if k < 0.9 else wrong_kind(rng, devs))
        yield {"product": rng.choice([0, 1, 2]), "devs": devs, "ops": again(rng, ops)}


def from_model(goal, m):
    return from_received(m, goal)
