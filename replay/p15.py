"""C15 oracle: histories of incoming messages on a started application with some known devices."""
from inc import *

RULE = "histories of application messages of both forms from known and unknown devices, among all other messages of the command table"


def judge(m, got, k, op):
    fs = [op[1]] if op[0] == "msg" else op[1] if op[0] == "burst" else op[4] if op[0] == "start" else []
    if fs and op[-1] != "fails" and all(f["ss"] == "AF" and f["ct"] == "AREQ" and f["name"].startswith("incomingMsg") for f in fs):
        n = len(m.lqi) - getattr(m, "seen", 0)
        new = got["lqi"][getattr(m, "gseen", 0):]
        want = m.lqi[len(m.lqi) - n:]
        m.seen, m.gseen = len(m.lqi), len(got["lqi"])
        if new != want:
            return "link quality recorded %r instead of %r" % (new, want)
    m.seen, m.gseen = len(m.lqi), len(got["lqi"])
    return differs("message handed on", got["msgs"], m.msgs)


def check(i):
    return drive(i, judge)


def cases(rng):
    return beside(rng, alone(rng))


def alone(rng):
    for ext in (False, True):
        for p in (0, 1, 2):
            devs = rdevs(rng, 2)
            yield {"product": p, "devs": devs, "ops": [app_msg(rng, devs, ext) for _ in range(6)]}
    for s, c in areqs():
        if s == "ZDO" and c["name"] in ("permitJoinInd",):
            continue
        devs = rdevs(rng, 1)
        f = make(rng, s, c, maxn=3)
        yield {"product": rng.choice([0, 1, 2]), "devs": devs, "ops": [["msg", f], app_msg(rng, devs)]}
    for how in ("again", "lost"):
        for at in range(6):
            devs = rdevs(rng, 1)
            yield {"product": at % 3, "devs": devs, "ops": [["start", how, False, at, [app_msg(rng, devs)[1], app_msg(rng, devs)[1]]], app_msg(rng, devs)]}
    yield from marathon(rng, lambda devs: app_msg(rng, devs))
    while True:
        if rng.random() < 0.01:
            yield from marathon(rng, lambda devs: app_msg(rng, devs))
        devs = rdevs(rng)
        ops = []
        for _ in range(rng.choice([3, 10, 20])):
            k = rng.random()
            ops.append(app_msg(rng, devs) if k < 0.6 else noise(rng, devs) if k < 0.8 else wrong_kind(rng, devs) if k < 0.9 else annce(rng, devs))
        yield {"product": rng.choice([0, 1, 2]), "devs": devs, "ops": again(rng, ops)}


def from_model(goal, m):
    return from_received(m, goal)
