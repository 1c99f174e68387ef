"""C20: initialisation writes every setting, and the marker last.

start_znp on a stick that must be initialised, for an arbitrary network and every firmware,
with any one command refused, unanswered (carried out or not) or interrupted."""
from contracts.znp import *

MODULES = ["zigpy_cc.zigbee.start_znp", "zigpy_cc.zigbee.nv_items"]
ASSUMES = ["the stick clears its network state at a reset when the start-up option says so"]
SETTINGS = (LOGICAL, DISTRIBUTE, DIRECTCB, CHANNELS, PANID, EXTPAN, KEY)


class Progress:
    """What has been achieved, and the marker, from the trace."""

    def __init__(self, ctx, it, net, version, mark, present):
        self.ctx, self.it, self.net, self.version = ctx, it, net, version
        self.cleared = 0                # 1: reset, 2: told to clear, 3: cleared by a reset
        self.ok = {}                    # setting -> whether its last write was acknowledged and right
        self.bdb = set()
        self.waits = {}
        self.mark = mark                # the marker can be valid (worst case)
        self.sure = mark                # the marker is certainly valid
        self.changed = False
        self.commission = 0
        self.present = present          # the marker item certainly exists

    def missing(self):
        m = []
        if self.cleared < 3:
            m.append("clear state")
        m += ["setting 0x%X" % s for s in SETTINGS + ((TCLK,) if self.version == V12 else ()) if not self.ok.get(s)]
        if self.version != V12:
            m += [x for x in ("primary channels", "secondary channels", "formation", "start as coordinator", "network steering") if x not in self.bdb]
        return m

    def step(self, kind, a):
        ctx, it = self.ctx, self.it
        if kind == "wait":
            self.waits[id(a[1])] = (a[0], self.commission)
            return
        if kind == "waited":
            b, m, f = a
            if wait_matches(it, b, "AREQ", "ZDO", "stateChangeInd", {"state": 9}) and f is None and "formation" in self.bdb:
                if ctx.prove("the wait for the coordinator began before commissioning", self.waits[id(m)][1] == 0):
                    self.bdb.add("start as coordinator")
            return
        r = a[0]
        good = r.out == "ok"
        may = r.out != "refused"
        if r.name == "resetReq":
            self.cleared = {0: 1, 1: 1, 2: 3, 3: 3}[self.cleared] if good else self.cleared
            return
        if r.item == marker(self.version) and (is_write(r) or r.name == "osalNvItemInit"):
            if r.name == "osalNvItemInit":
                # creates the item: with what it is to hold at first
                if self.present is not True and not clears(ctx, r, 5):
                    ctx.prove("the marker is created only after everything else has succeeded", not self.missing(), self.missing())
                    if may:
                        self.mark = True
                self.present = self.present or good
                return
            if clears(ctx, r):
                if good:
                    self.mark = False
                self.sure = False
            else:
                ctx.prove("the marker is written only after everything else has succeeded", not self.missing(), self.missing())
                right_write(ctx, "the marker says configured", r, self.net)
                if may:
                    self.mark = True
                self.sure = good
            return
        if is_write(r):
            self.changed = self.changed or may
            if r.item == STARTUP:
                if right_write(ctx, "the state is to be cleared", r, self.net) and good:
                    self.cleared = 2 if self.cleared >= 1 else self.cleared
                    self.ok.clear()
                return
            if self.net.value(r.item) is None:
                return
            v = right_write(ctx, "item 0x%X is written with the configured value" % r.item, r, self.net)
            if not v:
                self.ok[r.item] = False
            elif good and self.cleared == 3:
                self.ok[r.item] = True
            return
        if r.ss == "APP_CNF":
            self.changed = self.changed or may
            if r.name == "bdbSetChannel":
                prim = [Lit([1])] + le(self.net.mask, 4)
                first = segs_of(r.data)[0].vals[0]
                if first == 1:
                    if data_is(ctx, "primary channels are the configured ones", r, prim) and good:
                        self.bdb.add("primary channels")
                else:
                    if data_is(ctx, "no secondary channels", r, [Lit([0] * 5)]) and good:
                        self.bdb.add("secondary channels")
            if r.name == "bdbStartCommissioning":
                mode = segs_of(r.data)[0].vals[0]
                self.commission += 1
                if mode == 4 and good and "primary channels" in self.bdb and "secondary channels" in self.bdb:
                    self.bdb.add("formation")
                if mode == 2 and good and "start as coordinator" in self.bdb:
                    self.bdb.add("network steering")


def g_init(version, before, kinds):
    """before: the marker the stick has at the start."""
    def fn(ctx, it):
        net = Network(ctx, it)
        z = Znp(ctx, it, version, fault=faults(ctx, kinds) if kinds else None)
        healthy(z)
        m = marker(version)
        z.mem[m] = {"none": None, "old": b"\x55", "blank": b"\x00"}[before]
        z.mem[CHANNELS] = b"" if before == "old" else ctx.bytes("item84")
        ctx.inputs.update(version=version, marker=before)
        r = start(ctx, it, z, net, version)
        p = Progress(ctx, it, net, version, before == "old", before != "none")
        n = 0
        for kind, a in log(ctx):
            p.step(kind, a)
            if kind == "req":
                n += 1
            if p.changed and p.missing():
                # interrupted here, the next start must initialise again
                ctx.prove("the marker is not valid while the initialisation is incomplete", not p.mark)
        fault = z.fault.state["done"] if z.fault else None
        if fault is None:
            if ctx.prove("start-up succeeds", not r.raised, r.raised and describe_exc(r.exc)):
                ctx.prove("everything is written", not p.missing(), p.missing())
                ctx.prove("the marker is written", p.mark and p.sure)
    return fn


def GOALS(w):
    out = []
    for v in (V12, V3X0, V30X):
        for before in ("none", "old", "blank"):
            out.append(Goal("firmware %d, marker %s" % (v, before), g_init(v, before, None)))
        for before in ("none", "old"):
            for k in ("refuse", "timeout", "cancel", "sent"):
                out.append(Goal("firmware %d, marker %s, %s" % (v, before, k), g_init(v, before, (k,))))
    return out
