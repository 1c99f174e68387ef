"""C01 oracle: bytes written for a frame."""
from lib import *
from zigpy_cc import uart

RULE = "frames with every type/subsystem, random command and payload, payload length 0..300 incl. 0, 249..257; several frames on one connection, some of whose writes fail, and whose port stops and lets go on"


class NoApi:
    got = None

    def data_received(self, f):
        self.got = f

    def connection_lost(self):
        pass


class Kept:
    """A transport which, as the serial one does, keeps what it cannot send at once."""
    def __init__(self):
        self.log = []
        self.on_write = None

    def write(self, data):
        f, self.on_write = self.on_write, None
        if f == "fail":
            raise OSError("write failed")
        self.log.append(data)
        if f is not None:
            f()

    def close(self):
        pass

    def is_closing(self):
        return False

    def get_extra_info(self, n, default=None):
        return default


def check(i):
    if "ops" in i:
        return history(i["ops"])
    if "several" in i:
        return several(i["several"])
    return several([i])


def several(frames):
    """All the frames on one connection, looked at when all have been sent."""
    tr = Kept()
    gw = uart.Gateway(NoApi())
    gw.connection_made(tr)
    wants = []
    for i in frames:
        data = bytes(i["data"])
        n = len(tr.log)
        try:
            f = uart.UnpiFrame(i["ct"], i["ss"], i["cid"], data)
            if "was" in i:
                # a frame that was received and is sent on with another payload
                api = NoApi()
                uart.Gateway(api).data_received(frame(i["ct"], i["ss"], i["cid"], bytes(i["was"])))
                f = api.got
                f.data = data
            gw.send(f)
            exc = None
        except Exception as e:
            exc = e
        if len(data) > 255:
            if exc is None:
                return "payload of %d bytes was not refused" % len(data)
            if len(tr.log) != n:
                return "something was written although the frame was refused: %r" % tr.log[n:]
            continue
        if exc is not None:
            return "refused: " + describe(exc)
        want = frame(i["ct"], i["ss"], i["cid"], data)
        if [bytes(x) for x in tr.log[n:]] != [want]:
            return "written %r, expected one write of %s" % (tr.log[n:], want.hex())
        wants.append(want)
    got = [bytes(x) for x in tr.log]
    if got != wants:
        return "what was written changed afterwards: %s instead of %s" % ([x.hex() for x in got], [x.hex() for x in wants])
    return None


def history(ops):
    """One connection which the port stops and lets go on, and whose writes can fail: what is
    written is whole frames, each once, in the order they were handed over."""
    tr = Kept()
    gw = uart.Gateway(NoApi())
    gw.connection_made(tr)
    wants = []          # (frame, must it be written?)
    paused = False

    def send(i, how=None):
        data = bytes(i["data"])
        want = frame(i["ct"], i["ss"], i["cid"], data) if len(data) <= 255 else None
        if how == "fail":
            tr.on_write = "fail"
        elif isinstance(how, dict):
            # the port has more than enough: it says so while it takes the frame
            tr.on_write = gw.pause_writing
        failing = how == "fail" and want is not None
        if want is not None and not failing:
            wants.append((want, True))
        elif failing:
            wants.append((want, False))
        try:
            gw.send(uart.UnpiFrame(i["ct"], i["ss"], i["cid"], data))
        except Exception as e:
            return None if failing or want is None else "refused: " + describe(e)
        finally:
            tr.on_write = None
        return "payload of %d bytes was not refused" % len(data) if want is None else None

    def look(final):
        got = [bytes(x) for x in tr.log]
        k = 0
        for w, must in wants:
            if k < len(got) and got[k] == w:
                k += 1
            elif must and final:
                return "written %s, expected %s" % ([x.hex() for x in got], [(x.hex(), m) for x, m in wants])
            elif must and k < len(got):
                return "written %s, expected %s" % ([x.hex() for x in got], [(x.hex(), m) for x, m in wants])
        if k < len(got):
            return "written %s, expected %s" % ([x.hex() for x in got], [(x.hex(), m) for x, m in wants])

    for op in ops:
        r = None
        if op[0] == "send":
            r = send(op[1], op[2] if len(op) > 2 else None)
            if len(op) > 2 and isinstance(op[2], dict):
                paused = True
        elif op[0] == "pause" and not paused:
            paused = True
            gw.pause_writing()
        elif op[0] == "resume" and paused:
            paused = False
            gw.resume_writing()
        r = r or look(not paused)
        if r:
            return "after %r: %s" % (op, r)
    if paused:
        gw.resume_writing()
    return look(True)


def cases(rng):
    for ct in range(4):
        for ss in SSN:
            for n in (0, 1, 5):
                yield {"ct": ct, "ss": ss, "cid": rint(rng, 8), "data": rbytes(rng, n)}
    for n in list(range(0, 40)) + list(range(240, 262)) + [300, 511, 512, 1000]:
        yield {"ct": rng.randrange(4), "ss": rng.choice(list(SSN)), "cid": rint(rng, 8), "data": rbytes(rng, n)}
    for cid in range(256):
        yield {"ct": 1, "ss": 1, "cid": cid, "data": b"\x01\x02"}
    def anyf():
        return {"ct": rng.randrange(4), "ss": rng.choice(list(SSN)), "cid": rint(rng, 8),
                "data": rbytes(rng, rng.choice([0, 1, 2, 3, rng.randrange(20), rng.randrange(258)]))}
    for how in ([], ["fail"], [{"pause": 1}], None):
        ops = []
        for _ in range(300):
            ops.append(["send", anyf()] + (how if how is not None else rng.choice([[], ["fail"], [{"pause": 1}]])))
            if rng.random() < 0.1:
                ops.append(["resume"])
        yield {"ops": ops}
    while True:
        yield dict(anyf(), was=rbytes(rng, rng.choice([0, 1, 2, 20])))
        yield {"several": [anyf() for _ in range(rng.choice([2, 3, 6]))]}
        ops = []
        for _ in range(rng.choice([3, 5, 9])):
            k = rng.random()
            if k < 0.15:
                ops.append(["pause"])
            elif k < 0.3:
                ops.append(["resume"])
            else:
                ops.append(["send", anyf()] + rng.choice([[], [], [], ["fail"], [{"pause": 1}]]))
        yield {"ops": ops}
        yield {"ct": rng.randrange(4), "ss": rng.choice(list(SSN)), "cid": rint(rng, 8),
               "data": rbytes(rng, rng.choice([0, 1, 2, 3, rng.randrange(20), rng.randrange(258)]))}


def from_model(goal, m):
    if goal.startswith("two frames"):
        a, b = ({"ct": m["command_type" + x], "ss": m["subsystem" + x], "cid": m["command_id" + x],
                 "data": bytes.fromhex(m["data" + x]["bytes"])} for x in "12")
        return [{"ops": [["send", a, "fail"], ["send", b]]}, {"ops": [["pause"], ["send", a], ["send", b]]},
                {"ops": [["send", a, {"pause": 1}], ["send", b]]}, {"ops": [["send", a], ["send", b]]}]
    return {"ct": m["command_type"], "ss": m["subsystem"], "cid": m["command_id"], "data": bytes.fromhex(m["data"]["bytes"]),
            **({"was": b"\x01\x02"} if m.get("given") else {})}
