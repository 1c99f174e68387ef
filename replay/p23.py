"""C23 oracle: opening the port with every configuration, set of adapters and kind of trouble, by the serial layer itself and through
schema, API, probing and application."""
from stick import *
import serial
import os
import shutil
import tempfile
import serial.tools.list_ports
from serial.tools.list_ports_common import ListPortInfo

RULE = "random paths, baud rates and flow controls, random sets of adapters plugged in, the port failing to open, the link coming up at once, later or never; the same through the device schema, API.connect, API.probe and a started and restarted application"


def adapter(p):
    i = ListPortInfo(p[0], skip_link_detection=True)
    if p[1] is not None:
        i.vid, i.pid, i.serial_number, i.location, i.manufacturer, i.product = p[1], p[2], p[4], "1-1.%d" % (p[1] & 7), "Maker", p[3]
        i.apply_usb_info()
    return i


def known(p):
    return p[1] == 0x0451 or (p[1], p[2]) == (0x1A86, 0x7523)


class FakeAPI:
    def __init__(self):
        self.lost = 0

    def connection_lost(self):
        self.lost += 1

    def data_received(self, f):
        pass


def plugged(i, n):
    """The adapters at the n-th connection."""
    return i["later"] if n and i.get("later") is not None else i["ports"]


def whole(i):
    """From the user's configuration to the port."""
    from zigpy_cc.api import API
    from zigpy_cc.config import SCHEMA_DEVICE
    from zigpy_cc.zigbee.application import ControllerApplication
    orig = serial.tools.list_ports.comports
    tmp = tempfile.mkdtemp(prefix="c23-")
    st = {}
    try:
        dev = {"path": i["path"]}
        if i["path"] != "auto":
            dev["path"] = tmp + "/" + os.path.basename(i["path"].strip()).replace(":", "")
            open(dev["path"], "w").close()
        st["path"] = dev["path"]
        for k, n in (("baud", "baudrate"), ("flow", "flow_control")):
            if k in i["give"]:
                dev[n] = i[k]

        async def go(loop):
            s = Stick(loop)
            st["s"] = s
            serial.tools.list_ports.comports = lambda include_links=False: [adapter(p) for p in plugged(i, st["n"])]
            for n in range(i["times"]):
                st["n"] = n
                try:
                    if i["via"] == "api":
                        a = API(SCHEMA_DEVICE(dict(dev))) if not st.get("api") else st["api"]
                        st["api"] = a
                        await a.connect()
                        a.close()
                    elif i["via"] == "probe":
                        if await API.probe(dict(dev)):
                            return "probing a silent stick says yes"
                    else:
                        app = ControllerApplication(ControllerApplication.SCHEMA({"device": dict(dev)})) if not st.get("app") else st["app"]
                        st["app"] = app
                        try:
                            await app.startup(True)
                        except asyncio.TimeoutError:
                            pass
                        if app._api is not None:
                            app._api.close()
                except serial.SerialException as e:
                    st["err"] = e
        r = run(go)
        if r:
            return r
    finally:
        serial.tools.list_ports.comports = orig
        shutil.rmtree(tmp, ignore_errors=True)
    s = st["s"]
    want = []
    for n in range(i["times"]):
        match = [p for p in plugged(i, n) if known(p)]
        if i["path"] != "auto":
            want.append(st["path"])
        elif len(match) == 1:
            want.append(match[0][0])
        elif not st.get("err") and i["via"] != "probe":
            return "with %d matching adapters nothing was reported" % len(match)
    if len(s.opened) != len(want):
        return "%d ports were opened in %d connections, %d of them possible (%r)" % (len(s.opened), i["times"], len(want), st.get("err"))
    for o, path in zip(s.opened, want):
        e = settings(o, path, i["baud"] if "baud" in i["give"] else 115200, i["flow"] if "flow" in i["give"] else None)
        if e:
            return e
    return None


def settings(o, want, baud, flow):
    kw = dict(o["kw"])
    names = ["url", "baudrate", "bytesize", "parity", "stopbits", "timeout", "xonxoff", "rtscts"]
    kw.update(zip(names, o["args"]))
    url = kw.get("url", kw.get("port"))
    if url != want:
        return "port %r opened instead of %r" % (url, want)
    if kw.get("baudrate", 9600) != baud:
        return "opened with baud rate %r" % kw.get("baudrate")
    if (bool(kw.get("rtscts")), bool(kw.get("xonxoff")), bool(kw.get("dsrdtr"))) != (flow == "hardware", flow == "software", False):
        return "flow control %r opened with %r" % (flow, kw)
    if (kw.get("parity", "N"), kw.get("stopbits", 1), kw.get("bytesize", 8)) != ("N", 1, 8):
        return "opened with %r" % kw
    return None


def two(i):
    """Two connections with configurations of their own, both made ready before any is opened."""
    from zigpy_cc.api import API
    from zigpy_cc.zigbee.application import ControllerApplication
    ss = []

    async def one(loop, k, make, go):
        s = Stick(loop)
        ss.append(s)
        a = make[k["via"]](dict(k["conf"]))
        go.append(a)
        while len(go) < len(i["two"]):
            await asyncio.sleep(0.01)
        await asyncio.sleep(k["at"])
        try:
            await (a.connect() if k["via"] == "api" else a.startup(True))
        except asyncio.TimeoutError:
            pass

    async def go(loop):
        ready = []
        make = {"api": API, "app": lambda c: ControllerApplication(ControllerApplication.SCHEMA({"device": c}))}
        await asyncio.gather(*[asyncio.ensure_future(one(loop, k, make, ready)) for k in i["two"]])
    run(go)
    for k, s in zip(i["two"], ss):
        if len(s.opened) != 1:
            return "%d ports were opened by one of two connections" % len(s.opened)
        e = settings(s.opened[0], k["conf"]["path"], k["conf"]["baudrate"], k["conf"]["flow_control"])
        if e:
            return "of two connections, " + e
    return None


def check(i):
    if i.get("two"):
        return two(i)
    if i.get("via"):
        return whole(i)
    from zigpy_cc import uart
    st = {"done": False, "at": {}}
    orig = serial.tools.list_ports.comports

    async def go(loop):
        s = Stick(loop)
        s.open_delay = i["open_delay"]
        s.made = True if i["made"] == 0 else i["made"]
        if i["fail"]:
            s.fail = {"serial": serial.SerialException("no"), "os": OSError(71, "Protocol error")}[i["fail"]]
        st["s"] = s
        serial.tools.list_ports.comports = lambda include_links=False: [adapter(p) for p in i["ports"]]
        t = asyncio.ensure_future(uart.connect({"path": i["path"], "baudrate": i["baud"], "flow_control": i["flow"]}, FakeAPI()))
        if i["made"] is None:
            await asyncio.sleep(100)
            st["early"] = t.done()
            t.cancel()
        else:
            loop.call_later(i["open_delay"] + i["made"] - 0.001, lambda: st.update(early=t.done() and not t.exception()))
        st["before"] = list(s.raw)
        try:
            g = await t
        except asyncio.CancelledError:
            return None
        st["writes"] = list(s.raw)
        g.write(b"hello")
        return g
    try:
        try:
            g = run(go)
            err = None
        except (Exception, Deadlock) as e:
            if isinstance(e, Deadlock):
                raise
            g, err = None, e
    finally:
        serial.tools.list_ports.comports = orig
    s = st["s"]
    match = [p for p in i["ports"] if known(p)]
    if i["path"] == "auto" and len(match) != 1:
        if s.opened:
            return "a port was opened with %d matching adapters" % len(match)
        if not isinstance(err, serial.SerialException):
            return "with %d matching adapters: %r" % (len(match), err)
        return None
    if len(s.opened) != 1:
        return "%d ports were opened (%r)" % (len(s.opened), err)
    o = s.opened[0]
    if i["fail"]:
        return None if err is not None else "opening succeeded although the port failed"
    e = settings(o, match[0][0] if i["path"] == "auto" else i["path"], i["baud"], i["flow"])
    if e:
        return e
    if i["made"] is None:
        if st.get("early"):
            return "opening completed although the link never came up"
        return None
    if err is not None:
        return "opening failed: %r" % err
    if st.get("early"):
        return "opening completed before the link was up"
    if st["writes"] != [b"\xef"]:
        return "written while opening: %r" % st["writes"]
    if s.raw[-1:] != [b"hello"]:
        return "what is written does not reach the port"
    if o["transport"].closed:
        return "the port was closed"
    return None


def port(rng, n):
    k = rng.random()
    if k < 0.25:
        v, p = 0x0451, rng.choice([0x16A8, 0xBEF3, 0, 0xFFFF, rng.randrange(65536)])
    elif k < 0.4:
        v, p = 0x1A86, 0x7523
    elif k < 0.55:
        v, p = 0x1A86, rng.choice([0x5523, 0x7522, 0x752, 0x0451, rng.randrange(65536)])
    elif k < 0.7:
        v, p = rng.choice([0x4510, 0x0452, 0x10C4, 0x451A, 0x8545, 0x7523]), rng.choice([0x1A86, 0x0451, 0x7523, 0xEA60])
    elif k < 0.85:
        v, p = rng.randrange(65536), rng.randrange(65536)
    else:
        v = p = None
    return ["/dev/tty%s%d" % (rng.choice(["USB", "ACM", "S"]), n), v, p, rng.choice(["USB2.0-Serial", "CP2102", "TI CC2531", "n/a"]), rng.choice(["A1", "0451", "L100", None])]


def cases(rng):
    base = {"path": "/dev/ttyX", "baud": 115200, "flow": None, "ports": [], "fail": None, "made": 0, "open_delay": 0.0}
    for f in (None, "hardware", "software"):
        yield dict(base, flow=f)
        yield dict(base, flow=f, made=3.0)
    for ps in ([], [["/dev/ttyUSB0", 0x1A86, 0x7523, "x", "A"]], [["/dev/ttyUSB0", 0x1A86, 0x7523, "x", "A"], ["/dev/ttyACM0", 0x0451, 0x16A8, "y", "B"]]):
        yield dict(base, path="auto", ports=ps)
    for via in ("api", "probe", "app"):
        for f in (None, "hardware", "software"):
            yield dict(base, flow=f, baud=57600, via=via, give=["baud", "flow"], times=2)
            yield dict(base, flow=f, path="auto", ports=[["/dev/ttyUSB0", 0x1A86, 0x7523, "x", "A"]], via=via, give=["flow"], times=1)
            yield dict(base, flow=f, path="auto", ports=[["/dev/ttyUSB0", 0x1A86, 0x7523, "x", "A"]], later=[["/dev/ttyUSB1", 0x1A86, 0x7523, "x", "A"]], via=via, give=["flow"], times=2)
            yield dict(base, flow=f, path="auto", ports=[], later=[["/dev/ttyUSB1", 0x1A86, 0x7523, "x", "A"]], via=via, give=["flow"], times=2)
            yield dict(base, flow=f, path="auto", ports=[["/dev/ttyUSB1", 0x1A86, 0x7523, "x", "A"]], later=[], via=via, give=["flow"], times=2)
        yield dict(base, via=via, give=[], times=1)
    def conf():
        return {"path": "/dev/" + rng.choice(["null", "zero", "full", "random"]), "baudrate": rng.choice([115200, 9600, 57600]), "flow_control": rng.choice([None, "hardware", "software"])}
    while True:
        yield {"two": [{"via": rng.choice(["api", "app"]), "conf": conf(), "at": rng.choice([0, 0, 0.1, 30])} for _ in range(rng.choice([2, 2, 3]))]}
        for via in ("api", "probe", "app"):
            yield dict(random_case(rng), fail=None, via=via, give=[k for k in ("baud", "flow") if rng.random() < 0.8], times=rng.choice([1, 1, 2, 3]),
                       **({"later": [port(rng, n) for n in range(rng.choice([0, 1, 1, 2]))]} if rng.random() < 0.4 else {}))
        for _ in range(5):
            yield random_case(rng)


def random_case(rng):
    return {"path": rng.choice(["auto", "auto", "/dev/ttyACM0", "/dev/serial/by-id/usb-TI", "socket://1.2.3.4:88", "AUTO", "auto2", " auto", "/dev/serial-auto", "/dev/auto", "/dev/ttyauto", "auto:0", "/dev/automatic", "socket://auto", "Auto", "/dev/ttyUSB%d" % rng.randrange(9)]),
            "baud": rng.choice([115200, 9600, 38400, 921600, 1, rng.randrange(1, 4000000)]), "flow": rng.choice([None, "hardware", "software"]),
            "ports": [port(rng, n) for n in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))], "fail": rng.choice([None, None, None, "serial", "os"]),
            "made": rng.choice([0, 0, 0.5, 5.0, None]), "open_delay": rng.choice([0.0, 0.2])}


POOL = [["/dev/ttyACM0", 0x0451, 0x16A8, "TI CC2531 USB CDC", "1"], ["/dev/ttyACM1", 0x0451, 0xBEF3, "XDS110", "1"], ["/dev/ttyUSB0", 0x1A86, 0x7523, "USB2.0-Serial", "1"],
        ["/dev/ttyUSB1", 0x1A86, 0x5523, "CH341", "1"], ["/dev/ttyUSB2", 0x10C4, 0xEA60, "CP2102", "1"], ["/dev/ttyS0", None, None, "n/a", None]]


def from_model(goal, m):
    base = {"path": "/dev/ttyX" if m.get("path") != "auto" else "auto", "baud": m.get("baud", 115200), "flow": m.get("flow"), "fail": None, "open_delay": 0.0,
            "ports": [p for p in POOL if p[0] in m.get("plugged", [])]}
    if m.get("via"):
        ports = [POOL[0]] if base["path"] == "auto" else []
        return [dict(base, via=m["via"], give=m.get("give", []), ports=ports, made=0, times=2)] + ([dict(base, via=m["via"], give=m.get("give", []), ports=ports, later=[POOL[2]], made=0, times=2)] if ports else [])
    if m.get("adapter"):
        v, p = m["adapter"]
        return [dict(base, path="auto", made=0, ports=[["/dev/ttyUSB0", v, p, "x", "1"]])]
    return [dict(base, made=k) for k in (0, 2.0, None)] + [dict(base, made=0, fail=f) for f in ("serial", "os")]
