"""The serial port and the list of adapters as the code sees them."""
from contracts.lib import *
from contracts.req import run_coro
import re


def zb(b):
    return b.e if isinstance(b, SBool) else z3.BoolVal(bool(b))


def evs(ctx, kind, start=0):
    return [e.args for e, g in events(ctx, ctx.trace[start:], (kind,)) if feasible(ctx, g)]


def is_adapter(vid, pid):
    """Adapters known to carry a supported stick: Texas Instruments, and the CH340 of zzh."""
    return vid == 0x0451 or (vid, pid) == (0x1A86, 0x7523)


POOL = [("/dev/ttyACM0", 0x0451, 0x16A8, "TI CC2531 USB CDC"), ("/dev/ttyACM1", 0x0451, 0xBEF3, "XDS110"), ("/dev/ttyUSB0", 0x1A86, 0x7523, "USB2.0-Serial"),
        ("/dev/ttyUSB1", 0x1A86, 0x5523, "CH341"), ("/dev/ttyUSB2", 0x10C4, 0xEA60, "CP2102"), ("/dev/ttyS0", None, None, "n/a")]


class Port:
    """trouble: what went wrong (None, "open", "cancel", "write")."""
    SERIAL = ["port", "baudrate", "bytesize", "parity", "stopbits", "timeout", "xonxoff", "rtscts", "write_timeout", "dsrdtr"]
    DEF = {"url": None, "baudrate": 9600, "bytesize": 8, "parity": "N", "stopbits": 1, "timeout": None, "xonxoff": False, "rtscts": False,
           "write_timeout": None, "dsrdtr": False}

    def __init__(self, ctx, it, fails=True, cancels=True, late=True):
        self.ctx, self.it = ctx, it
        self.fails, self.cancels, self.late = fails, cancels, late
        self.trouble = None
        self.error = None
        self.present = None
        self.patterns = []
        self.record = False
        self.protocol = self.transport = None
        self.calm = False
        ctx.shared["create_serial_connection"] = self.open
        ctx.shared["list_ports"] = self.ports
        ctx.shared["future_await"] = self.await_future
        ctx.shared["suspend"] = self.suspend

    def set(self, n, v):
        self.ctx.set(self, n, v)

    # ------------------------------------------------------------- adapters
    def plug(self):
        ms = [Mock("port " + d, device=d, vid=v, pid=p, description=t, hwid="n/a" if v is None else "USB VID:PID=%04X:%04X SER=1 LOCATION=1-1" % (v, p))
              for d, v, p, t in POOL if self.ctx.choose(2)]
        for m in ms:
            m.attrs["name"] = m.attrs["device"][5:]
            m.attrs["__str__"] = Builtin("str", lambda i, a, k, m=m: "%s - %s" % (m.attrs["device"], m.attrs["description"]))
        self.set("present", ms)
        self.ctx.inputs["plugged"] = [m.attrs["device"] for m in ms]

    def matching(self):
        return [m for m in self.present if is_adapter(m.attrs["vid"], m.attrs["pid"])]

    def ports(self, it, a, k, how):
        self.set("patterns", self.patterns + [None if how == "comports" else a[0] if a else k["regexp"]])
        if self.present is None:
            self.plug()
        ms = self.present
        if how == "grep":
            rx = re.compile(self.patterns[-1], re.I)
            ms = [m for m in ms if any(rx.search(m.attrs[n]) for n in ("device", "description", "hwid"))]
        return mk_list(ms)

    # ------------------------------------------------------------- port
    def open(self, it, a, k):
        ctx = self.ctx
        names = ["loop", "protocol_factory"]
        b = dict(zip(names, a[:2]))
        b.update({n: v for n, v in k.items() if n in names})
        s = dict(self.DEF)
        pos = list(a[2:])
        for n, v in zip(["url"] + self.SERIAL[1:], pos):
            s[n] = v
        for n, v in k.items():
            if n in names:
                continue
            if n in ("url", "port"):
                s["url"] = v
            elif n in s:
                s[n] = v
            else:
                raise Unsupported("serial parameter %s" % n)
        ctx.emit(Ev("open", s))
        if self.fails and not self.calm and ctx.choose(2):
            self.set("trouble", "open")
            n = ctx.choose(3)
            self.fail(("serial.SerialException", "OSError", "PermissionError")[n])
        self.suspend(it, ("open",))
        tr = Mock("transport", write=Builtin("write", lambda i, x, y: self.write(i, x[0] if x else y["data"])),
                  close=Builtin("close", lambda i, x, y: ctx.emit(Ev("closed", tr))), abort=Builtin("abort", lambda i, x, y: ctx.emit(Ev("closed", tr))),
                  is_closing=Builtin("is_closing", lambda i, x, y: self.closes() > 0))
        self.set("transport", tr)
        self.set("protocol", it.call(b["protocol_factory"], [], {}))
        ctx.emit(Ev("up", tr))
        if not self.late or ctx.choose(2):
            self.connection_made(it)
        return (tr, self.protocol)

    def fail(self, name):
        it = self.it
        try:
            it.raise_(X.EX(name) if "." in name else name, "port")
        except PyRaise as e:
            self.set("error", e.exc)
            raise

    def write(self, it, data):
        self.ctx.emit(Ev("write", data))

    def connection_made(self, it):
        self.ctx.emit(Ev("made"))
        it.call(it.getattr(self.protocol, "connection_made"), [self.transport], {})

    def await_future(self, it, f):
        """Some future of the code is awaited: the link may come up, or it is given up."""
        if self.cancels and not self.calm and self.ctx.choose(2):
            self.set("trouble", "cancel")
            it.raise_(X.EX("asyncio.CancelledError"))
        if self.protocol is not None and not self.made():
            self.connection_made(it)
        if f.attrs["state"] == "pending":
            self.ctx.prove("the code waits for something that happens", False)
            raise Pruned()
        return it.call(f.attrs["result"], [], {})

    def suspend(self, it, what):
        if self.cancels and not self.calm and self.ctx.choose(2):
            self.set("trouble", "cancel")
            it.raise_(X.EX("asyncio.CancelledError"))
        if self.protocol is not None and not self.made():
            if self.ctx.choose(2):
                self.connection_made(it)

    # ------------------------------------------------------------- what happened
    def log(self):
        out = []
        for e, g in events(self.ctx, self.ctx.trace, ("open", "up", "made", "write", "closed", "sleep", "lost")):
            if feasible(self.ctx, g):
                out.append((e.kind, e.args))
        return out

    def made(self):
        return len(evs(self.ctx, "made"))

    def closes(self):
        return len(evs(self.ctx, "closed"))


def mk_list(vals):
    return SList(norm_segs([Lit(list(vals))])) if vals else SList(())
