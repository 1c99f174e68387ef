"""C23: the serial port is opened as configured.

uart.connect on an arbitrary path and baud rate, every flow control setting, every set of
adapters plugged in, with the port failing to open, the link coming up at once, later or
never, and cancellation at every point where the code waits. And from the user's configuration to
that function: the device schema, API.connect/new, API.probe and the application's start, each with
uart.connect replaced by the contract above."""
from contracts.port import *
from contracts.app import *

MODULES = ["zigpy_cc.uart", "zigpy_cc.config", "zigpy_cc.api", "zigpy_cc.zigbee.application"]
ASSUMES = ["serial_asyncio.create_serial_connection opens the port, calls the factory once and connection_made once, some time later",
           "list_ports.grep reports the ports whose name, description or hardware id matches"]


def g_connect(auto, flow):
    def fn(ctx, it):
        P = Port(ctx, it)
        path = "auto" if auto else ctx.str("path")
        if not auto:
            ctx.assume(z3.Not(zb(it.compare("Eq", path, "auto"))))
        baud = ctx.int("baud", 1)
        ctx.inputs.update(path=path, baud=baud, flow=flow)
        if auto:
            P.plug()
        cfg = SDict({k: (k, v) for k, v in (("path", path), ("baudrate", baud), ("flow_control", flow))})
        api = Mock("api", connection_lost=Builtin("connection_lost", lambda i, a, k: ctx.emit(Ev("lost"))))
        r = run_coro(it, it.w.get("zigpy_cc.uart:connect"), [cfg, api])
        # what the next connection is made with
        same_settings(ctx, it, cfg, (path, baud, flow))
        match = P.matching() if auto else None
        opens = evs(ctx, "open")
        if auto and len(match) != 1:
            ctx.prove("without exactly one matching adapter no port is opened", not opens)
            ctx.prove("without exactly one matching adapter opening fails", r.raised)
            if r.raised:
                ctx.prove("it fails with a serial error", it.exc_matches(r.exc, (X.EX("serial.SerialException"),)), describe_exc(r.exc))
            return
        want = match[0].attrs["device"] if auto else path
        if not ctx.prove("the port is opened once", len(opens) == 1, len(opens)):
            return
        o = opens[0][0]
        if ctx.prove("a port is named", o["url"] is not None):
            prove_eq(ctx, "the configured port is opened", o["url"], want)
        prove_eq(ctx, "with the configured baud rate", o["baudrate"], baud)
        prove_eq(ctx, "hardware flow control exactly if configured", o["rtscts"], flow == "hardware")
        prove_eq(ctx, "software flow control exactly if configured", o["xonxoff"], flow == "software")
        prove_eq(ctx, "no other flow control", o["dsrdtr"], False)
        prove_eq(ctx, "no parity", o["parity"], "N")
        prove_eq(ctx, "one stop bit", o["stopbits"], 1)
        prove_eq(ctx, "eight data bits", o["bytesize"], 8)
        if r.raised:
            ctx.prove("opening fails only if something went wrong", P.trouble is not None, describe_exc(r.exc))
            if P.trouble == "open":
                ctx.prove("the error of the port is reported", r.exc is P.error, describe_exc(r.exc))
            return
        ctx.prove("opening does not succeed when something went wrong", P.trouble is None)
        ctx.prove("opening completes only once the link is up", P.made() == 1)
        w = [i for i, (k, a) in enumerate(P.log()) if k == "write"]
        m = [i for i, (k, a) in enumerate(P.log()) if k == "made"]
        if ctx.prove("the byte that stops the boot loader is sent, nothing else", len(w) == 1):
            prove_seq_eq(ctx, "the byte that stops the boot loader is sent", P.log()[w[0]][1][0], b"\xef")
            ctx.prove("it is sent once the link is up", m and m[0] < w[0])
        ctx.prove("the port stays open", not P.closes())
        ctx.prove("the connection handed out is that of the port", r.value is P.protocol)
        # it works: what is sent goes to the port
        P.after = len(ctx.trace)
        s = outcome(it, lambda: it.call(it.getattr(r.value, "write"), [b"xyz"], {}))
        ctx.prove("what is written goes to the port", not s.raised and [a[0] for a in evs(ctx, "write", P.after)] == [b"xyz"])
    return fn


def g_adapters(ctx, it):
    """Which adapters count: all vendor and product numbers."""
    P = Port(ctx, it)
    P.record = True
    P.present = []
    cfg = SDict({k: (k, v) for k, v in (("path", "auto"), ("baudrate", 115200), ("flow_control", None))})
    run_coro(it, it.w.get("zigpy_cc.uart:connect"), [cfg, Mock("api")])
    if not ctx.prove("the adapters are looked for", len(P.patterns) == 1):
        return
    if P.patterns[0] is None:
        raise Unsupported("adapters chosen by the code itself")
    import re
    rx = re.compile(P.patterns[0], re.I)
    bad = []
    for vid in range(65536):
        for pid in (0x7523, 0, 0x16A8, 0xBEF3, 0x5523, 0xFFFF) if vid not in (0x0451, 0x1A86) else range(65536):
            if bool(rx.search("USB VID:PID=%04X:%04X SER=X LOCATION=1-1" % (vid, pid))) != is_adapter(vid, pid):
                bad.append((vid, pid))
    ctx.inputs["adapter"] = list(bad[0]) if bad else None
    ctx.prove("exactly the adapters of the known kinds match", not bad, bad[:3])


GIVEN = [(b, f) for b in (False, True) for f in ("absent", None, "hardware", "software")]


def device_config(ctx, it, auto, given):
    """What the user may write: an existing path or auto, a baud rate, a flow control."""
    path = "auto" if auto else ctx.str("path")
    if not auto:
        ctx.assume(z3.Not(zb(it.compare("Eq", path, "auto"))))
    d = {"path": path}
    baud = ctx.int("baud", 1) if given[0] else 115200
    flow = None if given[1] == "absent" else given[1]
    if given[0]:
        d["baudrate"] = baud
    if given[1] != "absent":
        d["flow_control"] = flow
    ctx.inputs.update(path=path, flow=flow, baud=baud, give=(["baud"] if given[0] else []) + (["flow"] if given[1] != "absent" else []))
    ctx.shared["path_exists"] = lambda i, v, kind: not auto
    return d, (path, baud, flow)


def as_dict(d):
    return SDict({k: (k, v) for k, v in d.items()})


def same_settings(ctx, it, cfg, want):
    for name, w in zip(("path", "baudrate", "flow_control"), want):
        has = isinstance(cfg, SDict) and it.truth(it.compare("In", name, cfg))
        if ctx.prove("the %s is settled" % name, has):
            prove_eq(ctx, "the %s is the configured one" % name, it.getitem(cfg, name), w)


def g_whole(via, auto, given):
    def fn(ctx, it):
        ctx.inputs["via"] = via
        d, want = device_config(ctx, it, auto, given)
        it.w.get("zigpy_cc.uart:connect")

        def connect(i, a, k):
            b = bound(["config", "api", "loop"], a, k, {"loop": None})

            def go():
                ctx.emit(Ev("connect", b))
                i.raise_(X.EX("serial.SerialException"))
            return Coro("connect", go)
        ctx.contracts["zigpy_cc.uart:connect"] = connect
        ctx.shared["create_serial_connection"] = lambda i, a, k: ctx.prove("the port is opened by uart.connect only", False)
        ctx.shared["wait_for"] = lambda i, aw, t: i.await_(aw)
        if via == "app":
            A = App(ctx, it, start=False, config=None)
            del ctx.contracts["zigpy_cc.api:API.new"]
            cls = it.w.get(APPCLS)
            cfg = SDict({"device": ("device", as_dict(d)), "network": ("network", Mock("network config"))})
            app = it.call(cls, [it.call(it.getattr(cls, "SCHEMA"), [cfg], {})], {})
            rs = [run_coro(it, it.getattr(app, "startup"), list(a)) for a in ([], [True])]
            for r in rs:
                ctx.prove("the error of the port is reported", r.raised and it.exc_matches(r.exc, (X.EX("serial.SerialException"),)))
        elif via == "probe":
            r = run_coro(it, it.getattr(it.w.get("zigpy_cc.api:API"), "probe"), [as_dict(d)])
            ctx.prove("a port that cannot be opened is no stick", not r.raised and r.value is False, describe_exc(r.exc) if r.raised else r.value)
            rs = [r]
        else:
            cfg = it.call(it.w.get("zigpy_cc.config:SCHEMA_DEVICE"), [as_dict(d)], {})
            r = run_coro(it, it.getattr(it.w.get("zigpy_cc.api:API"), "new"), [Mock("application"), cfg])
            ctx.prove("the error of the port is reported", r.raised and it.exc_matches(r.exc, (X.EX("serial.SerialException"),)))
            rs = [r]
        cs = evs(ctx, "connect")
        if ctx.prove("the port is opened once per start", len(cs) == len(rs), len(cs)):
            for (b,) in cs:
                same_settings(ctx, it, b["config"], want)
    return fn


def GOALS(w):
    return [Goal("open, %s, flow control %s" % ("automatic" if a else "given path", f), g_connect(a, f)) for a in (False, True) for f in (None, "hardware", "software")] + [
        Goal("adapters", g_adapters)] + [
        Goal("%s, %s, baud rate %s, flow control %s" % (via, "automatic" if a else "given path", "given" if g[0] else "absent", g[1]), g_whole(via, a, g))
        for via in ("api", "probe", "app") for a in (False, True) for g in GIVEN]
