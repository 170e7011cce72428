"""C30: the port is opened exactly as configured, auto-detection is unambiguous."""
import asyncio
import os
import tempfile

import serial
import serial.tools.list_ports as list_ports
from serial.tools.list_ports_common import ListPortInfo

from harness import stack
from harness.engine import Part, check
from zigpy_cc.api import API
from zigpy_cc.config import SCHEMA_DEVICE


TECHNIQUE = "property-based testing over device configurations and attached USB devices"
RULE = ("A case is a device configuration (path or auto, baud rate, flow control, defaults), "
        "a set of attached serial devices, an opening delay or failure and the way the port "
        "is opened (startup, connection, probe, reconnection); non-trivial when a port is "
        "opened or detection must refuse. Distinct: by the full choice sequence.")
ASSUMES = ["TI means USB vendor 0451, QinHeng adapter means 1A86:7523; other strings the "
           "USB devices report do not look like these."]
PATHS = ("/dev/null", "/dev/zero", "/dev/full", "/dev/random", "/", "/etc")
BAUDS = (115200, 9600, 19200, 38400, 57600, 230400, 460800, 500000, 921600, 1000000, 1)
OTHERS = ((0x10C4, 0xEA60), (0x0403, 0x6001), (0x1A86, 0x55D4), (0x1A86, 0x7522),
          (0x1A87, 0x7523), (0x0450, 0x16A8), (0x4510, 0x0451), (0x1CF1, 0x0030),
          (0x7523, 0x1A86), (0x0452, 0x0451), (0x04D8, 0x000A), (0x1A86, 0x752))
TI_PIDS = (0x16A8, 0xBEF3, 0x16C8, 0x0001, 0xFFFF)


def gen_port(d, i):
    info = ListPortInfo("/dev/tty%s%d" % (d.choice(("USB", "ACM", "AMA")), i))
    info.name = "tty%d" % i
    info.description = d.choice(("n/a", "CP2102N USB to UART", "USB Serial", "ttyS0",
                                 "CC1352 Launchpad"))
    kind = d.weighted(3, 2, 4, 2)
    if kind == 3:
        info.hwid = d.choice(("n/a", "PNP0501", "PCI\\VEN"))
        return info, False
    info.vid, info.pid = ((0x0451, d.choice(TI_PIDS)), (0x1A86, 0x7523),
                          d.choice(OTHERS))[kind]
    info.serial_number = d.choice((None, "L1100H1A", "00124B0014D9B5E6"))
    info.location = d.choice((None, "1-1.4", "20-2"))
    info.manufacturer = d.choice((None, "Texas Instruments", "QinHeng"))
    info.hwid = info.usb_info()
    return info, kind < 2


def connect(d):
    auto = d.bool(0.5)
    conf = {"path": "auto" if auto else d.choice(PATHS)}
    baud, flow = 115200, None
    if d.bool(0.7):
        baud = d.choice(BAUDS) if d.bool(0.7) else d.int(1, 4000000)
        conf["baudrate"] = baud
    if d.bool(0.7):
        flow = d.choice((None, "hardware", "software"))
        conf["flow_control"] = flow
    attached = [gen_port(d, i) for i in range(d.weighted(1, 2, 3, 2, 1))]
    matching = [p for p, yes in attached if yes]
    path = conf["path"] if not auto else matching[0].device if len(matching) == 1 else None
    fails = d.bool(0.15)
    delay = d.choice((0.0, 0.0, 0.1, 0.9))
    way = d.int(0, 3)
    d.show("%r, attached %r, way %d, opening %s after %.1f s", conf,
           [p.hwid for p, _ in attached], way, "fails" if fails else "succeeds", delay)
    d.label(("startup", "connection", "probe", "reconnection")[way])
    if auto:
        d.label("auto: %d matching" % len(matching))
    d.nontrivial()
    tmp = tempfile.mkdtemp() if not auto and d.bool(0.1) else None
    if tmp:
        path = conf["path"] = os.path.join(tmp, "the port")
        with open(path, "w"):
            pass

    async def main(loop, world):
        world.open_delay = delay
        if fails:
            world.open_plan.append(serial.SerialException("busy"))
        error = None
        api = None
        try:
            if way == 0:
                app = stack.make_app(device=conf)
                await app.startup(False)
            elif way == 1:
                api = await API.new(None, SCHEMA_DEVICE(conf))
                await api.version()
            elif way == 2:
                check(await API.probe(conf) is (path is not None and not fails),
                      "probe result")
            else:
                app = stack.make_app(device=conf)
                await app.startup(False)
        except (serial.SerialException, OSError) as e:
            error = e
        expected = path is not None and not fails
        if path is None:
            check(not world.opens, "opened %r although %d devices match", world.opens,
                  len(matching))
        else:
            check(len(world.opens) == 1, "opened %r", world.opens)
        if way != 2:
            check((error is None) == expected, "connecting ended with %r", error)
        if way == 3 and expected:
            world.port.lose(None)
            await asyncio.sleep(30)
            check(len(world.opens) == 2, "opens %r", world.opens)
        for t, url, kw, _ in world.opens:
            check(url == path, "opened %r, configured %r", url, path)
            check(kw.get("baudrate", 9600) == baud, "baud rate %r", kw)
            check(kw.get("parity", "N") == "N" and kw.get("stopbits", 1) == 1 and
                  kw.get("bytesize", 8) == 8, "not 8N1: %r", kw)
            check(bool(kw.get("xonxoff", False)) == (flow == "software") and
                  bool(kw.get("rtscts", False)) == (flow == "hardware") and
                  not kw.get("dsrdtr", False), "flow control %r opened as %r", flow, kw)
        for p in world.ports:
            check(p.written and p.written[0][1] == b"\xef", "first written: %r",
                  p.written[:1])
            check(p.bytes_out.count(b"\xef") >= 1 and all(
                t >= p.written[0][0] + 1 - 1e-9 for t, _ in p.written[1:]),
                "written within a second of the bootloader byte: %r", p.written[:2])
        if expected and way != 2:
            check(world.ports[0].written[1:], "nothing sent after connecting")
        if way == 3 and expected:
            await app.shutdown()

    saved = list_ports.comports
    list_ports.comports = lambda include_links=False: [p for p, _ in attached]
    try:
        stack.scenario(main)
    finally:
        list_ports.comports = saved
        if tmp:
            os.unlink(path)
            os.rmdir(tmp)


def each_setting(d, case):
    """Every flow control setting with every baud rate, given or left out."""
    flow, baud = case
    conf = {"path": "/dev/null"}
    if flow != "unset":
        conf["flow_control"] = flow
    if baud:
        conf["baudrate"] = baud
    d.show("%r", conf)
    d.nontrivial()

    async def main(loop, world):
        await API.new(None, SCHEMA_DEVICE(conf))
        (t, url, kw, _), = world.opens
        check(url == "/dev/null" and kw["baudrate"] == (baud or 115200), "opened %r %r",
              url, kw)
        check((bool(kw.get("xonxoff")), bool(kw.get("rtscts"))) ==
              (flow == "software", flow == "hardware"), "flow control %r: %r", flow, kw)
        check(world.port.bytes_out == b"\xef", "written %r", world.port.written)

    stack.scenario(main)


PARTS = [
    Part("settings", each_setting, cases=[[f, b] for f in ("unset", None, "hardware",
                                                           "software")
                                          for b in (0,) + BAUDS]),
    Part("connections", connect, quick=2500, thorough=100000),
]
