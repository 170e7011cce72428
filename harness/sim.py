"""A simulated Z-Stack coordinator behind a fake serial port.

The fake port replaces serial_asyncio.create_serial_connection, i.e. the very
edge of the library: everything of zigpy_cc from the byte stream up is the real
code.  The coordinator speaks MT through the reference codec in mt.py only.
"""
import asyncio
import sys

import serial_asyncio

from . import mt


class FakePort:
    """What serial_asyncio hands to the protocol as its transport."""

    def __init__(self, world, protocol, url, kwargs):
        self.world = world
        self.protocol = protocol
        self.ncp = world.by_url.get(url) or world.ncp
        self.url = url
        self.kwargs = kwargs
        self.opened_at = world.loop.t
        self.closed_at = None
        self.close_calls = 0
        self.written = []
        self.late_writes = []
        self.delivered = 0
        self.stream = mt.Stream(
            lambda raw, ok: self.ncp.on_frame(self, raw, ok),
            lambda b: self.ncp.on_noise(self, b),
        )

    # transport API ----------------------------------------------------
    def write(self, data):
        data = bytes(data)
        if self.closed_at is not None:
            self.late_writes.append((self.world.loop.t, data))
            return
        self.written.append((self.world.loop.t, data))
        self.stream.feed(data)

    def writelines(self, lines):
        self.write(b"".join(lines))

    def close(self):
        self.close_calls += 1
        self._end(None)

    def abort(self):
        self.close()

    def is_closing(self):
        return self.closed_at is not None

    def get_extra_info(self, name, default=None):
        return default

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    @property
    def loop(self):
        return self.world.loop

    @property
    def serial(self):
        return None

    # world side -------------------------------------------------------
    def _end(self, exc):
        if self.closed_at is None:
            self.closed_at = self.world.loop.t
            self.world.loop.call_soon(self.protocol.connection_lost, exc)

    def lose(self, exc=None):
        """The adapter is unplugged: the OS ends the connection."""
        self._end(exc)

    def deliver(self, data):
        if self.closed_at is None:
            self.delivered += 1
            self.protocol.data_received(data)
            if self.world.on_deliver is not None:
                self.world.on_deliver(self)

    @property
    def open(self):
        return self.closed_at is None

    @property
    def bytes_out(self):
        return b"".join(d for _, d in self.written)


class World:
    def __init__(self, loop, ncp=None):
        self.loop = loop
        self.ports = []
        self.opens = []  # (t, url, kwargs, outcome)
        self.open_plan = []  # exceptions (or None) for the next opens
        self.open_delay = 0.0
        self.max_live = 0
        self.on_deliver = None  # called with the port after each read
        self.ncp = ncp or Ncp()
        self.ncp.world = self
        self.by_url = {}  # further coordinators on ports of their own
        self._saved = None

    def __enter__(self):
        real = serial_asyncio.create_serial_connection
        self._saved = [(serial_asyncio, "create_serial_connection", real)]
        # also where a module of the library imported it by name
        for name, module in list(sys.modules.items()):
            if name.startswith("zigpy_cc"):
                for attr, value in list(vars(module).items()):
                    if value is real:
                        self._saved.append((module, attr, real))
        for module, attr, _ in self._saved:
            setattr(module, attr, self._create)
        return self

    def __exit__(self, *exc):
        for module, attr, real in self._saved:
            setattr(module, attr, real)

    async def _create(self, loop, protocol_factory, *args, **kwargs):
        url = args[0] if args else kwargs.pop("url", kwargs.pop("port", None))
        plan = self.open_plan.pop(0) if self.open_plan else None
        if self.open_delay:
            await asyncio.sleep(self.open_delay)
        if isinstance(plan, BaseException):
            self.opens.append((self.loop.t, url, kwargs, type(plan).__name__))
            raise plan
        self.opens.append((self.loop.t, url, kwargs, "ok"))
        protocol = protocol_factory()
        port = FakePort(self, protocol, url, dict(kwargs))
        self.ports.append(port)
        self.max_live = max(self.max_live, len(self.live()))
        loop.call_soon(protocol.connection_made, port)
        return port, protocol

    def live(self):
        return [p for p in self.ports if p.open]

    @property
    def port(self):
        return self.ports[-1]


class Req:
    """One frame the coordinator received."""

    __slots__ = ("t", "port", "typ", "ss", "id", "payload", "cmd", "raw", "answered")

    def __init__(self, t, port, raw):
        self.t, self.port, self.raw = t, port, raw
        self.typ, self.ss, self.id = raw[2] >> 5, raw[2] & 0x1F, raw[3]
        self.payload = raw[4:-1]
        self.cmd = mt.BY_ID.get((self.ss, self.id))
        self.answered = False

    @property
    def name(self):
        return self.cmd.name if self.cmd else "?"

    @property
    def key(self):
        return (self.cmd.ss_name, self.cmd.name) if self.cmd else (self.ss, self.id)

    @property
    def v(self):
        return mt.decode(self.cmd.request, self.payload)

    def __repr__(self):
        return "%.3f %s %s" % (self.t, self.cmd or (self.ss, self.id), self.payload.hex())


NV_STARTUP_OPTION, NV_EXTPAN, NV_PRECFGKEY, NV_PRECFGKEYS_ENABLE = 3, 45, 98, 99
NV_PANID, NV_CHANLIST, NV_LOGICAL_TYPE, NV_ZDO_DIRECT_CB = 131, 132, 135, 143
NV_TCLK = 257
NV_MARK1, NV_MARK3 = 0xF00, 0x60
TC_LINK_KEY = b"\xff" * 8 + b"ZigBeeAlliance09" + b"\x00" * 8
REQUIRED_ENDPOINTS = {
    1: 0x0104, 2: 0x0101, 3: 0x0106, 4: 0x0107, 5: 0x0108, 6: 0x0109, 8: 0x0104,
    11: 0x0104, 0x6E: 0x0104, 12: 0xC05E, 13: 0x0104, 47: 0x0104, 242: 0xA1E0,
}
GP_GROUP = (242, 0x0B84)


class Ncp:
    """Z-Stack coordinator: NV memory, network state, endpoints, groups."""

    def __init__(self, product=1, ieee=b"\x01\x02\x03\x04\x05\x06\x07\x08"):
        self.world = None
        self.product = product
        self.version = dict(transportrev=2, majorrel=2, minorrel=7, maintrel=1,
                            revision=20200805)
        self.ieee = ieee
        self.short = 0
        self.state = 0
        self.nv = self.default_nv()
        self.endpoints = {}
        self.groups = set()
        self.formed = None
        self.bdb_channels = {}
        self.log = []
        self.bad_frames = []
        self.noise = []
        self.overlaps = []
        self.pending = None
        self.latency = 0.001
        self.reset_time = 0.5
        self.form_time = 0.3
        self.hook = None  # hook(req) -> None | "drop" | list of (delay, raw)
        self.confirms = None  # [(delay, status), ...] of hooked data requests, in turn
        self.extra = {}  # (ss_name, name) -> fn(req) -> list of (delay, raw)
        self.splitter = None  # raw -> [chunk, ...]
        self.epoch = 0
        self.resets = 0
        self.forms = 0
        self.nv_write_log = []
        self.dead = False
        self._next_out = 0.0
        self._sent = 0
        self.answer_known_only = False

    def default_nv(self):
        nv = {
            NV_STARTUP_OPTION: b"\x00", NV_EXTPAN: b"\x00" * 8,
            NV_PRECFGKEYS_ENABLE: b"\x01", NV_PANID: b"\xff\xff",
            NV_CHANLIST: b"\x00\x08\x00\x00", NV_LOGICAL_TYPE: b"\x02",
            NV_ZDO_DIRECT_CB: b"\x00", NV_PRECFGKEY: bytes(range(16)),
            NV_TCLK: b"\x00" * 32,
        }
        return nv

    @property
    def marker(self):
        return NV_MARK1 if self.product == 0 else NV_MARK3

    @property
    def port(self):
        """The port last opened to this coordinator."""
        if not self.world.by_url:
            return self.world.port
        return [p for p in self.world.ports if p.ncp is self][-1]

    # -- output --------------------------------------------------------
    def send(self, raw, delay=0.0, port=None):
        """Put bytes on the serial line to the host, now or after a delay."""
        port = port or self.port
        self._sent += 1  # equal delays keep their order
        if delay:
            self.world.loop.call_at(self.world.loop.time() + delay + 1e-9 * self._sent,
                                    self._line, raw, port, self.epoch)
        else:
            self._line(raw, port, self.epoch)

    def _line(self, raw, port, epoch):
        loop = self.world.loop
        if epoch != self.epoch:
            return
        self._next_out = max(loop.time(), self._next_out)
        chunks = self.splitter(raw) if self.splitter else [raw]
        for c in chunks:
            self._next_out += 1e-6
            loop.call_at(self._next_out, self._emit, port, c, epoch)

    def _emit(self, port, data, epoch):
        if epoch == self.epoch and port.open and not self.dead:
            port.deliver(data)

    # -- input ---------------------------------------------------------
    def on_noise(self, port, b):
        self.noise.append((self.world.loop.t, b))

    def on_frame(self, port, raw, ok):
        req = Req(self.world.loop.t, port, raw)
        if not ok:
            self.bad_frames.append(req)
            return
        self.log.append(req)
        if self.dead:
            return
        if req.typ == mt.SREQ:
            if self.pending is not None and not self.pending.answered \
                    and self.pending.port is port:
                self.overlaps.append((self.pending, req))
            self.pending = req
        out = self.hook(req) if self.hook else None
        if out == "drop":
            return
        if out is None:
            out = self.respond(req)
        elif self.confirms and req.key in (("AF", "dataRequest"), ("AF", "dataRequestExt")):
            out = list(out) + self.confirmed(req, out)
        for delay, reply in out:
            if callable(reply):
                self.world.loop.call_later(
                    delay, self._later, reply, port, self.epoch)
            else:
                if reply[2] >> 5 == mt.SRSP and self.pending is req:
                    self.world.loop.call_later(
                        delay, setattr, req, "answered", True)
                self.send(reply, delay, port)

    def _later(self, fn, port, epoch):
        if epoch == self.epoch and not self.dead:
            fn()

    def srsp(self, req, **values):
        c = req.cmd
        return (self.latency, mt.frame(mt.SRSP, c.ss, c.id,
                                       mt.encode(c.response, values)))

    def status(self, req, status=0):
        """An SRSP that begins with a status, the rest (if any) zero."""
        c = req.cmd
        data = b""
        for i, (name, typ) in enumerate(c.response):
            if name == "status":
                data += bytes([status])
            else:
                data += b"\x00" * mt.FIXED.get(typ, 0)
        return (self.latency, mt.frame(mt.SRSP, c.ss, c.id, data))

    def respond(self, req):
        if req.cmd is None:
            return []
        if req.key in self.extra:
            return self.extra[req.key](req)
        fn = getattr(self, "do_%s_%s" % req.key, None)
        if fn is not None:
            return fn(req)
        if req.typ == mt.SREQ and req.cmd.response is not None:
            return [self.status(req, 0)]
        return []

    # -- SYS -----------------------------------------------------------
    def do_SYS_ping(self, req):
        return [self.srsp(req, capabilities=0x0659)]

    def do_SYS_version(self, req):
        return [self.srsp(req, product=self.product, **self.version)]

    def do_SYS_resetReq(self, req):
        self.reset()
        return [(self.reset_time, lambda: self.send(mt.build(
            "SYS", "resetInd", reason=0, transportrev=2, productid=self.product,
            majorrel=2, minorrel=7, hwrev=1)))]

    def reset(self):
        """State lost by a reset; NV survives (network state if asked to clear)."""
        self.resets += 1
        self.epoch += 1
        self.pending = None
        self.state = 0
        self.endpoints = {}
        self.bdb_channels = {}
        if self.nv[NV_STARTUP_OPTION][0] & 2:
            self.formed = None
            self.groups = set()
            self.nv[NV_STARTUP_OPTION] = b"\x00"

    power_cycle = reset

    def nv_read(self, nvid, offset):
        if nvid not in self.nv:
            return 2, b""
        if nvid == NV_PRECFGKEY and self.product != 1:
            return 2, b""  # these generations reveal the key through SAPI only
        return 0, self.nv[nvid][offset:]

    def do_SYS_osalNvRead(self, req):
        v = req.v
        st, value = self.nv_read(v["id"], v["offset"])
        return [self.srsp(req, status=st, len=len(value), value=value)]

    def do_SYS_osalNvWrite(self, req):
        v = req.v
        self.nv_write_log.append((v["id"], v["offset"], v["value"]))
        if v["id"] not in self.nv:
            return [self.status(req, 9)]
        old = self.nv[v["id"]]
        if v["offset"] + len(v["value"]) > len(old):
            return [self.status(req, 10)]
        self.nv[v["id"]] = (old[: v["offset"]] + v["value"]
                            + old[v["offset"] + len(v["value"]):])
        return [self.status(req, 0)]

    def do_SYS_osalNvItemInit(self, req):
        v = req.v
        if v["id"] in self.nv:
            return [self.status(req, 0)]
        self.nv[v["id"]] = (v["initvalue"] + b"\xff" * v["len"])[: v["len"]]
        self.nv_write_log.append((v["id"], 0, "create"))
        return [self.status(req, 9)]

    # -- SAPI ----------------------------------------------------------
    def do_SAPI_readConfiguration(self, req):
        cid = req.v["configid"]
        if self.product == 1 or cid not in self.nv:
            return [self.srsp(req, status=2, configid=cid, len=0, value=b"")]
        return [self.srsp(req, status=0, configid=cid, len=len(self.nv[cid]),
                          value=self.nv[cid])]

    def do_SAPI_writeConfiguration(self, req):
        v = req.v
        self.nv_write_log.append((v["configid"], 0, v["value"]))
        if self.product == 1 or v["configid"] not in self.nv:
            return [self.status(req, 2)]
        self.nv[v["configid"]] = v["value"]
        return [self.status(req, 0)]

    # -- UTIL ----------------------------------------------------------
    def do_UTIL_getDeviceInfo(self, req):
        return [self.srsp(
            req, status=0, ieeeaddr=self.ieee, shortaddr=self.short, devicetype=7,
            devicestate=self.state, numassocdevices=0, assocdeviceslist=[])]

    # -- ZDO / APP_CNF: bringing the network up ---------------------------
    def net_from_nv(self):
        nv = self.nv
        return {"pan": nv[NV_PANID], "extpan": nv[NV_EXTPAN],
                "channels": nv[NV_CHANLIST], "key": nv[NV_PRECFGKEY]}

    def _up(self, bdb=False):
        if self.formed is None:
            self.formed = self.net_from_nv()
            self.forms += 1
            if bdb:  # BDB looks at its own channel sets, the secondary if not empty
                mask = self.bdb_channels.get(1, 0x02108800) | \
                    self.bdb_channels.get(0, 0x07FFF800)
                self.formed["channels"] = mask.to_bytes(4, "little")
        self.state = 9
        self.send(mt.build("ZDO", "stateChangeInd", state=9))

    def do_ZDO_startupFromApp(self, req):
        st = 0 if self.formed is not None else 1
        out = [self.status(req, st)]
        if self.nv[NV_LOGICAL_TYPE] == b"\x00":
            out.append((self.latency, lambda: self.send(
                mt.build("ZDO", "stateChangeInd", state=8))))
            out.append((self.form_time, self._up))
        return out

    def do_APP_CNF_bdbSetChannel(self, req):
        v = req.v
        self.bdb_channels[v["isPrimary"]] = v["channel"]
        return [self.status(req, 0)]

    def do_APP_CNF_bdbStartCommissioning(self, req):
        out = [self.status(req, 0)]
        if req.v["mode"] == 4 and self.nv[NV_LOGICAL_TYPE] == b"\x00":
            out.append((self.latency, lambda: self.send(
                mt.build("ZDO", "stateChangeInd", state=8))))
            out.append((self.form_time, lambda: self._up(True)))
        return out

    def do_ZDO_activeEpReq(self, req):
        v = req.v
        out = [self.status(req, 0)]
        if v["dstaddr"] == 0:
            eps = list(self.endpoints)
            out.append((self.latency, mt.build(
                "ZDO", "activeEpRsp", srcaddr=0, status=0, nwkaddr=0,
                activeepcount=len(eps), activeeplist=eps)))
        return out

    def do_ZDO_extFindGroup(self, req):
        v = req.v
        if (v["endpoint"], v["groupid"]) in self.groups:
            return [self.srsp(req, status=0, groupid=v["groupid"], namelen=0,
                              groupname=b"")]
        return [self.srsp(req, status=1, groupid=0, namelen=0, groupname=b"")]

    def do_ZDO_extAddGroup(self, req):
        v = req.v
        self.groups.add((v["endpoint"], v["groupid"]))
        return [self.status(req, 0)]

    # -- AF ------------------------------------------------------------
    def do_AF_register(self, req):
        v = req.v
        if v["endpoint"] in self.endpoints:
            return [self.status(req, 0xB8)]
        self.endpoints[v["endpoint"]] = v
        return [self.status(req, 0)]

    def confirm(self, req):
        v = req.v
        return [self.status(req, 0), (0.02, mt.build(
            "AF", "dataConfirm", status=0, endpoint=v["srcendpoint"],
            transid=v["transid"]))]

    def confirmed(self, req, out):
        """What becomes of a data request that is accepted in `out`."""
        for at, reply in out:
            if not callable(reply) and reply[2] >> 5 == mt.SRSP and reply[4:-1] == b"\x00":
                self.confirms.append(self.confirms.pop(0))
                delay, status = self.confirms[-1]
                return [(at + delay, mt.build(
                    "AF", "dataConfirm", status=status, endpoint=req.v["srcendpoint"],
                    transid=req.v["transid"]))]
        return []

    do_AF_dataRequest = confirm
    do_AF_dataRequestExt = confirm

    # -- shortcuts -----------------------------------------------------
    def requests(self, *names):
        return [r for r in self.log if not names or r.name in names]

    def configure(self, net):
        """Pretend a previous run configured this coordinator with `net`."""
        self.nv[NV_PANID] = net["pan"]
        self.nv[NV_EXTPAN] = net["extpan"]
        self.nv[NV_CHANLIST] = net["channels"]
        self.nv[NV_PRECFGKEY] = net["key"]
        self.nv[NV_PRECFGKEYS_ENABLE] = b"\x00"
        self.nv[NV_STARTUP_OPTION] = b"\x00"
        self.nv[NV_LOGICAL_TYPE] = b"\x00"
        self.nv[NV_ZDO_DIRECT_CB] = b"\x01"
        self.nv[NV_TCLK] = TC_LINK_KEY
        self.nv[self.marker] = b"\x55"
        self.formed = dict(net)
