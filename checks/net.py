"""Network configurations, adapter memories and their ground truth (C20-C23, C31)."""
import asyncio

import zigpy.types as zt
from harness import mt, sim, stack
from harness.engine import check
from zigpy_cc.types import Subsystem

from . import common

PRODUCTS = (0, 1, 2)
DEFAULT = {"pan": b"\x62\x1a", "extpan": b"\xdd" * 8, "channels": b"\x00\x80\x10\x02",
           "key": bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])}
ODD_PANS = (0x00FF, 0xFF00, 0xFFFE, 0xFEFF, 0x2AFF, 0xFF2A, 0x0000, 0x0100)
ITEMS = {"pan": sim.NV_PANID, "extpan": sim.NV_EXTPAN, "channels": sim.NV_CHANLIST,
         "key": sim.NV_PRECFGKEY}


def gen_conf(d, p_set=0.75):
    """(value of the configuration's network section or None, the network meant)"""
    conf, net = {}, dict(DEFAULT)
    if d.bool(p_set):
        pan = d.int(0, 0xFFFE) if d.bool(0.85) else d.choice(ODD_PANS)
        conf["pan_id"] = (pan, hex(pan), zt.PanId(pan), str(pan))[d.weighted(3, 1, 1, 1)]
        net["pan"] = pan.to_bytes(2, "little")
    if d.bool(p_set):
        ext = (b"\x00" * 8, b"\xff" * 8)[d.int(0, 1)] if d.bool(0.15) else d.eui()
        if d.bool(0.6):
            conf["extended_pan_id"] = ":".join("%02x" % b for b in reversed(ext))
        else:
            conf["extended_pan_id"] = zt.ExtendedPanId(ext)
        net["extpan"] = ext
    if d.bool(p_set):
        key = bytes([0] * 16) if d.bool(0.1) else d.eui() + d.eui()
        conf["key"] = list(key)
        net["key"] = key
    if d.bool(p_set):
        chans = [c for c in range(11, 27) if d.bool(0.3)] if d.bool(0.7) else \
            [d.int(11, 26)] if d.bool(0.8) else list(range(11, 27))
        mask = sum(1 << c for c in chans)
        conf["channels"] = list(chans) if d.bool(0.6) else zt.Channels(mask)
        net["channels"] = (mask or 1 << 11).to_bytes(4, "little")
    # settings that must not matter
    if d.bool(0.2):
        conf["channel"] = d.int(11, 26)
    if d.bool(0.2):
        conf["update_id"] = d.u8()
    if d.bool(0.1):
        conf["key_sequence_number"] = d.u8()
    return conf, net


def mutate(d, net):
    """Another network: some of the settings differ, often in one place only."""
    out = dict(net)
    for k in d.sample(sorted(net), d.weighted(3, 2, 1, 1) + 1):
        b = bytearray(out[k])
        if k == "pan" and d.bool(0.3):
            b = bytearray(d.choice([p for p in ODD_PANS if p != int.from_bytes(b, "little")])
                          .to_bytes(2, "little"))
        elif k == "channels":
            b[1 + d.int(0, 1)] ^= 1 << d.int(3, 7)
        elif d.bool(0.5):
            b[d.int(0, len(b) - 1)] ^= 1 << d.int(0, 7)
        else:
            b = bytearray(reversed(b)) if d.bool(0.3) and bytes(reversed(b)) != out[k] \
                else bytearray(x ^ 0x5A for x in b)
        out[k] = bytes(b)
    if out["pan"] == b"\xff\xff":
        out["pan"] = b"\xfe\xff"
    return out


def gen_net(d):
    return {"pan": bytes([d.u8(), d.int(0, 0xFE)]), "extpan": d.eui(),
            "channels": (1 << d.int(11, 26)).to_bytes(4, "little"),
            "key": d.eui() + d.eui()}


def scramble(d, ncp):
    """Arbitrary memory: values from anywhere, marker perhaps half written."""
    nv = ncp.nv
    nv[sim.NV_STARTUP_OPTION] = bytes([d.int(0, 3)])
    nv[sim.NV_EXTPAN] = d.eui()
    nv[sim.NV_PANID] = b"\xff\xff" if d.bool(0.3) else bytes([d.u8(), d.u8()])
    nv[sim.NV_PRECFGKEY] = d.eui() + d.eui()
    nv[sim.NV_PRECFGKEYS_ENABLE] = bytes([d.u8()])
    nv[sim.NV_CHANLIST] = d.eui()[:4]
    nv[sim.NV_LOGICAL_TYPE] = bytes([d.int(0, 2)])
    nv[sim.NV_ZDO_DIRECT_CB] = bytes([d.int(0, 1)])
    nv[sim.NV_TCLK] = d.eui() * 4
    if d.bool(0.5):
        nv[ncp.marker] = bytes([d.choice((0x00, 0xFF, 0x54, 0x56, 0xAA, 0x5A))])
    if d.bool(0.3):  # the marker of the other generation means nothing
        other = sim.NV_MARK1 if ncp.marker == sim.NV_MARK3 else sim.NV_MARK3
        nv[other] = b"\x55"
    if d.bool(0.6):  # some network is running or stored
        ncp.formed = gen_net(d)
        if d.bool(0.7):
            ncp.state = d.choice((9, 9, 7, 6, 0))


def prior(d, ncp, want):
    """Give the adapter a history; returns its description."""
    k = d.weighted(2, 3, 4, 4)
    if k == 0:
        return "factory new"
    if k == 1:
        ncp.configure(want)
        if d.bool():
            ncp.state = 9
        what = "configured with the same network"
        if d.bool(0.3):
            ncp.nv[sim.NV_PRECFGKEYS_ENABLE] = bytes([d.int(1, 255)])
            what = "same network, key distribution on"
    elif k == 2:
        ncp.configure(mutate(d, want))
        if d.bool():
            ncp.state = 9
        what = "configured with a similar network"
        if d.bool(0.2):
            ncp.nv[sim.NV_PRECFGKEYS_ENABLE] = bytes([d.int(1, 255)])
            what = "key distribution on"
        if d.bool(0.1):
            del ncp.nv[ncp.marker]
            what = "configured by other software"
    else:
        scramble(d, ncp)
        what = "arbitrary memory"
    if d.bool(0.3):
        full_endpoints(d, ncp, d.sample(sorted(sim.REQUIRED_ENDPOINTS), d.int(0, 13)))
    if d.bool(0.3):
        ncp.groups.add(sim.GP_GROUP)
    return what


QUIET = (("SYS", "resetInd"), ("ZDO", "endDeviceAnnceInd"), ("ZDO", "activeEpRsp"),
         ("ZDO", "stateChangeInd"))
ASKED = [mt.cmd(*n.split(".")) for n in (
    "SYS.ping SYS.version SYS.osalNvRead SYS.osalNvWrite SYS.osalNvItemInit "
    "SAPI.readConfiguration SAPI.writeConfiguration UTIL.getDeviceInfo UTIL.ledControl "
    "ZDO.startupFromApp ZDO.activeEpReq ZDO.extFindGroup ZDO.extAddGroup AF.register "
    "APP_CNF.bdbSetChannel APP_CNF.bdbStartCommissioning").split()]


def bystander(d):
    """A frame that says nothing about the adapter's own configuration."""
    k = d.weighted(4, 3, 2, 1)
    if k == 0:  # a device answers what was asked before the restart
        eps = [e for e in sorted(sim.REQUIRED_ENDPOINTS) if d.bool()]
        addr = d.int(1, 0xFFF7)
        return mt.build("ZDO", "activeEpRsp", srcaddr=addr, status=d.choice((0, 0, 0x81)),
                        nwkaddr=addr, activeepcount=len(eps), activeeplist=eps)
    if k == 1:
        return common.gen_areq(d, QUIET, 60)[2]
    if k == 2:
        return common.gen_foreign_srsp(d, ASKED)[2]
    return mt.build("ZDO", "stateChangeInd", state=d.choice((0, 1, 2, 7, 8, 10)))


def traffic(d, world, ncp):
    """Other devices talk while the adapter is started: some bystander frames behind
    generated reads (so that they come between a request and its answers)."""
    plan = {}
    for _ in range(d.int(1, 6)):
        plan.setdefault(d.int(0, 45), []).append(
            (bystander(d), d.choice((0.0, 0.0, 0.0005, 0.1))))
    seen = [0]

    def on_deliver(port):
        for raw, delay in plan.pop(seen[0], ()):
            if port.open:
                ncp.send(raw, delay, port)
        seen[0] += 1

    world.on_deliver = on_deliver
    d.label("other traffic")


def full_endpoints(d, ncp, which):
    for e in which:
        ncp.endpoints[e] = {"endpoint": e, "appprofid": sim.REQUIRED_ENDPOINTS[e]}


def complete(ncp, net):
    """What is wrong with the adapter after a successful startup for `net`."""
    bad = []
    if ncp.state != 9:
        bad.append("device state %d, not coordinator" % ncp.state)
    if ncp.formed != net:
        bad.append("running network %r, configured %r" % (ncp.formed, net))
    for k, nvid in sorted(ITEMS.items()):
        if ncp.nv[nvid] != net[k]:
            bad.append("stored %s %s, configured %s" % (k, ncp.nv[nvid].hex(),
                                                       net[k].hex()))
    if ncp.nv[sim.NV_PRECFGKEYS_ENABLE] != b"\x00":
        bad.append("key distribution %s" % ncp.nv[sim.NV_PRECFGKEYS_ENABLE].hex())
    if ncp.nv.get(ncp.marker) != b"\x55":
        bad.append("configured marker %r" % ncp.nv.get(ncp.marker))
    if ncp.nv[sim.NV_LOGICAL_TYPE] != b"\x00":
        bad.append("logical type %s" % ncp.nv[sim.NV_LOGICAL_TYPE].hex())
    return bad


USER = ("ping", "unicast", "unicast without reply", "group", "broadcast", "ZDO", "permit")


async def ask(app, kind, n):
    """A request by the user; its status, or the exception it ended with."""
    ieee = zt.EUI64(b"\x07" * 8)
    dev = app.devices.get(ieee) or stack.add_device(app, b"\x07" * 8, 0x1234)
    tsn, data = n & 0xFF, bytes([n & 0xFF, 0, 1])
    try:
        if kind == "ping":
            obj = await app._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
            return 0 if obj.payload["capabilities"] == 0x0659 else obj
        if kind == "permit":
            return await app.permit_ncp(n % 255) or 0
        if kind == "group":
            res = await app.mrequest(9, 260, 6, 1, tsn, data)
        elif kind == "broadcast":
            res = await app.broadcast(260, 6, 1, 1, 0, 30, tsn, data)
        elif kind == "ZDO":
            res = await app.request(dev, 0, 2, 0, 0, tsn, data[:1] + b"\x34\x12")
        else:
            res = await app.request(dev, 260, 6, 1, 1, tsn, data, kind == "unicast")
        return int(res[0])
    except Exception as e:
        return e


class Users:
    """Requests of all kinds around faults; every one of them has to end."""

    def __init__(self, d, app):
        self.d, self.app, self.tasks = d, app, []

    def ask(self):
        for _ in range(self.d.choice((1, 1, 2, 5, 20))):
            kind = self.d.choice(USER)
            self.tasks.append((kind, asyncio.ensure_future(
                ask(self.app, kind, len(self.tasks)))))
        self.d.show("%d requests by the user", len(self.tasks))

    def ended(self, what):
        late = [k for k, t in self.tasks if not t.done()]
        check(not late, "requests made around the faults never end: %r, %s", late, what)


async def usable(app, what):
    """Requests of every kind, more than the adapter takes at once, all succeed."""
    kinds = USER * 3
    tasks = [asyncio.ensure_future(ask(app, k, n)) for n, k in enumerate(kinds)]
    done, late = await asyncio.wait(tasks, timeout=60)
    check(not late, "%s, %d of %d requests do not end", what, len(late), len(tasks))
    for k, t in zip(kinds, tasks):
        r = t.result()
        check(not isinstance(r, Exception) and r == 0, "%s, a %s request: %r", what, k, r)
