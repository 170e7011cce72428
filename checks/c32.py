"""C32: a device that joins is interviewed to completion over the real stack."""
import asyncio
import struct

import zigpy.device
import zigpy.types as zt
from harness import mt, stack
from harness.engine import Part, check

from . import common

TECHNIQUE = "property-based end-to-end testing with simulated devices"
RULE = ("A case is 1-4 devices with generated node descriptors, endpoints, profiles, device "
        "types, cluster lists, manufacturer and model, announcing themselves at generated "
        "times and answering zigpy's interview with generated delays, on every firmware "
        "generation, among other traffic and with reads split at generated places; "
        "non-trivial when a device has an endpoint with a cluster. Distinct: by the full "
        "choice sequence.")
ASSUMES = ["A device answers each request within 5 s.",
           "No application endpoint has profile 0, which is the device profile itself."]
NODE = mt.cmd("ZDO", "nodeDescRsp")
EPS = mt.cmd("ZDO", "activeEpRsp")
SIMPLE = mt.cmd("ZDO", "simpleDescRsp")
ANN = mt.cmd("ZDO", "endDeviceAnnceInd")
MSG = mt.cmd("AF", "incomingMsg")
EXT = mt.cmd("AF", "incomingMsgExt")
NODE_FIELDS = ("logicaltype_cmplxdescavai_userdescavai", "apsflags_freqband", "maccapflags",
               "manufacturercode", "maxbuffersize", "maxintransfersize", "servermask",
               "maxouttransfersize", "descriptorcap")
PROFILES = (0x0104, 0xC05E, 0x0109, 0xA1E0, 0x0001, 0xFFFF)
TYPES = (0x0000, 0x0051, 0x0100, 0x010D, 0x0210, 0x0402, 0x0820, 0x7777, 0xFFFF)
CLUSTERS = (0, 1, 3, 4, 5, 6, 8, 0x13, 0x19, 0x20, 0x0102, 0x0300, 0x0400, 0x0500, 0x0B04,
            0x1000, 0xFC00, 0xFFFF)


class Endpoint:
    pass


class Device:
    pass


def gen_text(d):
    k = d.weighted(6, 2, 1)
    if k == 0:
        return "".join(chr(d.int(0x20, 0x7E)) for _ in range(d.int(1, 24)))
    if k == 1:  # bytes that could be mistaken for frame starts, lengths, checksums
        return "".join(d.choice("\x7e\x01\x20\x7f~AZ\u00fe\u0416\u4e2d") for _ in range(
            d.int(1, 12)))
    return ""


def gen_clusters(d, basic):
    out = d.sample(CLUSTERS[1:], d.int(0, 6)) if d.bool(0.8) else \
        [d.u16() for _ in range(d.int(0, 20))]
    out = [c for i, c in enumerate(out) if c and c not in out[:i]]
    if basic:
        out.insert(d.int(0, len(out)), 0)
    return out


def gen_device(d, i):
    x = Device()
    x.nwk = (0x1234 + i, 0x0001 + i, 0xFF10 + i, 0xFE00 + i)[d.int(0, 3)]
    x.ieee = d.eui()[:7] + bytes([i])
    x.node = {"srcaddr": x.nwk, "status": 0, "nwkaddr": x.nwk}
    for name, typ in NODE.request:
        if name in NODE_FIELDS:
            x.node[name] = mt.gen_value(d, typ)
    x.eps = {}
    for e in d.sample(list(range(1, 241)), d.weighted(0, 5, 3, 2, 1)) if d.bool(0.8) else \
            [d.choice((1, 2, 8, 11, 240)), 242][:d.int(0, 2)]:
        ep = Endpoint()
        ep.profile = d.choice(PROFILES) if d.bool(0.8) else d.int(1, 0xFFFF)
        ep.type = d.choice(TYPES) if d.bool(0.8) else d.u16()
        ep.version = d.u8()
        ep.inputs = gen_clusters(d, d.bool(0.7))
        ep.outputs = gen_clusters(d, d.bool(0.1))
        x.eps[e] = ep
    x.manufacturer, x.model = gen_text(d), gen_text(d)
    x.unsupported = [a for a in (4, 5) if d.bool(0.1)]
    x.piecewise = d.bool(0.15)  # fails reads of several attributes at once
    x.extended = d.bool(0.2)  # its messages are reported in the long form
    x.ext_mode = d.int(2, 3)
    x.at = d.choice((0.0, 0.0, 0.01, 0.5, 2.0))
    x.again = [d.choice((0.001, 0.2, 1.0)) for _ in range(d.weighted(8, 2, 1))]
    x.delays = [d.choice((0.001, 0.003, 0.02, 0.1, 0.5, 4.5))
                if d.bool(0.9) else d.int(1, 4900) / 1000 for _ in range(8)]
    x.step = 0
    x.asked = []
    return x


def zcl_record(x, attr, failed=False):
    if attr not in (4, 5) or attr in x.unsupported or failed:
        return struct.pack("<HB", attr, 0x86 if not failed else 0x01)
    s = (x.manufacturer if attr == 4 else x.model).encode()
    return struct.pack("<HBBB", attr, 0, 0x42, len(s)) + s


class Air:
    """The devices behind the coordinator."""

    def __init__(self, ncp, devices):
        self.ncp = ncp
        self.devices = {x.nwk: x for x in devices}
        self.unknown = []
        for name in ("nodeDescReq", "activeEpReq", "simpleDescReq"):
            ncp.extra["ZDO", name] = self.zdo
        ncp.extra["AF", "dataRequest"] = self.af
        ncp.extra["AF", "dataRequestExt"] = self.af

    def delay(self, x):
        x.step += 1
        return self.ncp.latency + x.delays[x.step % len(x.delays)]

    def zdo(self, req):
        v = req.v
        out = [self.ncp.status(req, 0)]
        x = self.devices.get(v["dstaddr"])
        if x is None or v["nwkaddrofinterest"] != x.nwk:
            self.unknown.append(req)
            return out
        x.asked.append(req.name)
        head = {"srcaddr": x.nwk, "status": 0, "nwkaddr": x.nwk}
        if req.name == "nodeDescReq":
            raw = common.areq(NODE, x.node)
        elif req.name == "activeEpReq":
            raw = common.areq(EPS, dict(head, activeepcount=len(x.eps),
                                        activeeplist=list(x.eps)))
        else:
            ep = x.eps.get(v["endpoint"])
            if ep is None:
                self.unknown.append(req)
                return out
            raw = common.areq(SIMPLE, dict(
                head, len=8 + 2 * (len(ep.inputs) + len(ep.outputs)),
                endpoint=v["endpoint"], profileid=ep.profile, deviceid=ep.type,
                deviceversion=ep.version, numinclusters=len(ep.inputs),
                inclusterlist=ep.inputs, numoutclusters=len(ep.outputs),
                outclusterlist=ep.outputs))
        return out + [(self.delay(x), raw)]

    def af(self, req):
        v = req.v
        out = self.ncp.confirm(req)
        nwk = v["dstaddr"] if req.name == "dataRequest" else \
            int.from_bytes(v["dstaddr"][:2], "little")
        x = self.devices.get(nwk)
        data = v["data"]
        if x is not None and len(data) == 5 and data[2] == 0x0B:
            return out  # default response to one of the reports
        if x is not None and v["clusterid"] == 4 and x.again and data[2] == 2:
            return out + [(self.delay(x), self.message(  # group membership: none
                x, 4, v["destendpoint"], v["srcendpoint"], bytes([9, data[1], 2, 9, 0])))]
        if x is None or v["destendpoint"] not in x.eps or len(data) < 3 or \
                v["clusterid"] != 0 or data[0] & 3 or data[2] != 0 or \
                0 not in x.eps[v["destendpoint"]].inputs:
            self.unknown.append(req)
            return out
        x.asked.append("read %d" % v["destendpoint"])
        attrs = struct.unpack("<%dH" % ((len(data) - 3) // 2), data[3:])
        reply = bytes([0x18, data[1], 0x01]) + b"".join(
            zcl_record(x, a, x.piecewise and len(attrs) > 1) for a in attrs)
        return out + [(self.delay(x), self.message(
            x, 0, v["destendpoint"], v["srcendpoint"], reply))]

    def message(self, x, cluster, src_ep, dst_ep, data):
        f = {"groupid": 0, "clusterid": cluster, "srcaddr": x.nwk, "srcendpoint": src_ep,
             "dstendpoint": dst_ep, "wasbroadcast": 0, "linkquality": 77, "securityuse": 0,
             "timestamp": 5, "transseqnumber": data[1] if len(data) > 1 else 0,
             "len": len(data), "data": data}
        if not x.extended:
            return common.areq(MSG, f)
        return common.areq(EXT, dict(
            f, srcaddrmode=x.ext_mode, srcpanid=0x1A62,
            srcaddr=x.ieee if x.ext_mode == 3 else x.nwk.to_bytes(8, "little")))


def verify(x, dev, seconds):
    who = "device 0x%04x" % x.nwk
    check(dev is not None, "%s is not in the device table", who)
    check(dev.status == zigpy.device.Status.ENDPOINTS_INIT,
          "%s: interview stuck in %r after %d s; it was asked %r", who, dev.status, seconds,
          x.asked)
    check(int(dev.nwk) == x.nwk, "%s has address 0x%04x", who, dev.nwk)
    want = struct.pack("<BBBHBHHHB", *[x.node[k] for k in NODE_FIELDS])
    check(dev.node_desc.is_valid and dev.node_desc.serialize() == want,
          "%s: node descriptor %r, device has %s", who, dev.node_desc, want.hex())
    check(sorted(e for e in dev.endpoints if e) == sorted(x.eps),
          "%s: endpoints %r, device has %r", who, sorted(dev.endpoints), sorted(x.eps))
    for e, ep in x.eps.items():
        got = dev.endpoints[e]
        for what, a, b in (("profile", got.profile_id, ep.profile),
                           ("device type", int(got.device_type), ep.type),
                           ("input clusters", list(got.in_clusters), ep.inputs),
                           ("output clusters", list(got.out_clusters), ep.outputs)):
            check(a == b, "%s endpoint %d: %s %r, device has %r", who, e, what, a, b)
    readable = any(0 in ep.inputs for ep in x.eps.values())
    for what, attr, a, b in (("manufacturer", 4, dev.manufacturer, x.manufacturer),
                             ("model", 5, dev.model, x.model)):
        b = b if readable and attr not in x.unsupported else None
        check(a == b, "%s: %s %r, device has %r; it was asked %r", who, what, a, b, x.asked)


def gen_traffic(d, devices):
    """Things that say nothing about the devices being interviewed."""
    k = d.weighted(3, 2, 2, 2, 1)
    if k == 0:  # messages of a device that is no concern of ours
        return "message from a stranger", common.areq(MSG, {
            "groupid": 0, "clusterid": d.choice(CLUSTERS), "srcaddr": 0x6000 + d.int(0, 9),
            "srcendpoint": 1, "dstendpoint": 1, "wasbroadcast": 0, "linkquality": 1,
            "securityuse": 0, "timestamp": 0, "transseqnumber": 1, "len": 5,
            "data": bytes([0x18, d.u8(), 0x01, 4, 0])})
    if k == 1:  # replies of other devices
        c = d.choice((NODE, EPS, SIMPLE))
        v = mt.gen_payload(d, c.request, max_payload=60)
        v["srcaddr"] = 0x6000 + d.int(0, 9)
        return "reply of a stranger", common.areq(c, v)
    if k == 2:
        c = d.choice([mt.cmd("ZDO", n) for n in ("srcRtgInd", "tcDeviceInd", "leaveInd",
                                                  "concentratorInd", "stateChangeInd")
                      if ("ZDO", n) in KEYS])
        return "indication", common.areq(c, mt.gen_payload(d, c.request, max_payload=30))
    if k == 3:  # an early report of a device being interviewed, from a foreign cluster
        x = d.choice(devices)
        e = d.choice(list(x.eps)) if x.eps else 1
        return "report of device 0x%04x" % x.nwk, (x, d.choice((6, 8, 0x0402)), e, bytes(
            [0x08, d.u8(), 0x0A, 0, 0, 0x20, d.u8()]))
    return "stray confirmation", common.areq(mt.cmd("AF", "dataConfirm"), {
        "status": 0, "endpoint": 251, "transid": d.u8()})


KEYS = {(c.ss_name, c.name) for c in mt.COMMANDS}


def interviews(d):
    devices = [gen_device(d, i) for i in range(1 + d.weighted(5, 3, 2, 1))]
    product = d.int(0, 2)
    split = d.weighted(4, 1, 1)
    sizes = [d.int(1, 7) for _ in range(8)]
    traffic = []
    for _ in range(d.weighted(4, 1, 1, 1) * 3):
        t = d.choice((0.0, 0.002, 0.02, 0.3, 1.0, 3.0, 6.0)) + d.int(0, 50) / 1000
        traffic.append((t,) + gen_traffic(d, devices))
    polls = [(d.choice((0.0, 0.05, 1.0, 2.0)), d.int(10, 150))
             for _ in range(d.weighted(5, 1, 1))]
    for t, n in polls:
        d.show("t=%.3f the host pings %d times", t, n)
    for x in devices:
        d.show("t=%.2f device 0x%04x %s: endpoints %r, %r %r, delays %r%s%s", x.at, x.nwk,
               x.ieee.hex(), {e: (p.profile, p.type, p.inputs, p.outputs)
                              for e, p in x.eps.items()}, x.manufacturer, x.model, x.delays,
               ", reads one attribute at a time" if x.piecewise else "",
               ", announces again after %r" % x.again if x.again else "")
        if any(p.inputs or p.outputs for p in x.eps.values()):
            d.nontrivial()
    for t in traffic:
        d.show("t=%.3f %s", t[0], t[1])
    d.label("%d devices" % len(devices))
    d.label("product %d" % product)

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        app = stack.make_app()
        await app.startup(False)
        app.pass_on = app.pass_join = True
        del ncp.log[:], ncp.noise[:]
        if split:
            n = [0]

            def splitter(raw):
                out = []
                while raw:
                    k = 1 if split == 1 else sizes[n[0] % 8]
                    n[0] += 1
                    out.append(raw[:k])
                    raw = raw[k:]
                return out
            ncp.splitter = splitter
        air = Air(ncp, devices)
        for x in devices:
            raw = common.areq(ANN, {"srcaddr": x.nwk, "nwkaddr": x.nwk, "ieeeaddr": x.ieee,
                                    "capabilities": x.node["maccapflags"]})
            for t in [x.at] + [x.at + a for a in x.again]:
                ncp.send(raw, t + 1e-6)
        for t, _, raw in traffic:
            if isinstance(raw, tuple):
                raw = air.message(raw[0], raw[1], raw[2], raw[2], raw[3])
            ncp.send(raw, t)
        async def poll(t, n):
            await asyncio.sleep(t)
            for _ in range(n):
                await app._api.request(1, "ping", {"capabilities": 1})

        polling = [asyncio.ensure_future(poll(*p)) for p in polls]
        steps = max(2 + len(x.eps) * 4 for x in devices)
        limit = 10 + 5.5 * steps
        end = loop.time() + limit
        while loop.time() < end and not all(
                zt.EUI64(x.ieee) in app.devices and
                app.devices[zt.EUI64(x.ieee)].status ==
                zigpy.device.Status.ENDPOINTS_INIT for x in devices):
            await asyncio.sleep(0.5)
        await asyncio.sleep(1)
        for p in polling:
            await p
        for x in devices:
            verify(x, app.devices.get(zt.EUI64(x.ieee)), limit)
        check(len(app.devices) == 1 + len(devices), "device table %r", app.devices)
        check(not air.unknown, "requests no device can answer: %r", air.unknown)
        for x in devices:  # nothing was lost and asked again
            for name in ("nodeDescReq", "activeEpReq"):
                n = x.asked.count(name)
                check(n == 1, "device 0x%04x was asked %s %d times", x.nwk, name, n)
            check(x.asked.count("simpleDescReq") == len(x.eps),
                  "device 0x%04x was asked %r", x.nwk, x.asked)
        check(not ncp.bad_frames and not ncp.noise and not ncp.overlaps,
              "not frames, or overlapping requests: %r %r %r", ncp.bad_frames, ncp.noise,
              ncp.overlaps)

    stack.scenario(main)


PARTS = [
    Part("interviews", interviews, quick=700, thorough=40000),
]
