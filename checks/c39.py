"""C39: a request made through zigpy gets the device's answer to it."""
import asyncio
import struct

import zigpy.device
import zigpy.exceptions
import zigpy.types as zt
import zigpy.zdo.types as zz
from harness import mt, stack
from harness.engine import Part, check

from . import common

TECHNIQUE = "property-based end-to-end testing with simulated devices"
RULE = ("A case is 1-20 zigpy operations (attribute reads and writes, cluster commands, "
        "reporting configuration, binding, descriptor, leave and neighbour requests, group "
        "and broadcast commands) on up to three devices, begun at generated times, some at "
        "once; the simulated devices answer each with generated contents and delays (also "
        "before the coordinator's acknowledgement, or not at all, or the coordinator refuses), among reports and "
        "other traffic; non-trivial when two operations overlap. Distinct: by the full "
        "choice sequence.")
ASSUMES = ["A device answers requests for the same ZDO operation in the order they were made "
           "(MT replies carry no transaction number) and within 9 s, equal requests alike.",
           "ZDO requests that stay unanswered are not followed by others of the kind to the "
           "same device."]
MSG = mt.cmd("AF", "incomingMsg")
EXT = mt.cmd("AF", "incomingMsgExt")
ATTRS = {0x0000: ((4, 0x42), (5, 0x42), (3, 0x20)), 0x0006: ((0, 0x10), (0x4001, 0x21)),
         0x0008: ((0, 0x20), (1, 0x21)), 0x0402: ((0, 0x29), (3, 0x21))}
WRITABLE = {0x0000: ((0x10, 0x42),), 0x0006: ((0x4001, 0x21), (0x4002, 0x21)),
            0x0008: ((0x10, 0x21),), 0x0402: ()}
EP_IDS = (1, 11, 240)


def gen_value(d, typ, letters="abc~\u00feZ 0", most=30):
    """(what zigpy shows, how ZCL writes it)"""
    if typ == 0x42:
        s = "".join(d.choice(letters) for _ in range(d.int(0, most)))
        return s, bytes([len(s.encode())]) + s.encode()
    if typ == 0x10:
        v = d.int(0, 1)
        return v, bytes([v])
    if typ == 0x20:
        v = d.u8()
        return v, bytes([v])
    if typ == 0x29:
        v = d.int(-0x7FFF, 0x7FFF)
        return v, struct.pack("<h", v)
    v = d.u16()
    return v, struct.pack("<H", v)


class Op:
    pass


ZDO_OPS = ("bind", "unbind", "node", "eps", "simple", "leave", "power", "lqi")


def gen_op(d, i, sleepy, zdo_used):
    o = Op()
    o.i = i
    o.dev = d.uniform(0, len(sleepy) - 1)
    o.ep = d.choice(EP_IDS)
    o.cluster = d.choice(tuple(ATTRS))
    o.gap = d.choice((0.0, 0.0, 0.0, 0.001, 0.05, 0.3))
    o.delay = d.choice((-0.0005, 0.0005, 0.003, 0.02, 0.2, 1.0, 4.0,
                        8.5 if sleepy[o.dev] else 4.0))
    o.fate = ("answer", "silence", "refusal")[d.weighted(10, 1, 1)]
    o.status = d.int(1, 255)
    k = d.weighted(6, 3, 3, 2, 5, 1, 1, 2)
    o.kind = ("read", "write", "command", "configure", "zdo", "group", "broadcast",
              "view")[k]
    if o.kind == "read":
        o.attrs = d.sample(ATTRS[o.cluster], d.int(1, len(ATTRS[o.cluster])))
        o.values = {}
        for a, typ in o.attrs:
            o.values[a] = None if d.bool(0.15) else (typ,) + gen_value(d, typ)
    elif o.kind == "write":
        if not WRITABLE[o.cluster]:
            o.cluster = 6
        a, typ = d.choice(WRITABLE[o.cluster])
        o.write = (a, typ) + gen_value(d, typ, "abc~ 0", 14)  # zigpy miscounts others
        o.result = d.choice((0, 0, 0x86, 0x88))
    elif o.kind == "command":
        o.cluster, o.cmd, o.result = 6, d.int(0, 2), d.choice((0, 0, 0x81, 1))
    elif o.kind == "view":
        o.cluster, o.group, o.result = 4, d.u16(), d.choice((0, 0, 0x8B))
        o.name = gen_value(d, 0x42)[0]
    elif o.kind == "configure":
        o.cluster = 0x0402
        o.conf = (d.u16(), d.u16(), d.int(0, 0x7FFF))
        o.result = d.choice((0, 0, 0x8C))
    elif o.kind == "zdo":
        o.op = d.choice(ZDO_OPS)
        key = (o.dev, o.op)
        if key in zdo_used:  # answered after those before it
            o.fate, o.delay = "answer", zdo_used[key]
        elif o.fate != "refusal":
            o.fate = "answer"
            zdo_used[key] = o.delay
        o.result = d.choice((0, 0, 0x84, 0x88))
        o.eps = [d.int(1, 240) for _ in range(d.int(0, 8))]
        o.desc = [d.u8(), d.u8(), d.u8(), d.u16(), d.u8(), d.u16(), d.u16(), d.u16(),
                  d.u8()]
        o.simple = [d.u16(), d.u16(), d.u8(), [d.u16() for _ in range(d.int(0, 5))],
                    [d.u16() for _ in range(d.int(0, 5))]]
        o.power = bytes([d.u8(), d.u8()])
        o.start = d.u8()
        o.total = d.u8()
        o.near = [mt.gen_neighbor(d) for _ in range(d.weighted(2, 2, 2, 1))] \
            if o.op == "lqi" else []
        for n in o.near:
            n["permitJoin"] = min(n["permitJoin"], 2)
        same = [o.dev, o.op]
        if o.op in ("bind", "unbind"):
            same += [o.ep, o.cluster]
        elif o.op in ("simple", "lqi"):
            same += [o.ep if o.op == "simple" else o.start]
        first = zdo_used.setdefault(tuple(same + ["contents"]), o)
        for n in ("result", "eps", "desc", "simple", "power", "total", "near"):
            setattr(o, n, getattr(first, n))
    else:
        o.data = d.bytes(1, 20)
    return o


class Air:
    """Answers what arrives over the air; matches it to the operation by contents."""

    def __init__(self, ncp, devices, ops):
        self.ncp, self.devices, self.ops = ncp, devices, ops
        self.open = []  # operations begun and not seen yet
        self.last = {}
        ncp.hook = self.hook

    def hook(self, req):
        if req.typ != mt.SREQ or req.ss not in (mt.AF, mt.ZDO):
            return None
        ack = [self.ncp.status(req, 0)]
        if req.key == ("AF", "dataRequestExt"):
            return ack
        if req.ss == mt.AF:
            return self.af(req, ack)
        return self.zdo(req, ack)

    def find(self, req, fits):
        for o in self.open:
            if fits(o):
                self.open.remove(o)
                if o.fate == "refusal":
                    return o, [self.ncp.status(req, o.status)]
                return o, None
        check(False, "nobody asked for %r", req)

    def raw(self, o, ack, frame):
        if o.fate == "silence":
            return ack
        at = max(0.0001, self.ncp.latency + o.delay)
        return ack + [(at, frame)]

    def af(self, req, ack):
        v = req.v
        dev = self.devices[v["dstaddr"]]
        data = v["data"]
        if data[0] & 3 == 0 and data[2] == 0x0B:
            return ack  # a default response to a report
        tsn, cmd, body = data[1], data[2], data[3:]
        general = data[0] & 3 == 0

        def fits(o):
            if (o.dev, o.ep, o.cluster) != (dev, v["destendpoint"], v["clusterid"]):
                return False
            if o.kind == "read":
                return general and cmd == 0 and body == b"".join(
                    struct.pack("<H", a) for a, _ in o.attrs)
            if o.kind == "write":
                return general and cmd == 2 and body == struct.pack(
                    "<HB", *o.write[:2]) + o.write[3]
            if o.kind == "command":
                return not general and cmd == o.cmd and not body
            if o.kind == "view":
                return not general and cmd == 1 and body == struct.pack("<H", o.group)
            if o.kind == "configure":
                return general and cmd == 6 and body == struct.pack(
                    "<BHBHHh", 0, 0, 0x29, *o.conf)
            return False

        o, refused = self.find(req, fits)
        if refused:
            return refused
        if o.kind == "read":
            out = bytes([0x18, tsn, 1])
            for a, _ in o.attrs:
                x = o.values[a]
                out += struct.pack("<HB", a, 0x86) if x is None else \
                    struct.pack("<HBB", a, 0, x[0]) + x[2]
        elif o.kind == "write":
            out = bytes([0x18, tsn, 4, o.result])
            if o.result:
                out += struct.pack("<H", o.write[0])
        elif o.kind == "command":
            out = bytes([0x18, tsn, 0x0B, o.cmd, o.result])
        elif o.kind == "view":
            name = o.name.encode()
            out = bytes([0x19, tsn, 1, o.result]) + struct.pack("<H", o.group) + bytes(
                [len(name)]) + name
        else:
            out = bytes([0x18, tsn, 7, o.result])
            if o.result:
                out += b"\0" + struct.pack("<H", 0)
        return self.raw(o, ack, message(self.devices.nwks[dev], o.cluster, o.ep,
                                        v["srcendpoint"], out, self.devices.long[dev]))

    def zdo(self, req, ack):
        v = req.v
        nwk = v["dstaddr"]
        dev = self.devices[nwk]
        names = {"bind": "bindReq", "unbind": "unbindReq", "node": "nodeDescReq",
                 "eps": "activeEpReq", "simple": "simpleDescReq", "leave": "mgmtLeaveReq",
                 "power": "powerDescReq", "lqi": "mgmtLqiReq"}
        o, refused = self.find(req, lambda o: o.kind == "zdo" and o.dev == dev
                               and names[o.op] == req.name)
        if refused:
            return refused
        if o.op in ("bind", "unbind"):
            check((v["srcaddr"], v["srcendpoint"], v["clusterid"]) ==
                  (self.devices.ieees[dev], o.ep, o.cluster), "%s: %r", o.op, req)
        if o.op == "lqi":
            check(v["startindex"] == o.start, "neighbours asked for from %d on: %r", o.start,
                  req)
        head = {"srcaddr": nwk, "status": o.result}
        name = names[o.op].replace("Req", "Rsp")
        c = mt.cmd("ZDO", name)
        if o.op == "node":
            f = dict(zip([n for n, _ in c.request[3:]], o.desc), nwkaddr=nwk)
        elif o.op == "eps":
            f = {"nwkaddr": nwk, "activeepcount": len(o.eps), "activeeplist": o.eps}
        elif o.op == "simple":
            p, t, ver, i, u = o.simple
            f = {"nwkaddr": nwk, "len": 8 + 2 * len(i + u), "endpoint": o.ep,
                 "profileid": p, "deviceid": t, "deviceversion": ver,
                 "numinclusters": len(i), "inclusterlist": i, "numoutclusters": len(u),
                 "outclusterlist": u}
        elif o.op == "power":
            f = dict(zip([n for n, _ in c.request[3:]], o.power), nwkaddr=nwk)
        elif o.op == "lqi":
            f = {"neighbortableentries": o.total, "startindex": o.start,
                 "neighborlqilistcount": len(o.near), "neighborlqilist": o.near}
        else:
            f = {}
        return self.raw(o, ack, common.areq(c, dict(f, **head)))


def message(nwk, cluster, src_ep, dst_ep, data, long=None):
    f = {"groupid": 0, "clusterid": cluster, "srcaddr": nwk, "srcendpoint": src_ep,
         "dstendpoint": dst_ep, "wasbroadcast": 0, "linkquality": 77, "securityuse": 0,
         "timestamp": 5, "transseqnumber": data[1], "len": len(data), "data": data}
    if long is None:
        return common.areq(MSG, f)
    return common.areq(EXT, dict(f, srcaddrmode=3, srcpanid=0, srcaddr=long))


class Devices(dict):
    """Index by network address; also addresses by index."""


def expected(o, nwk):
    """What zigpy's caller must get."""
    if o.kind == "read":
        return ({a: x[1] for a, x in o.values.items() if x is not None},
                {a: 0x86 for a, x in o.values.items() if x is None})
    if o.kind == "command":
        return [o.cmd, o.result]
    if o.kind == "view":
        return [o.result, o.group, o.name]
    if o.kind == "zdo":
        if o.op in ("bind", "unbind", "leave"):
            return [o.result]
        return o.op
    return o.result


def simple(x):
    if isinstance(x, dict):
        return {int(k): simple(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(simple(v) for v in x) if type(x) in (list, tuple) else \
            [simple(v) for v in x]
    if isinstance(x, bool) or isinstance(x, int):
        return int(x)
    return x


async def perform(app, dev, o):
    cl = None
    if o.kind not in ("zdo", "group", "broadcast"):
        cl = dev.endpoints[o.ep].in_clusters[o.cluster]
    if o.kind == "read":
        ok, bad = await cl.read_attributes([a for a, _ in o.attrs])
        got = (simple(ok), simple(bad))
        check(got == expected(o, 0), "operation %d read %r, device has %r", o.i, got,
              expected(o, 0))
    elif o.kind == "write":
        got = await cl.write_attributes({o.write[0]: o.write[2]})
        st = int(got[0][0].status)
        check(st == o.result, "operation %d: writing gave %r, device said 0x%02x", o.i, got,
              o.result)
    elif o.kind == "configure":
        got = await cl.configure_reporting(0, *o.conf)
        st = int(got[0][0].status if isinstance(got[0], list) else got[0])
        check(st == o.result, "operation %d: configuring gave %r, device said 0x%02x", o.i,
              got, o.result)
    elif o.kind in ("command", "view"):
        got = await (cl.command(o.cmd) if o.kind == "command" else
                     cl.command(1, o.group))
        check(simple(list(got)) == expected(o, 0), "operation %d: command gave %r, device "
              "said %r", o.i, got, expected(o, 0))
    elif o.kind == "zdo":
        z, nwk = dev.zdo, int(dev.nwk)
        if o.op in ("bind", "unbind"):
            dst = zz.MultiAddress()
            dst.addrmode, dst.ieee, dst.endpoint = 3, app.ieee, 1
            got = await getattr(z, o.op.capitalize() + "_req")(
                dev.ieee, o.ep, o.cluster, dst)
        elif o.op == "leave":
            got = await z.Mgmt_Leave_req(dev.ieee, 0)
        elif o.op == "node":
            got = await z.Node_Desc_req(nwk)
        elif o.op == "eps":
            got = await z.Active_EP_req(nwk)
        elif o.op == "lqi":
            got = await z.Mgmt_Lqi_req(o.start)
        elif o.op == "simple":
            got = await z.Simple_Desc_req(nwk, o.ep)
        else:
            got = await z.Power_Desc_req(nwk)
        check(int(got[0]) == o.result, "operation %d: %s gave %r, device said 0x%02x", o.i,
              o.op, got, o.result)
        if o.op == "eps":
            check(int(got[1]) == nwk and [int(e) for e in got[2]] == o.eps,
                  "operation %d: %r, device has endpoints %r", o.i, got, o.eps)
        elif o.op == "node":
            want = struct.pack("<BBBHBHHHB", *o.desc)
            check(int(got[1]) == nwk and got[2].serialize() == want,
                  "operation %d: %r, device has %s", o.i, got, want.hex())
        elif o.op == "power":
            check(int(got[1]) == nwk and got[2].serialize() == o.power,
                  "operation %d: %r, device has %s", o.i, got, o.power.hex())
        elif o.op == "lqi":
            have = [int(got[1].entries), int(got[1].start_index)] + [
                n.serialize() for n in got[1].neighbor_table_list]
            want = [o.total, o.start] + [mt.encode_neighbor(n) for n in o.near]
            check(have == want, "operation %d: %r, device has %r", o.i, have, want)
        elif o.op == "simple":
            s = got[2]
            have = [int(s.profile), int(s.device_type), int(s.device_version),
                    [int(c) for c in s.input_clusters], [int(c) for c in s.output_clusters]]
            want = [o.simple[0], o.simple[1], o.simple[2] , o.simple[3], o.simple[4]]
            check(int(s.endpoint) == o.ep and have == want,
                  "operation %d: %r, device has %r", o.i, have, want)
    elif o.kind == "group":
        got = await app.mrequest(7, 260, 6, 1, o.i, o.data)
        check(got[0] == 0, "operation %d: group command gave %r", o.i, got)
    else:
        got = await app.broadcast(260, 6, 1, 255, 0, 3, o.i, o.data)
        check(got[0] == 0, "operation %d: broadcast gave %r", o.i, got)


def operations(d):
    product, ndev, confirms = d.int(0, 2), d.int(1, 3), common.gen_confirms(d)
    zdo_used = {}
    sleepy = [d.bool(0.5) for _ in range(ndev)]
    ops = [gen_op(d, i, sleepy, zdo_used) for i in range(d.int(1, 20))]
    long = [d.bool(0.2) for _ in range(ndev)]
    reports = [(d.choice((0.0, 0.01, 0.5, 3.0)), d.uniform(0, ndev - 1), d.choice(EP_IDS),
                d.u8(), d.u8()) for _ in range(d.weighted(3, 1, 1, 1) * 3)]
    nwks = [(0x1234, 0x0001, 0xFF00)[i] for i in range(ndev)]
    ieees = [d.eui()[:7] + bytes([i]) for i in range(ndev)]
    split = d.choice((0, 0, 1, 5))
    for o in ops:
        d.show("+%.3f device %d endpoint %d %s%s: %s after %.4f", o.gap, o.dev, o.ep, o.kind,
               " " + o.op if o.kind == "zdo" else "", o.fate, o.delay)
        d.label(o.kind if o.kind != "zdo" else o.op)
        d.label(o.fate)
    if any(o.gap < 0.01 or p.delay > o.gap for p, o in zip(ops, ops[1:])):
        d.nontrivial()

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        ncp.confirms = confirms
        app = await stack.started_app(world)
        devices = Devices((n, i) for i, n in enumerate(nwks))
        devices.nwks, devices.ieees = nwks, ieees
        devices.long = [x if y else None for x, y in zip(ieees, long)]
        devs = []
        for i in range(ndev):
            dev = stack.add_device(app, ieees[i], nwks[i])
            dev.node_desc = zz.NodeDescriptor(2 if sleepy[i] else 1, 64, 0x80 if sleepy[i]
                                              else 0x8E, 4476, 82, 255, 0, 255, 0)
            dev.status = zigpy.device.Status.ENDPOINTS_INIT
            for e in EP_IDS:
                ep = dev.add_endpoint(e)
                ep.profile_id = 260
                ep.device_type = 0x0100
                for c in (0, 4, 6, 8, 0x0402):
                    ep.add_input_cluster(c)
            devs.append(dev)
        app.pass_on = app.pass_join = True
        if split:
            ncp.splitter = lambda raw: [raw[i:i + split] for i in range(0, len(raw), split)]
        air = Air(ncp, devices, ops)
        for t, i, e, tsn, value in reports:
            ncp.send(message(nwks[i], 8, e, 1, bytes([0x18, tsn, 0x0A, 0, 0, 0x20, value]),
                             devices.long[i]), t + 1e-6)
        tasks = []
        for o in ops:
            await asyncio.sleep(o.gap)
            if o.kind not in ("group", "broadcast"):
                air.open.append(o)
            tasks.append((o, asyncio.ensure_future(perform(app, devs[o.dev], o))))
        for o, task in tasks:
            await asyncio.wait([task], timeout=200)
            check(task.done(), "operation %d has not ended", o.i)
            e = task.exception()
            fate = o.fate if o.kind not in ("group", "broadcast") else "answer"
            if fate == "answer":
                if e is not None and isinstance(e, AssertionError):
                    raise e
                check(e is None, "operation %d, which was answered, raised %r", o.i, e)
            elif fate == "silence":
                check(isinstance(e, asyncio.TimeoutError),
                      "operation %d, which was not answered, gave %r", o.i, e)
            else:
                check(isinstance(e, zigpy.exceptions.DeliveryError),
                      "operation %d, which was refused, gave %r", o.i, e)
        check(not air.open, "never sent: %r", [o.i for o in air.open])
        check(not ncp.bad_frames and not ncp.noise and not ncp.overlaps,
              "not frames, or overlapping requests: %r", ncp.bad_frames or ncp.overlaps)

    stack.scenario(main)


PARTS = [Part("operations", operations, quick=400, thorough=25000)]
