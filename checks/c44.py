"""C44: what devices ask for themselves is answered, to them alone."""
import asyncio
import struct
import time

import zigpy.device
import zigpy.ota.image
import zigpy.types as zt
import zigpy.zdo.types as zz
from harness import sim, stack
from harness.engine import Part, check

from . import common, net
from .c39 import message

TECHNIQUE = "model-based stateful property-based testing with simulated devices"
RULE = ("A case has one to four devices that at generated moments fetch a generated firmware image "
        "block by block, ask for the time, and report attribute values with or without wanting "
        "a confirmation, while the user sends requests and generated answers are refused, "
        "unacknowledged or lost on the air and the port is lost; non-trivial when a device gets a "
        "firmware block or two devices are answered. Distinct: by the full choice sequence.")
ASSUMES = ["A device repeats what remains unanswered after 25 s, or 120 s if it always uses "
           "the same transaction number; zigpy itself refuses to send two answers of one number "
           "at a time.",
           "At most six answers per case are disturbed.",
           "Unconfirmed reports made while the port is gone or opening may be lost.",
           "What zigpy answers is zigpy's; checked is that it arrives."]
NWKS = (0x1234, 0x0001, 0xFFF0, 0x8000)
EPS = (1, 11, 240)
TIME, OTA, ONOFF, LEVEL = 0x000A, 0x0019, 0x0006, 0x0008
TRIES = 12


class Dev:
    pass


def gen_image(d, manufacturer, kind):
    data = d.bytes(0, d.choice((0, 1, 30, 41, 150, 400)))
    h = zigpy.ota.image.OTAImageHeader()
    h.upgrade_file_id = h.MAGIC_VALUE
    h.header_version, h.header_length, h.field_control = 256, 56, 0
    h.manufacturer_id, h.image_type, h.file_version = manufacturer, kind, d.int(1, 2 ** 32 - 1)
    h.stack_version, h.header_string = 2, "image"
    h.image_size = 56 + 6 + len(data)
    element = zigpy.ota.image.SubElement(data)
    element.tag_id = zigpy.ota.image.ElementTagId.UPGRADE_IMAGE
    image = zigpy.ota.image.OTAImage(h, [element])
    image.expired = False
    return image


def gen_jobs(d, x):
    jobs = []
    for _ in range(d.int(1, 4)):
        k = d.weighted(3, 3, 5)
        gap = d.choice((0.0, 0.0, 0.01, 0.5, 8.0))
        if k == 0:
            jobs.append((gap, "firmware", d.int(1, 80)))
        elif k == 1:
            jobs.append((gap, "time", [d.int(0, 9) for _ in range(d.int(1, 5))]))
        else:
            jobs.append((gap, "report", d.choice((ONOFF, LEVEL)), d.u8(), d.bool(0.6)))
    x.jobs = jobs
    return jobs


def requests(d):
    product = d.int(0, 2)
    confirms = common.gen_confirms(d)
    devs, images = [], {}
    for i in range(d.weighted(2, 3, 2, 1) + 1):
        x = Dev()
        x.i, x.nwk, x.ieee, x.ep = i, NWKS[i], d.eui()[:7] + bytes([i]), d.choice(EPS)
        x.manufacturer, x.kind = d.int(0, 2) + 0x1100, d.int(0, 1)
        x.version = d.choice((0, 1, 2 ** 31, 2 ** 32 - 1))
        x.tsn, x.long, x.step = d.u8(), d.bool(0.2), d.weighted(1, 5, 1)
        x.latency = d.choice((0.0, 0.01, 0.4))
        gen_jobs(d, x)
        d.show("0x%04x: %s", x.nwk, "; ".join("%s %r" % (j[1], j[2:]) for j in x.jobs))
        key = zigpy.ota.image.ImageKey(x.manufacturer, x.kind)
        if key not in images and d.bool(0.75):
            images[key] = gen_image(d, *[x.manufacturer, x.kind])
        devs.append(x)
    fates = [d.weighted(9, 1, 1, 1) for _ in range(d.int(0, 40))]
    bad = 0
    for i, f in enumerate(fates):
        bad += f > 0
        if bad > 6:
            fates[i] = 0
    users = [(d.choice((0.0, 0.3, 5.0)), d.choice(devs), d.bytes(0, 30))
             for _ in range(d.int(0, 4))]
    losses = [d.choice((0.0, 0.0005, 0.02, 0.3, 2.0, 30.0)) for _ in range(d.weighted(5, 2, 1))]
    if losses:
        d.show("the port is lost after %r", losses)

    async def main(loop, world):
        ncp = world.ncp
        net.full_endpoints(d, ncp, sim.REQUIRED_ENDPOINTS)
        ncp.groups.add(sim.GP_GROUP)
        ncp.configure(dict(net.DEFAULT))
        ncp.state = 9
        ncp.product = product
        ncp.confirms = confirms
        app = await stack.started_app(world, auto_form=True)
        app.pass_on = True
        app.ota._image_cache.update(images)
        by_nwk = {}
        for x in devs:
            dev = stack.add_device(app, x.ieee, x.nwk)
            dev.node_desc = zz.NodeDescriptor(1, 64, 0x8E, 4476, 82, 255, 0, 255, 0)
            dev.status = zigpy.device.Status.ENDPOINTS_INIT
            ep = dev.add_endpoint(x.ep)
            ep.profile_id, ep.status = 260, zigpy.endpoint.Status.ZDO_INIT
            for c in (0, ONOFF, LEVEL):
                ep.add_input_cluster(c)
            for c in (TIME, OTA):
                ep.add_output_cluster(c)
            by_nwk[x.nwk] = x
            x.dev, x.waiting, x.values = dev, {}, {}
        asked, answers, number = [], [], [0]
        users_sent, lost_at = [], []

        def hook(req):
            if req.key != ("AF", "dataRequest"):
                return None
            v = req.v
            if v["data"][:1] == b"\x01" and v["clusterid"] == ONOFF:
                users_sent.append((v["dstaddr"], v["data"]))
                return [ncp.status(req, 0)]
            answers.append((v["dstaddr"], v["destendpoint"], v["srcendpoint"], v["clusterid"],
                            v["transid"], v["data"]))
            fate = fates[number[0]] if number[0] < len(fates) else 0
            number[0] += 1
            if fate == 2 and not by_nwk[v["dstaddr"]].step:
                fate = 3  # zigpy keeps its number of the earlier answer meanwhile
            if fate == 1:
                return [ncp.status(req, 0xCD)]
            if fate != 3:
                x = by_nwk.get(v["dstaddr"])
                if x is not None:
                    loop.call_later(0.002 + x.latency, arrive, x, v)
            if fate == 2:
                return "drop"
            return [ncp.status(req, 0)]

        def arrive(x, v):
            f = x.waiting.get((v["clusterid"], v["transid"]))
            if f is not None and not f.done() and f.want(v["transid"], v["data"]):
                f.set_result(v["data"])

        ncp.hook = hook

        def send(x, cluster, data, want):
            """One request of the device; `want` tells whether an answer is right."""
            port = world.live()
            ncp.send(message(x.nwk, cluster, x.ep, x.ep if x.long else 1, data,
                             x.ieee if x.long else None))
            if not port or app._api is None:
                return
            asked.append([loop.t, x, cluster, data[1], want])

        async def transact(x, cluster, head, body, want):
            for _ in range(TRIES):
                x.tsn = (x.tsn + x.step) & 255
                f = x.waiting[cluster, x.tsn] = loop.create_future()
                f.want = want
                send(x, cluster, bytes([head, x.tsn]) + body, want)
                try:
                    return (await asyncio.wait_for(f, 25 if x.step else 120))
                except asyncio.TimeoutError:
                    d.label("asked again")
                finally:
                    x.waiting.clear()
            check(False, "0x%04x got no answer to %d requests on cluster 0x%04x", x.nwk, TRIES,
                  cluster)

        async def firmware(x, size):
            key = zigpy.ota.image.ImageKey(x.manufacturer, x.kind)
            image = images.get(key)
            ident = struct.pack("<HH", x.manufacturer, x.kind)
            new = image is not None and x.version < image.version
            want = b"\x02" + (b"\x00" + ident + struct.pack(
                "<II", image.version, image.header.image_size) if new else b"\x98")
            await transact(x, OTA, 0x01, b"\x01\x00" + ident + struct.pack("<I", x.version),
                           exactly(0x19, want))
            if not new:
                return
            raw, got = image.serialize(), b""
            while len(got) < len(raw):
                ask = b"\x03\x00" + ident + struct.pack("<IIB", image.version, len(got), size)
                part = raw[len(got):len(got) + min(size, 40)]
                data = await transact(x, OTA, 0x01, ask, exactly(0x19, b"\x05\x00" + ident +
                                      struct.pack("<IIB", image.version, len(got), len(part)) +
                                      part))
                d.nontrivial("firmware")
                got += data[3 + 14:]
            check(got == raw, "0x%04x fetched another image than was offered", x.nwk)
            await transact(x, OTA, 0x01, b"\x06\x00" + ident + struct.pack("<I", image.version),
                           exactly(0x19, b"\x07" + ident + struct.pack("<III", image.version,
                                                                       0, 0)))
            x.version = image.version

        def exactly(head, body):
            return lambda tsn, data: data == bytes([head, tsn]) + body

        def clock(attrs):
            def fits(tsn, data):
                if data[:3] != bytes([0x18, tsn, 1]):
                    return False
                data = data[3:]
                for a in sorted(set(attrs), key=attrs.index):
                    if data[:2] != struct.pack("<H", a):
                        return False
                    if a not in (0, 1, 2, 7):
                        if data[2] == 0:
                            return False
                        data = data[3:]
                        continue
                    n = 1 if a == 1 else 4
                    if data[2] != 0 or len(data) < 4 + n:
                        return False
                    value = int.from_bytes(data[4:4 + n], "little")
                    now = time.time() - 946684800
                    if a == 1 and value != 7 or a == 0 and abs(value - now) > 40000 or \
                            a == 7 and abs(value - now) > 130000:
                        return False
                    data = data[4 + n:]
                return not data
            return fits

        def confirmed(tsn, data):
            return data[0] in (0x10, 0x18) and data[1:] == bytes([tsn, 0x0B, 0x0A, 0])

        async def live(x):
            for job in x.jobs:
                await asyncio.sleep(job[0])
                if job[1] == "firmware":
                    await firmware(x, job[2])
                elif job[1] == "time":
                    attrs = job[2]
                    await transact(x, TIME, 0x00, b"\x00" + b"".join(
                        struct.pack("<H", a) for a in attrs), clock(attrs))
                else:
                    _, _, cluster, value, confirm = job
                    while not (world.live() and app._api is not None):
                        await asyncio.sleep(5)
                    head = 0x08 if confirm else 0x18
                    record = b"\x0A\x00\x00" + (bytes([0x10, value & 1]) if cluster == ONOFF
                                                else bytes([0x20, value]))
                    if confirm:
                        await transact(x, cluster, head, record, confirmed)
                    else:
                        x.tsn = (x.tsn + x.step) & 255
                        send(x, cluster, bytes([head, x.tsn]) + record, None)
                        await asyncio.sleep(0.05)
                        if lost_at and loop.t - lost_at[-1] < 30:
                            continue
                    x.values[cluster] = value & 1 if cluster == ONOFF else value
                    have = x.dev.endpoints[x.ep].in_clusters[cluster].get(0)
                    check(have == x.values[cluster], "0x%04x reported %r and zigpy has %r",
                          x.nwk, x.values[cluster], have)

        async def using():
            out = []
            for n, (gap, x, data) in enumerate(users):
                await asyncio.sleep(gap)
                data = bytes([0x01, 200 + n, 2]) + data
                out.append((x.nwk, data))
                try:
                    await app.request(x.dev, 260, ONOFF, x.ep, x.ep, 200 + n, data,
                                      expect_reply=False)
                except Exception as e:
                    check(lost_at, "a user's request raised %r", e)
            return out

        async def losing():
            for gap in losses:
                await asyncio.sleep(gap)
                for p in world.live():
                    lost_at.append(loop.t)
                    p.lose(OSError("gone"))
                await asyncio.sleep(10)

        tasks = [asyncio.ensure_future(t) for t in [live(x) for x in devs] + [using(), losing()]]
        _, pending = await asyncio.wait(tasks, timeout=12000)
        check(not pending, "devices still wait for answers")
        for t in tasks:
            t.result()
        await asyncio.sleep(40)
        left = list(answers)
        served = set()

        def excused(a):
            return any(a[0] - 30 < t < a[0] + 60 for t in lost_at)

        for a in sorted(asked, key=excused):
            (at, x, cluster, tsn, want), maybe = a, excused(a)
            mine = [m for m in left if m[0] == x.nwk and m[3] == cluster and m[4] == tsn]
            hits = [m for m in mine if want is not None and want(tsn, m[5])]
            if want is None:
                continue
            check(hits or maybe, "0x%04x asked on cluster 0x%04x with transaction %d and was "
                  "sent %r", x.nwk, cluster, tsn, mine)
            if hits:
                left.remove(hits[0])
                check(hits[0][1] == x.ep and hits[0][2] == x.ep, "the answer to endpoint %d went "
                      "from %d to %d", x.ep, hits[0][2], hits[0][1])
                served.add(x.nwk)
        check(not left, "answers nobody asked for: %r", left)
        if len(served) > 1:
            d.nontrivial()
        sent = tasks[-2].result()
        check(sorted(users_sent) == sorted(sent) or lost_at, "the user sent %r, transmitted "
              "were %r", sent, users_sent)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main, sim.Ncp(product), max_time=30000.0)


PARTS = [Part("requests", requests, quick=300, thorough=20000)]
