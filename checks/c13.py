"""C13: a unicast message is transmitted exactly as zigpy asked."""
import asyncio

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.types import Subsystem

from . import common

TECHNIQUE = "property-based testing against a simulated coordinator"
RULE = ("A case is 1-5 unicast requests with generated profile, cluster, endpoints, "
        "transaction number, data, target address and coordinator status, sequential or "
        "concurrent, on a free or busy port; every case is non-trivial. Distinct: by the "
        "full choice sequence.")
ASSUMES = ["The coordinator answers the data request within 6 s."]
PROFILES = (0x0104, 0xC05E, 0xA1E0, 0x0101, 0x0107, 0xFFFF, 0x0001)


def gen(d):
    n = d.int(0, 230) if d.bool(0.15) else d.int(0, 90)
    profile = d.choice(PROFILES) if d.bool(0.8) else d.int(1, 0xFFFF)
    return dict(nwk=d.int(0, 0xFFFF), profile=profile, cluster=d.u16(), src_ep=d.u8(),
                dst_ep=d.u8(), sequence=d.u8(), data=d.bytes(n, n),
                expect_reply=d.bool(), use_ieee=d.bool(0.2),
                status=0 if d.bool(0.6) else d.int(1, 255))


def unicast(d):
    reqs = [gen(d) for _ in range(d.int(1, 5))]
    together = d.bool()
    busy = d.choice((0, 0, 0, 3.0, 15.0))
    delay = d.choice((0.0, 0.01, 2.0))
    product = d.int(0, 2)
    confirms = common.gen_confirms(d)
    for r in reqs:
        d.show("nwk=0x%04x profile=0x%04x cluster=0x%04x %d->%d tsn=%d data[%d] status=%d "
               "reply=%s", r["nwk"], r["profile"], r["cluster"], r["src_ep"], r["dst_ep"],
               r["sequence"], len(r["data"]), r["status"], r["expect_reply"])
        if r["status"]:
            d.label("refused by the coordinator")
        if r["profile"] != 0x0104:
            d.label("profile other than HA")
    if busy:
        d.label("port busy for %g s" % busy)
    d.nontrivial("concurrent" if together and len(reqs) > 1 else "sequential")

    async def main(loop, world):
        world.ncp.product = product
        world.ncp.confirms = confirms
        app = await stack.started_app(world)
        ncp = world.ncp
        pending = list(reqs)

        def hook(req):
            if req.name == "startupFromApp":
                return [(busy, mt.build("ZDO", "startupFromApp", typ=mt.SRSP, status=0))]
            if req.name != "dataRequest" or not pending:
                return "drop"
            st = pending.pop(0)["status"]
            out = [(delay, ncp.status(req, st)[1])]
            if st == 0:
                v = req.v
                out.append((delay + 0.01, mt.build(
                    "AF", "dataConfirm", status=0, endpoint=v["srcendpoint"],
                    transid=v["transid"])))
            return out

        ncp.hook = hook
        devices = {}
        for r in reqs:
            if r["nwk"] not in devices:
                devices[r["nwk"]] = stack.add_device(
                    app, bytes([0x55, len(devices)] + [7] * 6), r["nwk"])
        if busy:
            other = asyncio.ensure_future(app._api.request(
                Subsystem.ZDO, "startupFromApp", {"startdelay": 1}))
            await asyncio.sleep(0.01)

        async def one(r):
            return await app.request(
                devices[r["nwk"]], r["profile"], r["cluster"], r["src_ep"], r["dst_ep"],
                r["sequence"], r["data"], expect_reply=r["expect_reply"],
                use_ieee=r["use_ieee"])

        if together:
            results = await asyncio.gather(*[one(r) for r in reqs])
        else:
            results = []
            for r in reqs:
                results.append(await one(r))
        if busy:
            await other
        await asyncio.sleep(15)
        sent = [r.raw for r in ncp.log if r.name != "startupFromApp"]
        want = [mt.build("AF", "dataRequest", dstaddr=r["nwk"], destendpoint=r["dst_ep"],
                         srcendpoint=r["src_ep"], clusterid=r["cluster"],
                         transid=r["sequence"], options=0, radius=30,
                         len=len(r["data"]), data=r["data"]) for r in reqs]
        check(len(sent) == len(want), "%d frames sent for %d requests: %s", len(sent),
              len(want), [x.hex() for x in sent])
        for r, a, b in zip(reqs, sent, want):
            check(a == b, "sent %s, expected %s for %r", a.hex(), b.hex(), r)
        for r, res in zip(reqs, results):
            check(int(res[0]) == r["status"], "coordinator status %d reported as %r",
                  r["status"], res)

    stack.scenario(main)


def every_status(d, status):
    d.nontrivial()
    d.show("status %d", status)
    reply = d.bool()

    async def main(loop, world):
        app = await stack.started_app(world)
        dev = stack.add_device(app, b"\x09" * 8, 0x1234)
        world.ncp.hook = lambda req: [world.ncp.status(req, status)]
        res = await app.request(dev, 260, 6, 1, 1, status, b"\x01\x02", expect_reply=reply)
        check(int(res[0]) == status, "coordinator status %d reported as %r", status, res)

    stack.scenario(main)


PARTS = [
    Part("every status", every_status, cases=list(range(256))),
    Part("unicast requests", unicast, quick=2200, thorough=60000),
]
