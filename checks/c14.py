"""C14: group and broadcast messages are transmitted exactly as zigpy asked."""
import asyncio

import zigpy.types as zt
from harness import mt, stack
from harness.engine import Part, check

from . import common

from .c13 import PROFILES

TECHNIQUE = "property-based testing against a simulated coordinator"
RULE = ("A case is 1-4 group or broadcast requests with generated destination, profile, "
        "cluster, endpoints, hop limit, transaction number, data and coordinator status, "
        "sequential or concurrent; every case is non-trivial. Distinct: by the full choice "
        "sequence.")
ASSUMES = ["Destination PAN id and options are 0, as for every data request here."]
BROADCAST = (0xFFFF, 0xFFFD, 0xFFFC, 0xFFFB)


def gen(d):
    n = d.int(0, 230) if d.bool(0.15) else d.int(0, 90)
    r = dict(kind=("group", "broadcast")[d.int(0, 1)], cluster=d.u16(),
             profile=d.choice(PROFILES) if d.bool(0.8) else d.int(1, 0xFFFF),
             sequence=d.u8(), data=d.bytes(n, n),
             status=0 if d.bool(0.6) else d.int(1, 255))
    if r["kind"] == "group":
        r["group"] = d.u16()
        r["src_ep"] = d.choice((None, 0)) if d.bool(0.25) else d.u8()
        r["hops"] = None if d.bool(0.2) else 0 if d.bool(0.2) else d.u8()
        r["nmr"] = None if d.bool() else d.u8()
    else:
        r["addr"] = None if d.bool(0.2) else d.choice(BROADCAST)
        r["src_ep"], r["dst_ep"], r["radius"] = d.u8(), d.u8(), d.u8()
        r["grpid"] = d.u16()
    return r


def wanted(r):
    if r["kind"] == "group":
        mode, dst, dep = 1, r["group"], 255
        sep = r["src_ep"] or 1
        radius = r["hops"] or 30
    else:
        mode, dst, dep = 2, r["addr"] or 0xFFFD, r["dst_ep"]
        sep, radius = r["src_ep"], r["radius"]
    return mt.build("AF", "dataRequestExt", dstaddrmode=mode,
                    dstaddr=dst.to_bytes(8, "little"), destendpoint=dep, dstpanid=0,
                    srcendpoint=sep, clusterid=r["cluster"], transid=r["sequence"],
                    options=0, radius=radius, len=len(r["data"]), data=r["data"])


async def issue(app, r):
    if r["kind"] == "group":
        kw = {}
        if r["hops"] is not None:
            kw["hops"] = r["hops"]
        if r["nmr"] is not None:
            kw["non_member_radius"] = r["nmr"]
        return await app.mrequest(r["group"], r["profile"], r["cluster"], r["src_ep"],
                                  r["sequence"], r["data"], **kw)
    kw = {} if r["addr"] is None else {
        "broadcast_address": zt.BroadcastAddress(r["addr"])}
    return await app.broadcast(r["profile"], r["cluster"], r["src_ep"], r["dst_ep"],
                               r["grpid"], r["radius"], r["sequence"], r["data"], **kw)


def spread(d):
    reqs = [gen(d) for _ in range(d.int(1, 4))]
    together = d.bool()
    product = d.int(0, 2)
    confirms = common.gen_confirms(d)
    for r in reqs:
        d.show("%r", {k: (v.hex() if isinstance(v, bytes) else v) for k, v in r.items()})
        d.nontrivial(r["kind"])
        if r["status"]:
            d.label("refused by the coordinator")

    async def main(loop, world):
        world.ncp.product = product
        world.ncp.confirms = confirms
        app = await stack.started_app(world)
        ncp = world.ncp
        pending = list(reqs)
        ncp.hook = lambda req: [ncp.status(req, pending.pop(0)["status"])] if pending \
            else "drop"
        if together:
            results = await asyncio.gather(*[issue(app, r) for r in reqs])
        else:
            results = [await issue(app, r) for r in reqs]
        await asyncio.sleep(15)
        sent = [r.raw for r in ncp.log]
        check(len(sent) == len(reqs), "%d frames sent for %d requests: %s", len(sent),
              len(reqs), [x.hex() for x in sent])
        for r, a in zip(reqs, sent):
            check(a == wanted(r), "sent %s, expected %s for %r", a.hex(),
                  wanted(r).hex(), r)
        for r, res in zip(reqs, results):
            check(int(res[0]) == r["status"], "coordinator status %d reported as %r",
                  r["status"], res)

    stack.scenario(main)


PARTS = [Part("group and broadcast requests", spread, quick=2500, thorough=80000)]
