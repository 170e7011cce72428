"""C15: ZDO requests from zigpy become the equivalent MT command."""
import asyncio

import zigpy.types as zt
import zigpy.zdo
import zigpy.zdo.types as zz
from harness import mt, stack
from harness.engine import Part, check

from . import zdo

TECHNIQUE = "property-based testing against a simulated coordinator and reference codec"
RULE = ("A case is 1-5 ZDO operations with generated targets, arguments, transaction "
        "numbers and coordinator statuses, made through zigpy's ZDO object or the "
        "application's request(), sequentially; every case is non-trivial. Distinct: by "
        "the full choice sequence.")
ASSUMES = ["The endpoint byte of a group bind target has no meaning and is not compared.",
           "NWK_addr_req / IEEE_addr_req and the caching and direct-join operations are "
           "not used by zigpy 0.25 and are outside the property.",
           "Binding-table requests: zigpy 0.25 defines no such ZDO request; they are made "
           "as raw requests."]


def one_op(d):
    nwk = d.int(0, 0xFFF7)
    if d.bool(0.05):  # zigpy has no constructor for it: raw request
        s = d.u8()
        return nwk, ("bindtable", 0x0033, bytes([s]), "mgmtBindReq",
                     {"dstaddr": nwk, "startindex": s})
    return nwk, zdo.gen(d, nwk)


def requests(d):
    ops = []
    for _ in range(d.int(1, 5)):
        nwk, op = one_op(d)
        ops.append((nwk, op, d.u8(), d.int(0, 2), 0 if d.bool(0.7) else d.int(1, 255),
                    d.bool()))
        d.show("to 0x%04x %s %r", nwk, op[3], op[4])
        d.nontrivial(op[0])
        if op[4].get("dstaddrmode") == 1:
            d.label("group bind target")

    async def main(loop, world):
        app = await stack.started_app(world)
        ncp = world.ncp
        status = []
        ncp.hook = lambda req: [ncp.status(req, status[0])] if req.cmd else "drop"
        for i, (nwk, (op, cmd, args, name, fields), tsn, via, st, reply) in enumerate(ops):
            dev = stack.add_device(app, bytes([0x20, i] + [3] * 6), nwk)
            status[:] = [st]
            del ncp.log[:]
            raw = isinstance(args, bytes)
            if via == 0 and not raw:
                task = asyncio.ensure_future(getattr(dev.zdo, cmd.name)(*args))
                await asyncio.sleep(0.1)
                task.cancel()
                await asyncio.wait([task])
            else:
                body = args if raw else dev.zdo._serialize(cmd, *args)
                res = await app.request(dev, 0, cmd, 0, 0, tsn, bytes([tsn]) + body,
                                        expect_reply=reply)
                check(int(res[0]) == st, "%s: coordinator status %d reported as %r", name,
                      st, res)
            check(len(ncp.log) == 1, "%s %r: %d commands sent: %r", name, fields,
                  len(ncp.log), ncp.log)
            check(zdo.same(ncp.log[0], name, fields), "%s %r was sent as %r", name,
                  fields, ncp.log[0])

    stack.scenario(main)


def broadcasts(d):
    t, s, radius = d.u8(), d.int(0, 1), d.u8()
    st = 0 if d.bool(0.7) else d.int(1, 255)
    k = d.int(0, 3)
    tsn = d.int(1, 256)
    d.show("permit %d s tc=%d status %d", t, s, st)
    d.nontrivial()

    async def main(loop, world):
        app = await stack.started_app(world)
        ncp = world.ncp
        ncp.hook = lambda req: [ncp.status(req, st)]
        for _ in range(tsn - 1):
            app.get_sequence()
        addr = zt.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR
        if k == 0:
            res = await app.broadcast(0, 0x36, 0, 0, 0, radius, tsn & 255,
                                      bytes([tsn & 255, t, s]), addr)
        else:
            res = await zigpy.zdo.broadcast(
                app, zz.ZDOCmd.Mgmt_Permit_Joining_req, 0, radius, t, s,
                broadcast_address=addr)
        check(int(res[0]) == st, "coordinator status %d reported as %r", st, res)
        want = dict(addrmode=15, dstaddr=0xFFFC, duration=t, tcsignificance=s)
        check(len(ncp.log) == 1 and zdo.same(ncp.log[0], "mgmtPermitJoinReq", want),
              "broadcast permit %r sent as %r", want, ncp.log)

    stack.scenario(main)


NOT_OFFERED = [c for c in zz.ZDOCmd if (5, int(c)) not in mt.BY_ID]


def unsupported(d):
    """ZDO responses and operations without MT equivalent: refused, nothing sent."""
    c = d.choice(NOT_OFFERED)
    tsn, body, reply, k = d.u8(), d.bytes(0, 30), d.bool(), d.int(0, 1)
    d.show("%s %s", c, body.hex())
    d.nontrivial()

    async def main(loop, world):
        app = await stack.started_app(world)
        dev = stack.add_device(app, b"\x09" * 8, 0x1234)
        try:
            if k:
                res = await app.request(dev, 0, c, 0, 0, tsn, bytes([tsn]) + body,
                                        expect_reply=reply)
            else:
                res = await app.broadcast(0, c, 0, 0, 0, 0, tsn, bytes([tsn]) + body)
        except Exception:
            pass
        else:
            check(int(res[0]) != 0, "%s reported success: %r", c, res)
        await asyncio.sleep(1)
        check(world.ncp.log == [], "%s caused %r", c, world.ncp.log)
        # and the stack still works
        world.ncp.hook = lambda req: [world.ncp.status(req, 0)]
        await app.request(dev, 260, 6, 1, 1, 1, b"\x01", expect_reply=False)
        check(len(world.ncp.log) == 1, "the stack is blocked afterwards")

    stack.scenario(main)


PARTS = [
    Part("requests", requests, quick=2500, thorough=80000),
    Part("permit broadcasts", broadcasts, quick=500, thorough=10000),
    Part("no MT equivalent", unsupported, quick=500, thorough=10000),
]
