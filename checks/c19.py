"""C19: nothing but messages and announcements reaches devices."""

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.types import Subsystem

from . import common

TECHNIQUE = "property-based testing of the dispatch over every command, with histories"
RULE = ("A case is a device table and a sequence of frames that are neither messages from "
        "known devices nor announcements: every command of the MT table as every frame "
        "type, with generated payloads whose addresses often name known devices; "
        "non-trivial when a payload names a known device. Distinct: by frame or choice "
        "sequence.")
ASSUMES = ["Messages come after startup, when the firmware generation is known."]
ANN = mt.cmd("ZDO", "endDeviceAnnceInd")
MSG = mt.cmd("AF", "incomingMsg")
EXT = mt.cmd("AF", "incomingMsgExt")
LED_CAUSES = (("ZDO", "permitJoinInd"), ("ZDO", "mgmtPermitJoinRsp"))
TABLE = {b"\x01" * 8: 0x0001, bytes(range(8)): 0x1234, b"\xfe" * 8: 0xFEFE,
         b"\x01" + b"\x00" * 7: 0x0002}
COMMANDS = [(c, t) for c in mt.COMMANDS for t in range(4)]


def gen_frame(d, c, typ):
    """A frame of any type for any command; None when it would be a legal message."""
    params = c.response if typ == mt.SRSP else c.request
    if typ == mt.AREQ and c is ANN:
        return None, None
    if params is None or not mt.decodable(params) or (
            d.bool(0.05) and (typ, c) not in ((mt.AREQ, MSG), (mt.AREQ, EXT))):
        return mt.frame(typ, c.ss, c.id, d.bytes(0, 40)), None
    v = mt.gen_payload(d, params, max_payload=100)
    known = d.bool(0.7)
    for name, t in params:
        if name in ADDR16 and isinstance(v[name], int):
            v[name] = d.choice(sorted(TABLE.values())) if known else \
                d.choice((0x0003, 0x3412, 0xFFFF, 0xFFFD))
        elif isinstance(v[name], bytes) and len(v[name]) == 8:
            v[name] = d.choice(sorted(TABLE)) if known else d.eui()
    if typ == mt.AREQ and c is MSG:
        v["srcaddr"] = d.choice((0x0003, 0x3412, 0xFFFF))
        known = False
    if typ == mt.AREQ and c is EXT:
        known = False
        if d.bool():
            v["srcaddrmode"], v["srcaddr"] = 3, b"\x02" * 8
        else:
            v["srcaddrmode"], v["srcaddr"] = 2, b"\x03\x00" + b"\x00" * 6
    if known:
        d.nontrivial()
    return mt.frame(typ, c.ss, c.id, mt.encode(params, v)), v


ADDR16 = {"srcaddr", "nwkaddr", "dstaddr", "shortaddr", "srcnwkaddr", "nwkaddrofinterest",
          "shortaddress", "devaddr", "parentaddr", "address", "src", "dest", "sourceaddr"}


def state(app):
    return {e.serialize(): (int(x.nwk), x.lqi, x.rssi, int(x.status), x.last_seen,
                            sorted(x.endpoints)) for e, x in app.devices.items()}


async def setup(world, product, latency=None):
    world.ncp.product = product
    app = await stack.started_app(world)
    for e, n in TABLE.items():
        stack.add_device(app, e, n)
    return app


def verify(app, world, before, causes, what, loop):
    check(not app.received, "%s: %r delivered to a device", what, app.received)
    check(not app.joins, "%s: join of %r reported", what, app.joins)
    check(state(app) == before, "%s: device table %r, was %r", what, state(app), before)
    led = [r for r in world.ncp.log if r.key == ("UTIL", "ledControl")]
    other = [r for r in world.ncp.log if r not in led]
    check(not other and not world.ncp.bad_frames and not world.ncp.noise,
          "%s: transmitted %r", what, other)
    allowed = causes if world.ncp.product != 1 else 0
    check(len(led) <= allowed and all(r.v["ledid"] == 3 for r in led),
          "%s: %d LED commands for %d join-state reports", what, len(led), allowed)
    errors = stack.loop_errors(loop)
    check(not errors, "%s: errors escaped into the event loop: %r", what, errors)


async def still_works(app, world):
    del world.ncp.log[:]
    v = {"groupid": 0, "clusterid": 6, "srcaddr": 0x1234, "srcendpoint": 1,
         "dstendpoint": 1, "wasbroadcast": 0, "linkquality": 9, "securityuse": 0,
         "timestamp": 0, "transseqnumber": 0, "len": 1, "data": b"\x05"}
    world.ncp.send(common.areq(MSG, v))
    await stack.settle()
    check([m.row for m in app.received] == [(0x1234, 6, 1, 1, b"\x05")],
          "a message from a known device afterwards arrived as %r", app.received)
    obj = await app._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
    check(obj.payload["capabilities"] == 0x0659, "link unusable afterwards")


def each(d, case):
    i, product, _ = case
    c, typ = COMMANDS[i]
    frames = [gen_frame(d, c, typ) for _ in range(4)]
    frames = [f for f in frames if f[0] is not None]

    async def main(loop, world):
        app = await setup(world, product)
        before = state(app)
        causes = 0
        for raw, v in frames:
            d.show("%s as type %d: %s", c, typ, raw.hex())
            world.ncp.send(raw)
            causes += typ == mt.AREQ and (c.ss_name, c.name) in LED_CAUSES
        await stack.settle(0.3)
        verify(app, world, before, causes, "%s as type %d" % (c, typ), loop)
        await still_works(app, world)

    if frames:
        stack.scenario(main)


def sweep(tier):
    reps = 1 if tier == "quick" else 60
    return [[i, (i + r) % 3, r] for r in range(reps) for i in range(len(COMMANDS))]


def histories(d):
    product = d.int(0, 2)
    frames = []
    for _ in range(d.int(1, 25)):
        k = d.weighted(4, 2, 1)
        if k == 0:
            c, typ = d.choice(common.AREQS), mt.AREQ
        elif k == 1:
            c, typ = d.choice(COMMANDS)
        else:
            c, typ = mt.cmd(*d.choice(LED_CAUSES)), mt.AREQ
        raw, v = gen_frame(d, c, typ)
        if raw is not None:
            frames.append((c, typ, raw))
            d.show("%s as type %d: %s", c, typ, raw.hex())
    split = d.bool()
    pace = d.choice((0.0, 0.0, 0.01, 1.0))

    async def main(loop, world):
        import asyncio
        app = await setup(world, product)
        if split:
            world.ncp.splitter = d.chunks
        before = state(app)
        causes = 0
        for c, typ, raw in frames:
            world.ncp.send(raw)
            causes += typ == mt.AREQ and (c.ss_name, c.name) in LED_CAUSES
            if pace:
                await asyncio.sleep(pace)
        await stack.settle(1)
        verify(app, world, before, causes, "product %d" % product, loop)
        await still_works(app, world)

    stack.scenario(main)


PARTS = [
    Part("every command and type", each, cases=sweep),
    Part("histories", histories, quick=1200, thorough=40000),
]
