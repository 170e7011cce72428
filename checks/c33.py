"""C33: startup identifies the coordinator it is connected to."""
import asyncio

from harness import mt, sim, stack
from harness.engine import Part, check

from . import common

TECHNIQUE = "model-based property-based testing of startup with fault injection"
RULE = ("A case is a coordinator (address, network address, firmware generation, version "
        "fields, associated devices), unrelated traffic during startup, with or without "
        "network forming, or an adapter that leaves one of the identification requests "
        "unanswered, answers it too late or refuses it, perhaps followed by another "
        "startup with another adapter; non-trivial always. Distinct: by the full choice "
        "sequence.")
ASSUMES = ["A ping has no status to refuse it with: refusing it means not answering."]
AVOID = (("SYS", "resetInd"), ("AF", "incomingMsg"), ("AF", "incomingMsgExt"),
         ("ZDO", "endDeviceAnnceInd"), ("ZDO", "permitJoinInd"), ("ZDO", "activeEpRsp"),
         ("ZDO", "mgmtPermitJoinRsp"), ("ZDO", "stateChangeInd"))
IDENT = ("ping", "version", "getDeviceInfo")


def gen_ncp(d):
    ncp = sim.Ncp(d.int(0, 2), ieee=d.eui())
    ncp.version = dict(transportrev=d.u8(), majorrel=d.u8(), minorrel=d.u8(),
                       maintrel=d.u8(), revision=d.u32())
    ncp.short = 0 if d.bool(0.7) else d.u16()
    assoc = [d.u16() for _ in range(d.int(0, 8))] if d.bool(0.4) else []
    state = d.int(0, 10) if d.bool(0.3) else 0
    caps = d.u16()
    ncp.state = state
    ncp.extra[("SYS", "ping")] = lambda req: [ncp.srsp(req, capabilities=caps)]
    ncp.extra[("UTIL", "getDeviceInfo")] = lambda req: [ncp.srsp(
        req, status=0, ieeeaddr=ncp.ieee, shortaddr=ncp.short, devicetype=7,
        devicestate=ncp.state, numassocdevices=len(assoc), assocdeviceslist=assoc)]
    return ncp


def verify(app, ncp):
    check(app.ieee is not None and app.ieee.serialize() == ncp.ieee,
          "reports IEEE %r, coordinator is %s", app.ieee, ncp.ieee.hex())
    check(int(app.nwk) == ncp.short, "reports address %r, coordinator has 0x%04x", app.nwk,
          ncp.short)
    dev = app.devices.get(app.ieee)
    check(dev is not None and dev.ieee.serialize() == ncp.ieee and
          int(dev.nwk) == ncp.short, "coordinator listed as %r",
          dev and (dev.ieee, dev.nwk))
    check(app.get_device(ieee=app.ieee) is dev, "get_device finds another")
    want = dict(ncp.version, product=ncp.product)
    got = {k: int(v) for k, v in app.version.items()}
    check(got == want, "version %r, reported by the adapter %r", got, want)
    check({k: int(v) for k, v in app._api.protocol_version.items()} == want,
          "protocol version %r", app._api.protocol_version)
    names = [r.name for r in ncp.log]
    check(names[:2] == ["ping", "version"], "sent first: %r", names[:3])
    check(not ncp.bad_frames, "damaged frames sent: %r", ncp.bad_frames)


def startups(d):
    ncps = [gen_ncp(d) for _ in range(1 + d.weighted(3, 1, 1))]
    for n in ncps[1:]:
        if d.bool(0.5):  # the same adapter, perhaps with another firmware
            n.ieee = ncps[0].ieee
            d.label("the same adapter again")
    form = d.bool(0.3)
    noise = []
    for _ in range(d.int(0, 6) if d.bool(0.5) else 0):
        noise.append((d.choice((0.5, 0.9995, 1.0005, 1.0015, 1.0025, 1.0035)),
                      common.gen_areq(d, AVOID, 60)[2]))
    split = d.bool()
    for n in ncps:
        d.show("product %d, %s at 0x%04x, %r", n.product, n.ieee.hex(), n.short, n.version)
    d.nontrivial()

    async def main(loop, world):
        app = stack.make_app()
        for n in ncps:
            world.ncp = n
            n.world = world
            if split:
                n.splitter = d.chunks
            for t, raw in noise:
                loop.call_later(t, lambda n=n, raw=raw: world.live() and n.send(raw))
            await app.startup(form)
            verify(app, n)
            await app.shutdown()
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main, ncps[0])


def failures(d):
    ncp = gen_ncp(d)
    which = d.int(0, 2)
    kind = d.weighted(3, 2, 2, 2, 1)
    form = d.bool(0.3)
    status = d.int(1, 255)
    what = ("not answered", "answered too late", "answered by another command",
            "answered by an indication", "the port is lost")[kind]
    if which == 2 and d.bool():
        kind, what = 5, "refused with %d" % status
    after = d.bool(0.5)
    d.show("%s %s", IDENT[which], what)
    d.label("%s %s" % (IDENT[which], what.split(" with")[0]))
    d.nontrivial()
    foreign = common.gen_foreign_srsp(d, [mt.cmd("SYS", "ping"), mt.cmd("SYS", "version"),
                                          mt.cmd("UTIL", "getDeviceInfo")])[2]

    async def main(loop, world):
        seen = []

        def hook(req):
            if req.name != IDENT[which]:
                return None
            seen.append(req)
            if form and which == 2 and len(seen) < 2:
                return None if len(seen) < 2 and d.bool() else fail(req)
            return fail(req)

        def fail(req):
            if kind == 1:
                return [(6.05 + 0.2 * d.int(0, 50), reply) for _, reply in
                        ncp.respond(req)]
            if kind == 2:
                return [(0.001, foreign)]
            if kind == 3:
                (_, raw), = ncp.respond(req)
                return [(0.001, mt.frame(mt.AREQ, raw[2] & 31, raw[3], raw[4:-1]))]
            if kind == 4:
                world.port.lose(OSError("gone"))
                return "drop"
            if kind == 5:
                return [ncp.status(req, status)]
            return "drop"

        ncp.hook = hook
        app = stack.make_app()
        try:
            await asyncio.wait_for(app.startup(form), 200)
        except asyncio.TimeoutError:
            check(loop.t < 199, "startup hangs although %s was %s", IDENT[which], what)
        except Exception:
            pass
        else:
            check(not seen, "startup succeeded although %s was %s", IDENT[which], what)
        names = [r.name for r in ncp.log if r.port is world.ports[0]]
        check(names[:2] == ["ping", "version"][: 1 if which == 0 else 2],
              "sent %r although %s was %s", names, IDENT[which], what)
        if which < 2:
            check(len(names) == which + 1, "sent %r although %s was %s", names,
                  IDENT[which], what)
        await app.shutdown()
        if after:
            ncp.hook = None
            del ncp.log[:]
            await asyncio.sleep(20)
            await app.startup(form)
            verify(app, ncp)

    stack.scenario(main, ncp)


PARTS = [
    Part("startups", startups, quick=1100, thorough=60000),
    Part("failures", failures, quick=500, thorough=30000),
]
