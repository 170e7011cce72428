"""C35: two adapters in one process do not disturb each other."""
import asyncio

from harness import mt, sim, stack
from harness.engine import Part, check

from . import common, net, zdo
from .c16 import OPS, gen_reply

TECHNIQUE = "metamorphic property-based testing: each application alone against both at once"
RULE = ("A case is two applications on two ports, each with its own firmware generation, "
        "configuration and history (startup, unicast, group, broadcast, ZDO, "
        "permit and raw requests, some refused or given up, replies, messages, "
        "announcements, join reports, silent adapters, loss of the port, shutdown) at generated times; each history is run alone and both "
        "together, and bytes written, messages delivered and results, with their times, "
        "must be the same; non-trivial when both are active at the same time. Distinct: "
        "by the full choice sequence.")
ASSUMES = ["The two adapters hang on different ports."]
PORTS = ("/dev/null", "/dev/zero")
MSG = mt.cmd("AF", "incomingMsg")
ANN = mt.cmd("ZDO", "endDeviceAnnceInd")


def gen_life(d, which):
    life = {"product": d.int(0, 2), "conf": net.gen_conf(d, 0.4)[0],
            "form": d.bool(0.5), "start": d.choice((0.0, 0.0, 0.5, 3.0)),
            "latency": d.choice((0.001, 0.001, 0.1)), "chunk": d.choice((0, 0, 1, 3)),
            "ieee": d.eui()}
    steps = []
    for _ in range(d.int(1, 10)):
        t = d.choice((0.0, 0.0, 0.01, 0.2, 1.0)) + 0.001 * d.int(0, 20)
        k = d.weighted(3, 3, 2, 3, 3, 2, 1, 1, 1, 1, 1, 2, 1, 1)
        nwk = d.choice((0x1234, 0x0001))  # the same addresses on both networks
        tsn = d.choice((0, 1, 7, 255))
        if k == 0:
            s = ("unicast", nwk, d.u16(), tsn, d.bytes(0, 20))
        elif k == 1:
            s = ("group", d.int(0, 3), d.u16(), tsn, d.bytes(0, 20))
        elif k == 2:
            s = ("broadcast", tsn, d.bytes(0, 20))
        elif k == 3:
            op = d.choice(OPS)
            _, cmd, args, _, _ = zdo.gen(d, nwk, (op,))
            s = ("zdo", nwk, cmd, args, tsn)
            steps.append((t, s))
            t = d.choice((0.0, 0.05, 0.5))
            s = ("send", "reply", gen_reply(d, op, nwk)[0])
        elif k == 4:
            v = mt.gen_payload(d, MSG.request, max_payload=40)
            v["srcaddr"], v["srcendpoint"] = nwk, v["srcendpoint"] or 1
            s = ("send", "message", common.areq(MSG, v))
        elif k == 5:
            op = d.choice(OPS)
            s = ("send", "reply", gen_reply(d, op, nwk)[0])
        elif k == 6:
            s = ("send", "announcement", common.areq(ANN, {
                "srcaddr": 0x77, "nwkaddr": d.choice((0x77, 0x1234)), "capabilities": 0,
                "ieeeaddr": d.choice((b"\x20" * 8, b"\x21" * 8))}))
        elif k == 7:
            s = ("send", "join report", mt.build("ZDO", "permitJoinInd",
                                                 duration=d.choice((0, 60))))
        elif k == 8:
            s = ("permit", d.int(0, 254))
        elif k == 9:
            s = ("deaf", d.choice((0.5, 7.0)))
        elif k == 11:
            c = d.choice(common.SREQS)
            s = ("raw", c, common.gen_args(d, c))
        elif k == 12:
            s = ("refuse", d.int(1, 255), d.choice((0.05, 1.0)))
        elif k == 13:
            s = ("give up",)
        else:
            s = (d.choice(("lose", "shutdown")),)
        steps.append((t, s))
    life["steps"] = steps
    d.show("adapter %d: product %d, start %.1f, %s", which, life["product"], life["start"],
           "; ".join("+%.3f %s" % (t, " ".join(str(x) for x in s[:2])) for t, s in steps))
    return life


async def raw(app, cmd, args):
    res = await app._api.request(cmd.ss, cmd.name, args)
    return (0, None) if res is None else str(sorted(res.payload.items()))


async def live(loop, world, life, which, ncp, trace):
    """One application's life; everything observable goes to its trace."""
    def note(*what):
        trace.append((round(loop.t, 6),) + what)

    async def outcome(label, coro):
        try:
            res = await coro
            note(label, None if res is None else int(res[0]) if isinstance(res, tuple)
                 else repr(res))
        except asyncio.CancelledError:
            raise
        except Exception as e:
            note(label, type(e).__name__, str(e))

    await asyncio.sleep(life["start"])
    app = stack.App(stack.app_config({"path": PORTS[which]}, life["conf"]))
    app.pass_on = app.pass_join = False
    app.refuse = life.get("upset")
    app.refuse_join = life.get("upset join")
    await outcome("startup", app.startup(life["form"]))
    for nwk, ieee in ((0x1234, b"\x20" * 8), (0x0001, b"\x21" * 8)):
        stack.add_device(app, ieee, nwk)
    tasks = []

    def go(label, coro):
        tasks.append(asyncio.ensure_future(outcome(label, coro)))

    def device(nwk):
        try:
            return app.get_device(nwk=nwk)
        except KeyError:
            return None

    down = False
    for t, s in life["steps"]:
        await asyncio.sleep(t)
        if s[0] == "send":
            if ncp.port.open:
                ncp.send(s[2])
        elif s[0] == "unicast":
            if device(s[1]):
                go("unicast", app.request(device(s[1]), 260, s[2], 1, 2, s[3], s[4]))
        elif s[0] == "group":
            go("group", app.mrequest(s[1], 260, s[2], 1, s[3], s[4]))
        elif s[0] == "broadcast":
            go("broadcast", app.broadcast(260, 6, 1, 1, 0, 3, s[1], s[2]))
        elif s[0] == "zdo":
            dev = device(s[1])
            if dev:
                go("zdo", app.request(dev, 0, s[2], 0, 0, s[4], bytes([s[4]]) +
                                      dev.zdo._serialize(s[2], *s[3])))
        elif s[0] == "permit":
            go("permit", app.permit_ncp(s[1]))
        elif s[0] == "deaf":
            ncp.dead = True
            loop.call_later(s[1], setattr, ncp, "dead", False)
        elif s[0] == "raw":
            if not down:
                go("raw", raw(app, s[1], s[2]))
        elif s[0] == "refuse":
            ncp.hook = lambda req, st=s[1]: (
                [ncp.status(req, st)] if req.typ == mt.SREQ and req.cmd is not None
                and mt.decodable(req.cmd.response) else None)
            loop.call_later(s[2], setattr, ncp, "hook", None)
        elif s[0] == "give up":
            if tasks:
                tasks[-1].cancel()
        elif s[0] == "lose":
            if not down:
                ncp.port.lose(OSError("gone"))
        elif not down:
            down = True
            await outcome("shutdown", app.shutdown())
    await asyncio.sleep(90)
    await outcome("shutdown", app.shutdown())
    for t in tasks:
        await asyncio.wait([t], timeout=60)
        note("task", t.done())
    await asyncio.sleep(20)
    for p in world.ports:
        if p.ncp is ncp:
            trace.append(("port", p.url, round(p.opened_at, 6),
                          p.closed_at and round(p.closed_at, 6), p.close_calls > 0,
                          [(round(t, 6), b.hex()) for t, b in p.written],
                          [(round(t, 6), b.hex()) for t, b in p.late_writes]))
    trace.append(("received", [(round(m.t, 6),) + m.row + (m.lqi,) for m in app.received]))
    trace.append(("joins", app.joins))
    trace.append(("network", ncp.formed, sorted(ncp.endpoints), ncp.resets))
    trace.append(("devices", sorted((e.serialize().hex(), int(x.nwk))
                                    for e, x in app.devices.items())))


def make_ncp(life):
    ncp = sim.Ncp(life["product"], ieee=life["ieee"])
    ncp.latency = life["latency"]
    n = life["chunk"]
    if n:
        ncp.splitter = lambda raw: [raw[i:i + n] for i in range(0, len(raw), n)]
    return ncp


def run(lives, errors=None):
    """The traces of these lives ({which: life}) led at the same time."""
    traces = {w: [] for w in lives}
    ncps = {w: make_ncp(l) for w, l in lives.items()}

    async def main(loop, world):
        for w, n in ncps.items():
            n.world = world
            world.by_url[PORTS[w]] = n
        await asyncio.gather(*[live(loop, world, l, w, ncps[w], traces[w])
                               for w, l in lives.items()])
        if errors is not None:
            errors.extend(stack.loop_errors(loop))

    stack.scenario(main, sim.Ncp())
    return traces


def both(d):
    lives = {0: gen_life(d, 0), 1: gen_life(d, 1)}
    d.nontrivial()
    together = run(lives)
    for w in lives:
        alone = run({w: lives[w]})[w]
        for a, b in zip(alone, together[w]):
            check(a == b, "adapter %d: alone %r, beside another one %r", w, a, b)
        check(len(alone) == len(together[w]), "adapter %d: alone %r, beside another %r", w,
              alone, together[w])


PARTS = [Part("two adapters", both, quick=250, thorough=15000)]
