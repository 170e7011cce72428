"""C37: every call ends within a bounded time."""
import asyncio

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.api import API
from zigpy_cc.types import CommandType, Subsystem

from . import common, zdo
from .c03 import bad_frame
from .c16 import OPS

TECHNIQUE = "property-based testing of liveness under generated adversarial adapter behaviour"
RULE = ("A case is 1 to 10 calls of every public kind (startup with and without forming, "
        "requests to devices, groups and everyone, ZDO requests, permits, raw requests, "
        "resets, waits, probes, shutdown) begun at generated times, some given up, while "
        "the adapter treats each frame by a generated plan (answer, ignore, refuse, answer "
        "late, twice, with another command's response, with garbage, acknowledge without "
        "result, disappear, refuse to open); non-trivial when the plan ignored, delayed or "
        "broke something. Distinct: by the full choice sequence.")
ASSUMES = ["Bounds: 120 s per call in progress for everything but startup, 4000 s for startup "
           "(the sum of all its time-outs); giving up takes no time at all."]
WAITS = (0.0, 0.0, 0.001, 0.02, 0.3, 1.5, 5.9, 6.0, 6.1, 31.0)
MOODS = ("answer", "ignore", "refuse", "late", "twice", "other", "garbage", "bare",
         "lose", "answer", "silent event")


STEPS = ("ping", "version", "resetReq", "osalNvRead", "osalNvWrite", "osalNvItemInit",
         "getDeviceInfo", "startupFromApp", "bdbStartCommissioning", "bdbSetChannel",
         "readConfiguration", "writeConfiguration", "activeEpReq", "register",
         "extFindGroup", "extAddGroup", "ledControl")


def gen_plan(d):
    """Reactions to the frames of the library, in order; then it repeats."""
    plan = gen_moods(d)
    victims = {}
    if d.bool(0.4):
        plan = [("answer", None)]
        for _ in range(d.int(1, 2)):
            victims[d.choice(STEPS)] = gen_moods(d)[0]
    return plan, victims


def gen_moods(d):
    bias = d.choice(MOODS)
    out = []
    for _ in range(d.int(1, 12)):
        m = bias if d.bool(0.4) else d.choice(MOODS)
        x = None
        if m == "late":
            x = d.choice((0.1, 2.0, 5.9, 5.999, 6.0, 6.001, 12.0, 29.0, 31.0))
        elif m == "refuse":
            x = d.int(1, 255)
        elif m == "other":
            x = common.gen_foreign_srsp(d, ())[2]
        elif m == "garbage":
            x = d.choice((bad_frame(d, d.int(0, 7)), d.bytes(1, 20)))
        out.append((m, x))
    if d.bool(0.4):
        # only some frames of a long exchange
        sane = [("answer", None)] * d.int(5, 60)
        for m in out[:3]:
            sane.insert(d.int(0, len(sane)), m)
        return sane
    return out


def gen_calls(d, startup):
    calls = []
    if d.bool(startup):
        calls.append((0.0, ("startup", True), None))
    for _ in range(d.int(1, 10)):
        t = d.choice(WAITS) + 0.001 * d.int(0, 3)
        k = d.weighted(4, 2, 2, 4, 2, 3, 1, 1, 1, 1, 1)
        tsn = d.u8()
        if k == 0:
            c = ("unicast", d.u16(), tsn, d.bytes(0, 20), d.bool(0.5))
        elif k == 1:
            c = ("group", d.u16(), tsn, d.bytes(0, 20))
        elif k == 2:
            c = ("broadcast", d.u16(), tsn, d.bytes(0, 20))
        elif k == 3:
            _, cmd, args, _, _ = zdo.gen(d, 0x1234, (d.choice(OPS),))
            c = ("zdo", cmd, args, tsn)
        elif k == 4:
            c = ("permit", d.int(0, 254))
        elif k == 5:
            cmd = d.choice(common.SREQS)
            c = ("raw", cmd, common.gen_args(d, cmd))
        elif k == 6:
            c = ("reset",)
        elif k == 7:
            c = ("wait", d.choice((1, 1000, 10000)))
        elif k == 8:
            c = ("probe",)
        elif k == 9:
            c = ("startup", d.bool(0.6))
        else:
            c = ("shutdown",)
        calls.append((t, c, d.choice(WAITS) if d.bool(0.2) else None))
    return calls


def make_call(app, dev, c):
    k = c[0]
    if k == "unicast":
        return app.request(dev, 260, c[1], 1, 1, c[2], c[3], c[4])
    if k == "group":
        return app.mrequest(3, 260, c[1], 1, c[2], c[3])
    if k == "broadcast":
        return app.broadcast(260, c[1], 1, 1, 0, 3, c[2], c[3])
    if k == "zdo":
        return app.request(dev, 0, c[1], 0, 0, c[3], bytes([c[3]]) +
                           dev.zdo._serialize(c[1], *c[2]))
    if k == "permit":
        return app.permit_ncp(c[1])
    if k == "raw":
        return app._api.request(c[1].ss, c[1].name, c[2])
    if k == "reset":
        return app._api.request(Subsystem.SYS, "resetReq", {"type": 1})
    if k == "wait":
        return app._api.wait_for(CommandType.AREQ, Subsystem.ZDO, "stateChangeInd",
                                 {"state": 3}, c[1]).wait()
    if k == "probe":
        return API.probe({"path": stack.PORT})
    if k == "startup":
        return app.startup(c[1])
    return app.shutdown()


def adversary(world, plan, victims, label):
    ncp = world.ncp
    turn = [0]

    def hook(req):
        mood, x = plan[turn[0] % len(plan)]
        turn[0] += 1
        mood, x = victims.get(req.name, (mood, x))
        if mood == "answer":
            return None
        label(mood)
        if mood == "ignore":
            return "drop"
        if mood == "bare" or mood == "refuse":
            if req.typ != mt.SREQ or req.cmd is None or req.cmd.response is None:
                return None
            return [ncp.status(req, x or 0)]
        if mood == "other" or mood == "garbage":
            return [(0.001, x)]
        if mood == "lose":
            req.port.lose(OSError("gone"))
            return "drop"
        usual = ncp.respond(req)
        if mood == "silent event":
            return usual[:1]
        if mood == "late":
            return [(t + x, r) for t, r in usual]
        return usual + [(t + 0.002, r) for t, r in usual]

    ncp.hook = hook


def calls_end(d):
    product = d.int(0, 2)
    first = d.choice((0, 1, 2, 2))  # started before the trouble begins, and formed
    plan, victims = gen_plan(d)
    calls = gen_calls(d, 0.8 if victims else 0.3)
    opens = [OSError("busy") if d.bool(0.3) else None for _ in range(d.int(0, 4))]
    d.show("product %d, %s, plan %s, %s, opens %r", product,
           ("not started", "not formed", "running")[first],
           ", ".join(m if x is None or isinstance(x, bytes) else "%s %s" % (m, x)
                     for m, x in plan),
           ", ".join("%s: %s" % (k, m) for k, (m, _) in victims.items()), opens)
    for t, c, cancel in calls:
        d.show("+%.3f %s%s", t, " ".join(str(x)[:60] for x in c),
               "" if cancel is None else ", given up after %.3f" % cancel)

    def label(mood):
        d.label(mood)
        if mood != "twice":
            d.nontrivial()

    async def main(loop, world):
        world.ncp.product = product
        app = stack.make_app()
        if first:
            await app.startup(first == 2)
        else:
            app._ieee = None
        dev = stack.add_device(app, b"\x05" * 8, 0x1234)
        adversary(world, plan, victims, label)
        world.open_plan = list(opens)
        running = []
        bound = 120.0 * (len(calls) + 1)

        async def outcome(i, c, coro):
            try:
                await coro
                d.label(c[0] + " returns")
            except asyncio.CancelledError:
                raise
            except Exception:
                d.label(c[0] + " raises")

        async def give_up(task, c, after):
            await asyncio.sleep(after)
            if task.done():
                return
            task.cancel()
            await asyncio.sleep(0.0009)
            check(task.done(), "%s goes on after it was given up", c[0])
            d.label("given up")

        for i, (t, c, cancel) in enumerate(calls):
            await asyncio.sleep(t)
            try:
                coro = make_call(app, dev, c)
            except Exception:
                continue  # not started or shut down: raised at once
            task = asyncio.ensure_future(outcome(i, c, coro))
            running.append((c, loop.t, task, cancel is not None and
                            asyncio.ensure_future(give_up(task, c, cancel))))
        for c, t, task, giver in running:
            limit = t + (4000 if c[0] == "startup" else bound)
            await asyncio.wait([task], timeout=max(0, limit - loop.t))
            check(task.done(), "%s begun at %.3f has not ended at %.3f", c[0], t, loop.t)
            if giver:
                await giver
        # nothing stays stuck: with the adapter back to normal all is well
        await app.shutdown()
        world.ncp.hook = None
        world.open_plan = []
        await asyncio.sleep(60)
        for what, coro, limit in (
                ("startup", lambda: app.startup(True), 60),
                ("request", lambda: app.request(dev, 260, 6, 1, 1, 1, b"x"), 30),
                ("group request", lambda: app.mrequest(1, 260, 6, 1, 1, b"x"), 30)):
            task = asyncio.ensure_future(coro())
            await asyncio.wait([task], timeout=limit)
            check(task.done(), "afterwards %s does not end in %d s", what, limit)
            check(task.exception() is None, "afterwards %s raises %r", what,
                  task.exception())
        await app.shutdown()

    stack.scenario(main, max_time=50000, max_iterations=2000000)


PARTS = [Part("calls end", calls_end, quick=800, thorough=40000)]
