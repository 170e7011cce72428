"""C24: after losing the port the library recovers by itself, on one port."""
import asyncio

import serial
from harness import sim, stack
from harness.engine import Part, check
from zigpy_cc.types import Subsystem

from . import net

TECHNIQUE = ("fault-injecting stateful property-based testing of loss and reconnection "
             "histories on a virtual clock")
RULE = ("A case is a history of port losses at generated moments (while running, waiting to "
        "reconnect, opening, during every phase of the restart), failing, refused or slow "
        "opens and periods of a deaf or power-cycled adapter, with user requests in "
        "between, followed by a period without faults; non-trivial when a loss hits a "
        "started application. Distinct: by the full choice sequence.")
ASSUMES = ["Opening a port fails with an exception derived from Exception.",
           "Recovery is due within 110 s after the last fault: one response, reset (30 s) "
           "or network start (60 s) timeout, the 5 s pause and the restart itself."]
BOUND = 110.0
MOMENTS = (0.0, 1e-6, 0.0005, 0.01, 0.3, 1.0, 2.0, 4.999, 5.0, 5.0005, 5.5, 5.999, 6.0,
           6.0005, 6.002, 6.005, 6.01, 6.02, 6.03, 6.05, 6.3, 6.6, 7.0, 7.5, 9.0, 11.9,
           12.0, 12.1, 20.0, 66.0)


def gen_faults(d, want):
    faults = []
    for _ in range(d.weighted(4, 3, 2, 1) + 1):
        dt = d.choice(MOMENTS) if d.bool(0.7) else d.uniform(0, 30000) / 1000
        k = d.weighted(6, 2, 2, 2, 1, 1, 1)
        if k == 0:
            faults.append((dt, "lose", None if d.bool() else OSError("gone")))
        elif k == 1:
            plan = [(serial.SerialException("no such port"), OSError("busy"),
                     FileNotFoundError("gone"), ValueError("strange"))[d.int(0, 3)]
                    for _ in range(d.int(1, 3))]
            faults.append((dt, "opens fail", plan))
        elif k == 2:
            faults.append((dt, "deaf", d.choice((0.1, 1.0, 5.0, 12.0, 40.0))))
        elif k == 3:
            faults.append((dt, "power cycle", None))
        elif k == 5:
            faults.append((dt, "memory lost", None))
        elif k == 6:
            faults.append((dt, "other network", net.mutate(d, want)))
        else:
            faults.append((dt, "slow open", d.choice((0.0, 0.5, 3.0, 20.0))))
    return faults


def wipe(ncp):
    """Memory as from the factory: the next startup initialises the adapter."""
    ncp.nv = ncp.default_nv()
    ncp.formed = None
    ncp.power_cycle()


async def play(d, world, fault, errors_ok=True):
    """One fault takes effect now; returns whether a live port was lost."""
    ncp, loop = world.ncp, world.loop
    _, what, arg = fault
    if what == "lose":
        live = world.live()
        d.show("t=%.4f lose %s", loop.t, "the port" if live else "nothing, none open")
        for p in live:
            p.lose(arg)
        return bool(live)
    d.show("t=%.4f %s %r", loop.t, what, arg)
    if what == "opens fail":
        world.open_plan.extend(arg)
    elif what == "slow open":
        world.open_delay = arg
    elif what == "power cycle":
        ncp.power_cycle()
    elif what == "memory lost":
        wipe(ncp)
    elif what == "other network":  # other software used the adapter meanwhile
        ncp.configure(arg)
        ncp.power_cycle()
    else:
        ncp.dead = True
        loop.call_later(arg, setattr, ncp, "dead", False)
    return False


def start(d):
    ncp = sim.Ncp(d.choice(net.PRODUCTS))
    conf, want = net.gen_conf(d, 0.2)
    ncp.configure(want)
    if d.bool(0.8):
        ncp.state = 9
        net.full_endpoints(d, ncp, sim.REQUIRED_ENDPOINTS)
        ncp.groups.add(sim.GP_GROUP)
    ncp.latency = d.choice((0.001, 0.001, 0.02))
    return ncp, conf, want


def histories(d):
    ncp, conf, want = start(d)
    faults = gen_faults(d, want)
    if not any(f[1] == "lose" for f in faults):
        faults.insert(0, (d.choice(MOMENTS), "lose", None))
    asks = d.bool(0.4)
    again = d.choice((0.0001, 1.0, 5.5, 30.0)) if d.bool(0.1) else 0
    if again:
        d.show("shut down and started again after %.4f s", again)

    async def main(loop, world):
        app = stack.make_app(network=conf)
        await app.startup(True)
        if again:  # a deliberate shutdown before does not matter
            await app.shutdown()
            await asyncio.sleep(again)
            await app.startup(True)
            world.opens.pop(0)
        lost = False
        users = net.Users(d, app)
        for f in faults:
            await asyncio.sleep(f[0])
            if asks:
                users.ask()
            was_first = len(world.opens) == 1
            hit = await play(d, world, f)
            if hit:
                d.nontrivial("running" if was_first else "while reconnecting or later")
            lost = lost or hit
        # everything works again from here on
        del world.open_plan[:]
        world.open_delay = min(world.open_delay, 1.0)
        ncp.dead = False
        await asyncio.sleep(BOUND)
        check(world.max_live <= 1, "%d connections were open at once", world.max_live)
        check(len(world.live()) == 1, "%d connections open %d s after the last fault; "
              "opens: %r", len(world.live()), BOUND, world.opens)
        opens = len(world.opens)
        try:
            obj = await app._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
        except Exception as e:
            check(False, "not operational %d s after the last fault: %r; opens: %r", BOUND,
                  e, world.opens)
        check(obj.payload["capabilities"] == 0x0659, "wrong answer")
        if lost and faults[-1][1] == "lose":
            bad = net.complete(ncp, want)
            check(not bad, "after recovery: %s", "; ".join(bad))
            missing = set(sim.REQUIRED_ENDPOINTS) - set(ncp.endpoints)
            check(not missing, "after recovery endpoints %r are missing", missing)
        users.ended("%d s after the last fault" % BOUND)
        await net.usable(app, "after recovery")
        await asyncio.sleep(400)
        check(len(world.opens) == opens, "opened again although connected: %r",
              world.opens)
        check(not stack.loop_errors(loop) or asks, "errors escaped into the event loop: "
              "%r", stack.loop_errors(loop))

    stack.scenario(main, ncp)


def each_moment(d, case):
    """A second loss at every moment of the reconnection, 0.5 ms apart where it acts."""
    product, when, wiped = case
    ncp = sim.Ncp(product)
    want = dict(net.DEFAULT)
    ncp.configure(want)
    d.show("product %d, %slost again %.4f s after the loss", product,
           "its memory lost, " * wiped, when)

    async def main(loop, world):
        app = stack.make_app()
        await app.startup(True)
        world.port.lose(OSError("gone"))
        wipe(ncp) if wiped else ncp.power_cycle()
        await asyncio.sleep(when)
        n = len(world.live())
        for p in world.live():
            p.lose(None)
            d.nontrivial("connected" if loop.t > 14 else "reconnecting")
        await asyncio.sleep(BOUND)
        check(world.max_live <= 1, "%d connections were open at once", world.max_live)
        check(len(world.live()) == 1, "%d connections open afterwards, opens: %r",
              len(world.live()), world.opens)
        check(len(world.opens) == 2 + n, "opens: %r", world.opens)
        bad = net.complete(ncp, want)
        check(not bad, "after recovery: %s", "; ".join(bad))
        check(set(ncp.endpoints) == set(sim.REQUIRED_ENDPOINTS), "endpoints %r",
              sorted(ncp.endpoints))
        obj = await app._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
        check(obj.payload["capabilities"] == 0x0659, "wrong answer")

    stack.scenario(main, ncp)


def behind(d, case):
    """The port is lost again right behind the n-th frame it delivered."""
    product, fresh, n, ticks = case
    ncp = sim.Ncp(product)
    want = dict(net.DEFAULT)
    ncp.configure(want)
    if fresh == 1:
        ncp.state = 9
        net.full_endpoints(d, ncp, sim.REQUIRED_ENDPOINTS)
        ncp.groups.add(sim.GP_GROUP)
    d.show("product %d, lost again %d ticks behind frame %d of the reconnection", product,
           ticks, n)

    async def main(loop, world):
        app = stack.make_app()
        await app.startup(True)
        if fresh == 2:
            wipe(ncp)
        elif not fresh:
            ncp.power_cycle()
        world.port.lose(OSError("gone"))
        hits = []

        def lose(port):
            if port is world.ports[1] and port.delivered == n:
                hits.append(port)
                if not ticks:
                    return port.lose(None)
                asyncio.ensure_future(later(port))

        async def later(port):
            for _ in range(ticks - 1):
                await asyncio.sleep(0)
            port.lose(None)

        world.on_deliver = lambda port: len(world.ports) == 2 and lose(port)
        await asyncio.sleep(2 * BOUND)
        if hits:
            d.nontrivial()
        check(world.max_live <= 1, "%d connections were open at once", world.max_live)
        check(len(world.live()) == 1, "%d connections open afterwards, opens: %r",
              len(world.live()), world.opens)
        check(len(world.opens) == 2 + len(hits), "opens: %r", world.opens)
        obj = await app._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
        check(obj.payload["capabilities"] == 0x0659, "wrong answer")
        bad = net.complete(ncp, want)
        check(not bad, "after recovery: %s", "; ".join(bad))

    stack.scenario(main, ncp)


def moments(tier):
    step = 0.0005 if tier == "thorough" else 0.002
    grid = [i * 0.25 for i in range(28)] + [6.0 + i * step for i in range(int(0.4 / step))]
    late = [6.4 + i * 4 * step for i in range(int(2.2 / step / 4))]
    return [[p, w, x] for x, moments in ((0, grid), (1, grid[28:] + late))
            for i, w in enumerate(moments) for p in
            (net.PRODUCTS if tier == "thorough" else ((int(w * 2000) + i * x) % 3,))]


def outages(d):
    """Many failed attempts in a row, many losses in a row: it never gives up or slows."""
    ncp, conf, want = start(d)
    rounds = d.choice((1, 1, 2, 12, 25))
    seen = []
    for _ in range(rounds):
        k = d.weighted(3, 3, 1)
        if k == 0:
            seen.append(("away", d.choice((0, 1, 5, 30, 150) if rounds < 3 else (0, 1, 3)), 0))
        elif k == 1:
            seen.append(("deaf", 0, d.choice((20.0, 90.0, 900.0, 5000.0)
                                             if rounds < 3 else (1.0, 20.0))))
        else:
            seen.append(("lost again and again", d.choice((1, 8, 20) if rounds < 3 else (1, 2)), 0))
    d.show("%r", seen)
    if rounds > 2 or any(n >= 5 or t >= 90 for _, n, t in seen):
        d.nontrivial("long")

    async def main(loop, world):
        app = stack.make_app(network=conf)
        await app.startup(True)
        for what, n, t in seen:
            opens = len(world.opens)
            if what == "away":
                world.open_plan.extend(
                    serial.SerialException("no such port") for _ in range(n))
                world.port.lose(OSError("gone"))
                while world.open_plan:
                    before = len(world.opens)
                    await asyncio.sleep(BOUND)
                    check(len(world.opens) > before or not world.open_plan,
                          "no attempt to open in %d s, after %d attempts", BOUND,
                          len(world.opens) - opens)
            elif what == "deaf":
                ncp.dead = True
                world.port.lose(None)
                await asyncio.sleep(t)
                ncp.dead = False
            else:
                world.port.lose(None)
                for _ in range(n - 1):
                    while not world.live():
                        await asyncio.sleep(0.5)
                    world.port.lose(OSError("again"))
            await asyncio.sleep(BOUND)
            check(world.max_live <= 1, "%d connections were open at once", world.max_live)
            check(len(world.live()) == 1, "%d connections open %d s after %s; last opens: "
                  "%r", len(world.live()), BOUND, (what, n, t), world.opens[-5:])
            obj = await app._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
            check(obj.payload["capabilities"] == 0x0659, "wrong answer")
            bad = net.complete(ncp, want)
            check(not bad, "after recovery: %s", "; ".join(bad))
        opens = len(world.opens)
        await asyncio.sleep(400)
        check(len(world.opens) == opens, "opened again although connected: %r",
              world.opens[-3:])
        check(not stack.loop_errors(loop), "errors escaped into the event loop: %r",
              stack.loop_errors(loop))

    stack.scenario(main, ncp, max_time=100000.0)


def started_anew(d):
    """The user starts the application again while it reconnects by itself."""
    ncp, conf, want = start(d)
    if d.bool(0.5):
        wipe(ncp)
    faults = gen_faults(d, want)[:3]
    calls = []
    for _ in range(d.int(1, 3)):
        t = d.choice(MOMENTS) if d.bool(0.6) else d.uniform(0, 30000) / 1000
        calls.append((t, d.bool(0.7)))
    give_up = d.choice((0.0, 0.3, 1.0, 2.0, 8.0)) if d.bool(0.2) else None
    d.show("started anew after %r%s", [c[0] for c in calls],
           "" if give_up is None else ", the last one given up after %s" % give_up)

    async def main(loop, world):
        app = stack.make_app(network=conf)
        first = d.bool(0.3)
        if first:  # the port is lost during the very first startup, the user tries again
            task = asyncio.ensure_future(app.startup(True))
            await asyncio.sleep(d.choice((1.0005, 1.002, 1.01, 1.05, 1.5, 3.0)))
        else:
            await app.startup(True)
        world.port.lose(OSError("gone"))
        if first:
            await asyncio.wait([task])
        d.nontrivial("first startup" if first else "reconnecting")

        own = []  # the user broke what may have been recovered already

        async def user():
            for n, (t, form) in enumerate(calls):
                await asyncio.sleep(t)
                recovered = any(loop.t - p.opened_at >= 1.0 for p in world.live())
                d.show("t=%.4f started anew", loop.t)
                call = app.startup(form)
                try:
                    if give_up is not None and n == len(calls) - 1:
                        await asyncio.wait_for(call, give_up)
                    else:
                        await call
                    d.show("t=%.4f that succeeded", loop.t)
                    del own[:]
                except Exception as e:
                    d.show("t=%.4f that failed: %r", loop.t, e)
                    if recovered:
                        own.append(n)

        users = asyncio.ensure_future(user())
        for f in faults:
            await asyncio.sleep(f[0])
            await play(d, world, f)
        del world.open_plan[:]
        world.open_delay = min(world.open_delay, 1.0)
        ncp.dead = False
        await asyncio.wait([users])
        await asyncio.sleep(BOUND)
        if own:
            await app.startup(True)
        else:
            d.label("recovery is the library's task")
        check(world.max_live <= 1, "%d connections were open at once", world.max_live)
        check(len(world.live()) == 1, "%d connections open %d s after the last fault; "
              "opens: %r", len(world.live()), BOUND, world.opens)
        opens = len(world.opens)
        await net.usable(app, "after recovery")
        await asyncio.sleep(400)
        check(len(world.opens) == opens, "opened again although connected: %r",
              world.opens)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main, ncp)


PARTS = [
    Part("started anew meanwhile", started_anew, quick=300, thorough=20000),
    Part("lost behind each frame", behind, cases=lambda tier: [
        [p, f, n, k] for f in (1, 0, 2) for n in range(1, (36, 20, 64)[f])
        for k in (range(9) if tier == "thorough" else (0, 1 + n % 5))
        for p in (net.PRODUCTS if tier == "thorough" else (n % 3, (n + 1) % 3))]),
    Part("outages", outages, quick=60, thorough=4000),
    Part("second loss", each_moment, cases=moments),
    Part("histories", histories, quick=350, thorough=30000),
]
