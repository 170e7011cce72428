"""C25: a deliberate shutdown is final."""
import asyncio

from harness import mt, sim, stack
from harness.engine import Part, check
from zigpy_cc.types import Subsystem

from . import c24, common, net

TECHNIQUE = ("fault-injecting stateful property-based testing of shutdown moments on a "
             "virtual clock")
RULE = ("A case is a history of failed, cancelled and successful startups, losses, open failures, "
        "deaf periods and user requests as in C24, and a shutdown at a generated moment "
        "(before any startup, between, in the middle of a reconnection, together with a "
        "loss), perhaps repeated; the sweep shuts down at every step of a reconnection; "
        "non-trivial when something had been started. Distinct: by the full choice "
        "sequence.")
ASSUMES = ["Shutdown is not called while the first startup is still being awaited.",
           "What becomes of requests in flight at the shutdown is C08's business."]


class Watch:
    """What must not happen any more."""

    def __init__(self, world, app, losses):
        self.world, self.app, self.t = world, app, world.loop.t
        self.opens = len(world.opens)
        self.frames = [len(p.written) for p in world.ports]
        self.late = [len(p.late_writes) for p in world.ports]
        self.losses = losses
        self.contexts = len(world.loop.contexts)

    def verify(self, when):
        w = self.world
        check(len(w.opens) == self.opens, "port opened %s although shut down at %.4f: %r",
              when, self.t, w.opens[self.opens:])
        check(len(self.app.losses) == self.losses, "the closing was reported as a loss %s",
              when)
        check(not w.live(), "a port is open %s", when)
        for p, n, late in zip(w.ports, self.frames, self.late):
            check(len(p.written) == n and len(p.late_writes) == late,
                  "written %s: %r", when, (p.written[n:], p.late_writes[late:]))


async def finish(d, world, app, repeat=0, wait=400):
    losses = len(app.losses)
    for _ in range(repeat + 1):
        try:
            await app.shutdown()
        except Exception as e:
            check(False, "shutdown raised %r", e)
    # a port whose opening has just completed may still be closed in this very instant
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    watch = Watch(world, app, losses)
    watch.verify("right after the shutdown")
    await asyncio.sleep(7)
    watch.verify("after the shutdown")
    world.ncp.dead = False
    await asyncio.sleep(wait)
    watch.verify("long after the shutdown")
    bad = [c for c in world.loop.contexts[watch.contexts:]
           if c.get("exception") is not None and "Task" not in c.get("message", "")]
    check(not bad, "errors after the shutdown: %r", bad)


PATIENCE = (0.0, 0.0005, 0.5, 0.9999, 1.0, 1.0005, 1.0015, 1.01, 1.02, 1.04, 1.3, 1.5, 2.0)


def histories(d):
    ncp, conf, want = c24.start(d)
    stage = d.weighted(1, 2, 8)
    repeat = d.weighted(6, 1, 1)

    async def main(loop, world):
        app = stack.make_app(network=conf)
        if stage == 0:
            d.label("before any startup")
            d.show("shutdown before any startup")
            return await finish(d, world, app, repeat)
        d.nontrivial()
        if stage == 1 or d.bool(0.2):
            for _ in range(d.int(1, 3)):
                k = d.weighted(2, 3, 1)
                if k == 0:
                    world.open_plan.append(OSError("no port"))
                elif k == 1:
                    skip = d.int(0, 25)
                    seen = []

                    def hook(req):
                        seen.append(req)
                        return "drop" if len(seen) > skip else None

                    ncp.hook = hook
                else:
                    ncp.dead = True
                auto = d.bool()
                patience = d.choice(PATIENCE) if d.bool(0.3) else None
                try:
                    if patience is None:
                        await app.startup(auto)
                    else:
                        await asyncio.wait_for(app.startup(auto), patience)
                    d.label("startup survived")
                except Exception as e:
                    d.show("startup failed: %r", e)
                    d.label("after a failed startup")
                if patience is not None:
                    d.show("given up after %.4f s at the latest", patience)
                ncp.hook, ncp.dead = None, False
                del world.open_plan[:]
                check(len(world.live()) <= 1, "%d connections open", len(world.live()))
            if stage == 1:
                return await finish(d, world, app, repeat)
        users = net.Users(d, app)
        await app.startup(d.bool(0.7))
        for f in c24.gen_faults(d, net.DEFAULT) if d.bool(0.8) else ():
            await asyncio.sleep(f[0])
            if d.bool(0.2):
                users.ask()
            hit = await c24.play(d, world, f)
            if hit:
                d.label("after a loss")
        if d.bool(0.6):
            await asyncio.sleep(d.choice(c24.MOMENTS) if d.bool(0.7)
                                else d.uniform(0, 30000) / 1000)
        if d.bool(0.2):
            users.ask()
            await asyncio.sleep(d.choice((0, 0.0005, 0.15)))
        if d.bool(0.1):
            for p in world.live():
                p.lose(None)
        d.show("t=%.4f shutdown, %d live", loop.t, len(world.live()))
        d.label("%d ports open at shutdown" % len(world.live()))
        await finish(d, world, app, repeat)
        users.ended("the shutdown was 400 s ago")

    stack.scenario(main, ncp)


def each_moment(d, case):
    """Shutdown at every moment of a reconnection."""
    product, when, ticks, wiped = case
    ncp = sim.Ncp(product)
    ncp.configure(dict(net.DEFAULT))
    d.show("product %d, %sshutdown %.4f s and %d ticks after the loss", product,
           "its memory lost, " * wiped, when, ticks)
    d.nontrivial()

    async def main(loop, world):
        app = stack.make_app()
        await app.startup(True)
        world.port.lose(OSError("gone"))
        if wiped:
            c24.wipe(ncp)
        else:
            ncp.power_cycle()
        await asyncio.sleep(when)
        for _ in range(ticks):
            await asyncio.sleep(0)
        await finish(d, world, app, wait=60)

    stack.scenario(main, ncp)


def behind(d, case):
    """Shutdown some loop iterations behind the n-th frame of a reconnection."""
    product, fresh, n, ticks = case
    ncp = sim.Ncp(product)
    ncp.configure(dict(net.DEFAULT))
    if fresh == 1:
        ncp.state = 9
        net.full_endpoints(d, ncp, sim.REQUIRED_ENDPOINTS)
        ncp.groups.add(sim.GP_GROUP)
    d.show("product %d, shutdown %d ticks behind frame %d of the reconnection", product,
           ticks, n)

    async def main(loop, world):
        app = stack.make_app()
        await app.startup(True)
        if fresh == 2:
            c24.wipe(ncp)
        elif fresh != 1:
            ncp.power_cycle()
        reached = loop.create_future()

        async def stop():
            for _ in range(ticks - 1):
                await asyncio.sleep(0)
            await finish(d, world, app, wait=60)

        def watch(port):
            if len(world.ports) == 2 and port is world.ports[1] and port.delivered == n:
                d.nontrivial()
                if ticks:
                    reached.set_result(asyncio.ensure_future(stop()))
                else:
                    # in the very callback that hands the frame up
                    try:
                        app.shutdown().send(None)
                    except StopIteration:
                        pass
                    reached.set_result(asyncio.ensure_future(stop()))

        world.on_deliver = watch
        world.port.lose(OSError("gone"))
        await asyncio.wait([reached], timeout=30)
        if reached.done():
            await reached.result()

    stack.scenario(main, ncp)


def moments(tier):
    step = 0.0005 if tier == "thorough" else 0.004
    grid = [0.0, 1.0, 4.999, 5.0, 5.001, 5.5, 5.999, 6.0] + [
        6.0 + i * step for i in range(1, int(0.4 / step))]
    out = [[0, w, k, 0] for w in (0.0, 5.0, 6.0) for k in range(8)]
    # an initialisation takes two resets and, except for Z-Stack 1.2, forms a network
    out += [[p, 6.0 + i * (step * 3), 0, 1] for i in range(int(2.4 / step / 3))
            for p in (net.PRODUCTS if tier == "thorough" else (1 + i % 3 if i % 3 < 2 else 0,))]
    return out + [[p, w, 0, 0] for w in grid for p in
                  (net.PRODUCTS if tier == "thorough" else (int(w * 1000) % 3,))]


PARTS = [
    Part("behind each frame", behind, cases=lambda tier: [
        [p, f, n, k] for f in (1, 0, 2) for n in range(1, (36, 20, 64)[f])
        for k in (range(9) if tier == "thorough" else (0, 1, 2 + n % 4))
        for p in (net.PRODUCTS if tier == "thorough" else (n % 3,))]),
    Part("every moment", each_moment, cases=moments),
    Part("histories", histories, quick=450, thorough=40000),
]
