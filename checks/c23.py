"""C23: an interrupted startup fails cleanly and a later one completes it."""
import asyncio
import itertools

from harness import mt, sim, stack
from harness.engine import Part, check

from . import net

TECHNIQUE = ("fault-injecting property-based testing: systematic enumeration of the "
             "interruption point and kind, then a convergence oracle; random histories of "
             "several interruptions")
RULE = ("A case interrupts startup at one request of its sequence (or at a moment of "
        "virtual time) by one kind of fault, one to four times, and then lets a startup "
        "run undisturbed; the sweep enumerates request index x kind x firmware (x prior "
        "memory in the thorough tier); non-trivial when the fault was reached before "
        "startup ended. Distinct: by the swept triple or the choice sequence.")
ASSUMES = ["A power-cycled adapter stays deaf for at least 0.4 s while it boots.",
           "A refusing adapter does not carry out the refused command."]
KINDS = ("falls silent", "loses one answer", "power-cycled", "power-cycled after answering",
         "refuses", "port lost")
BOUND = 300.0
SCALE = 45  # startup never sends more requests than this (C23 checks it)


class Fault:
    def __init__(self, ncp, kind, index, status, announce):
        self.ncp, self.kind, self.index = ncp, kind, index
        self.status, self.announce = status, announce
        self.count, self.hit, self.deaf_until = 0, None, 0.0

    def strike(self, req=None):
        ncp, loop = self.ncp, self.ncp.world.loop
        self.hit = ncp.log[-1] if req and self.kind == 3 else req or "time"
        if self.kind == 0:
            self.deaf_until = float("inf")
        elif self.kind in (2, 3):
            ncp.power_cycle()
            self.deaf_until = loop.t + ncp.reset_time
            if self.announce:
                epoch = ncp.epoch
                ind = mt.build("SYS", "resetInd", reason=0, transportrev=2,
                               productid=ncp.product, majorrel=2, minorrel=7, hwrev=1)
                loop.call_later(ncp.reset_time, lambda: ncp.epoch == epoch
                                and ncp.world.port.open and ncp.send(ind))
        elif self.kind == 5:
            ncp.world.port.lose(OSError("gone"))
        return "drop"

    def __call__(self, req):
        ncp = self.ncp
        if ncp.world.loop.t < self.deaf_until:
            return "drop"
        self.count += 1
        if self.hit or self.count - 1 != self.index:
            return None
        if self.kind == 4:
            if req.typ != mt.SREQ or not req.cmd.response or \
                    req.cmd.response[0][0] != "status":
                return None  # this command cannot be refused
            self.hit = req
            return [ncp.status(req, self.status)]
        if self.kind == 3:
            out = ncp.respond(req)
            for delay, reply in out[:1]:
                if not callable(reply):
                    ncp.send(reply, delay)
            ncp.world.loop.call_later(ncp.latency + 1e-4, self.strike, req)
            self.hit = req
            return "drop"
        return self.strike(req)


def whole(ncp, want):
    bad = net.complete(ncp, want)
    if ncp.nv[sim.NV_ZDO_DIRECT_CB] != b"\x01":
        bad.append("ZDO replies not directed to the host")
    if ncp.product == 0 and ncp.nv[sim.NV_TCLK] != sim.TC_LINK_KEY:
        bad.append("trust center link key %s" % ncp.nv[sim.NV_TCLK].hex())
    missing = sorted(set(sim.REQUIRED_ENDPOINTS) - set(ncp.endpoints))
    if missing:
        bad.append("endpoints %r missing" % missing)
    if sim.GP_GROUP not in ncp.groups:
        bad.append("not in the GreenPower group")
    return bad


async def attempt(d, ncp, world, conf, want, fault, when, app=None, leave=False):
    """One disturbed startup; leave: without shutting down afterwards."""
    if app is None:
        app = stack.make_app(network=conf)
    ncp.hook = fault
    loop = world.loop
    t0 = loop.t
    timer = loop.call_later(BOUND if when is None else when,
                            (lambda: None) if when is None else fault.strike)
    task = asyncio.ensure_future(app.startup(True))
    done, _ = await asyncio.wait([task], timeout=BOUND)
    d.show("%s at %s: %s after %.1f s", KINDS[fault.kind],
           fault.index if when is None else "%.3f s" % when,
           "hangs" if not done else repr(task.exception()), loop.t - t0)
    check(done, "startup hangs after the adapter %s at %r", KINDS[fault.kind], fault.hit)
    if task.exception() is None and when is None:
        # A fault at the very last requests may come too late to matter.
        bad = whole(ncp, want) if fault.kind not in (2, 3, 5) else []
        check(not bad, "startup reported success although the adapter %s at %r: %s",
              KINDS[fault.kind], fault.hit, "; ".join(bad))
        if fault.hit and fault.kind in (0, 2, 3, 5):
            # a power cycle is what resetReq asks for
            late = ("ledControl", "getDeviceInfo") + (("resetReq",) if fault.kind in (2, 3)
                                                      else ())
            check(fault.hit.name in late,
                  "startup reported success although the adapter %s at %r",
                  KINDS[fault.kind], fault.hit)
    if fault.hit:
        d.nontrivial(KINDS[fault.kind])
        if task.exception() is None:
            d.label("fault did not prevent success")
    ncp.hook = None
    timer.cancel()
    if not leave:
        await app.shutdown()
    await asyncio.sleep(8)  # an interrupted boot ends by itself
    return app


async def finish(d, ncp, world, conf, want, app=None):
    if app is None:
        app = stack.make_app(network=conf)
    try:
        await asyncio.wait_for(app.startup(True), BOUND)
    except asyncio.TimeoutError as e:
        check(False, "the undisturbed startup afterwards timed out: %r", e)
    bad = whole(ncp, want)
    check(not bad, "the undisturbed startup afterwards left: %s", "; ".join(bad))
    await app.shutdown()


PRIORS = ("factory", "other network", "same, stopped", "same, running")


def set_prior(ncp, k, want, other):
    if k == 1:
        ncp.configure(other)
        ncp.state = 9
    elif k > 1:
        ncp.configure(want)
        ncp.state = 9 if k == 3 else 0


WANT = {"pan": b"\x34\x12", "extpan": bytes(range(8)), "channels": b"\x00\x00\x08\x00",
        "key": bytes(range(16, 32))}
OTHER = {"pan": b"\x35\x12", "extpan": bytes(range(1, 9)), "channels": b"\x00\x08\x00\x00",
         "key": bytes(range(32, 48))}
CONF = {"pan_id": 0x1234, "extended_pan_id": "07:06:05:04:03:02:01:00", "channels": [19],
        "key": list(range(16, 32))}


def cases(tier):
    if tier == "thorough":
        return [list(c) for c in itertools.product(
            range(SCALE), range(6), net.PRODUCTS, range(4), (0, 1))]
    return [[i, k, p, (i + k + p) % 3, (i + k // 2) % 2] for i in range(SCALE)
            for k in range(6) for p in net.PRODUCTS]


def each_point(d, case):
    index, kind, product, prior, variant = case
    ncp = sim.Ncp(product)
    set_prior(ncp, prior, WANT, OTHER)
    d.show("product %d, %s", product, PRIORS[prior])

    async def main(loop, world):
        fault = Fault(ncp, kind, index, (1, 2)[variant], bool(variant))
        await attempt(d, ncp, world, CONF, WANT, fault, None)
        check(fault.hit or fault.count < SCALE, "startup sends %d requests", fault.count)
        if variant:
            ncp.power_cycle()
        await finish(d, ncp, world, CONF, WANT)

    stack.scenario(main, ncp)


def histories(d):
    product = d.choice(net.PRODUCTS)
    ncp = sim.Ncp(product, ieee=d.eui())
    conf, want = net.gen_conf(d)
    d.show("product %d, %s", product, net.prior(d, ncp, want))
    plan = []
    for _ in range(d.weighted(3, 2, 1, 1) + 1):
        timed = d.bool(0.35)
        kind = d.choice((0, 2, 5)) if timed else d.int(0, 5)
        other = d.bool(0.2)  # that run had another configuration
        plan.append((kind, None if timed else d.int(0, SCALE - 1),
                     d.uniform(0, 8000) / 1000 if timed else None,
                     d.int(1, 255), d.bool(), d.bool(0.4), net.gen_conf(d) if other
                     else (conf, want)))
    ncp.latency = d.choice((0.001, 0.05, 0.3))
    ncp.reset_time = d.choice((0.4, 1.5, 5.0))
    ncp.form_time = d.choice((0.1, 3.0))
    busy = d.bool(0.4)
    again = d.weighted(3, 2, 2)  # another application; the same; the same, not shut down

    async def main(loop, world):
        app = None
        for kind, index, when, status, announce, cycle, (c, w) in plan:
            fault = Fault(ncp, kind, -1 if index is None else index, status, announce)
            if busy:
                net.traffic(d, world, ncp)
            mine = app if c is conf else None
            if mine:
                d.label("the same application")
            elif app:
                await app.shutdown()  # another one takes the port
                await asyncio.sleep(8)
            mine = await attempt(d, ncp, world, c, w, fault, when, mine,
                                 again == 2 and c is conf)
            if again and c is conf:
                app = mine
            if cycle:
                ncp.power_cycle()
                d.show("power cycle")
        if busy:
            net.traffic(d, world, ncp)
        await finish(d, ncp, world, conf, want, app)

    stack.scenario(main, ncp)


PARTS = [
    Part("every point", each_point, cases=cases),
    Part("histories", histories, quick=250, thorough=20000),
]
