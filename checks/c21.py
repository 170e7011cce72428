"""C21: restarting on a matching configuration leaves the network untouched."""
from harness import sim, stack
from harness.engine import Part, check

from . import net

TECHNIQUE = "stateful property-based testing: idempotence of startup"
RULE = ("A case is a firmware generation, a configuration, an adapter already configured "
        "with it (by generated memory or by a real first startup from any prior memory) "
        "and one to four further startups with power cycles and device-state changes "
        "between; non-trivial always, distinct by the full choice sequence.")
ASSUMES = ["The simulated adapter keeps NV items of fixed size."]
WRITES = ("resetReq", "osalNvWrite", "osalNvItemInit", "osalNvDelete", "osalNvWriteExt",
          "writeConfiguration", "bdbStartCommissioning", "bdbSetChannel", "startBasic",
          "setPanid", "setChannels", "setPreCfgKey", "startRequest")
STATES = (0, 1, 6, 7, 8, 9)


def restarts(d):
    product = d.choice(net.PRODUCTS)
    ncp = sim.Ncp(product, ieee=d.eui())
    conf, want = net.gen_conf(d)
    real = d.bool(0.5)
    if real:
        d.show("product %d, first startup from: %s", product, net.prior(d, ncp, want))
        d.label("configured by a real startup")
    else:
        ncp.configure(want)
        for k in (sim.NV_TCLK, sim.NV_ZDO_DIRECT_CB):  # not among the settings compared
            if d.bool(0.2):
                ncp.nv[k] = bytes(len(ncp.nv[k]))
        if d.bool(0.5):
            net.full_endpoints(d, ncp, d.sample(sorted(sim.REQUIRED_ENDPOINTS),
                                                d.int(0, 13)))
        if product and d.bool(0.15):  # the random PAN ID counts as a match
            ncp.nv[sim.NV_PANID] = b"\xff\xff"
            ncp.nv[sim.NV_EXTPAN] = d.eui()
            d.label("random PAN ID")
        d.show("product %d, configured", product)
    plan = [(d.bool(0.4), d.choice(STATES) if d.bool(0.6) else 9)
            for _ in range(d.int(1, 4))]
    ncp.latency = d.choice((0.001, 0.001, 0.3))
    ncp.form_time = d.choice((0.0, 0.3, 10.0))
    busy = d.bool(0.4)
    d.nontrivial()

    same = d.bool(0.4)

    async def main(loop, world):
        app = None
        if real:
            app = stack.make_app(network=conf)
            await app.startup(True)
            await app.shutdown()
        for n, (cycle, state) in enumerate(plan):
            if cycle:
                ncp.power_cycle()
            else:
                ncp.state = state
            d.label("running" if ncp.state == 9 else "not running")
            running = ncp.state == 9
            before = (dict(ncp.nv), ncp.formed and dict(ncp.formed), ncp.resets, ncp.forms)
            del ncp.log[:], ncp.nv_write_log[:]
            if busy:
                net.traffic(d, world, ncp)
            if app is None or not same:
                app = stack.make_app(network=conf)
            else:
                d.label("the same application")
            await app.startup(True)
            d.show("startup %d, cycle %s, state %d", n, cycle, state)
            sent = [r for r in ncp.log if r.name in WRITES]
            check(not sent and not ncp.nv_write_log, "startup %d on a matching "
                  "configuration sent %r", n, sent)
            after = (dict(ncp.nv), ncp.formed and dict(ncp.formed), ncp.resets, ncp.forms)
            check(before == after, "startup %d changed the adapter from %r to %r", n,
                  before, after)
            starts = ncp.requests("startupFromApp")
            check(len(starts) == (0 if running else 1), "%d starts of a stack that was %s",
                  len(starts), "running" if running else "stopped")
            check(ncp.state == 9, "reported success in device state %d", ncp.state)
            await app.shutdown()
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main, ncp)


PARTS = [Part("restarts", restarts, quick=350, thorough=30000)]
