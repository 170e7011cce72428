"""C20: after startup the adapter runs the configured network."""
from harness import sim, stack
from harness.engine import Part, check

from . import net

TECHNIQUE = "model-based property-based testing over adapter memories and configurations"
RULE = ("A case is a firmware generation, a prior adapter memory (new, same network, "
        "similar network, arbitrary values, random-PAN) and one to three successive "
        "startups with generated configurations and power cycles between them, or one "
        "application started again on adapters of other pasts; non-trivial "
        "when a startup finds something to change. Distinct: by the full choice sequence.")
ASSUMES = ["A marker saying configured goes with memory a previous startup wrote: the "
           "running network is the stored one and the logical type is coordinator.",
           "The simulated adapter keeps NV items of fixed size and forms the network "
           "from them as the Z-Stack documents describe."]


def startups(d):
    product = d.choice(net.PRODUCTS)
    ncp = sim.Ncp(product, ieee=d.eui())
    d.show("product %d", product)
    confs = [net.gen_conf(d)]
    for _ in range(d.weighted(3, 2, 1)):
        confs.append(net.gen_conf(d) if d.bool(0.6) else confs[-1])
    what = net.prior(d, ncp, confs[0][1])
    d.show(what)
    d.label("%s, product %d" % (what, product))
    apart = [d.bool(0.15) for _ in confs]  # startup(False), then form_network()
    cycles = [d.bool(0.3) for _ in confs]
    ncp.latency = d.choice((0.001, 0.001, 0.3))
    ncp.form_time = d.choice((0.0, 0.3, 10.0))
    busy = d.bool(0.4)

    async def main(loop, world):
        for n, (conf, want) in enumerate(confs):
            d.show("startup %d: %r", n, conf)
            app = stack.make_app(network=conf)
            wrote = len(ncp.nv_write_log)
            if busy:
                net.traffic(d, world, ncp)
            if apart[n]:
                d.show("without forming, then formed")
                await app.startup(False)
                check(len(ncp.nv_write_log) == wrote, "startup without forming wrote %r",
                      ncp.nv_write_log[wrote:])
                await app.form_network()
            else:
                await app.startup(True)
            if len(ncp.nv_write_log) > wrote:
                d.nontrivial()
                if product == 0:
                    check(ncp.nv[sim.NV_TCLK] == sim.TC_LINK_KEY, "startup %d configured the "
                          "adapter with trust center link key %s", n,
                          ncp.nv[sim.NV_TCLK].hex())
            bad = net.complete(ncp, want)
            check(not bad, "startup %d succeeded but: %s", n, "; ".join(bad))
            await app.shutdown()
            if cycles[n]:
                ncp.power_cycle()
                d.show("power cycle")
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main, ncp)


def random_pan(d):
    """A configured Z-Stack 3 adapter on a PAN ID it chose at random keeps it,
    unless something else is to be changed; on Z-Stack 1.2 it is enforced."""
    product = d.choice(net.PRODUCTS)
    ncp = sim.Ncp(product, ieee=d.eui())
    conf, want = net.gen_conf(d)
    stored = dict(want, pan=b"\xff\xff")
    if d.bool():
        stored["extpan"] = d.eui()
    other = d.weighted(3, 1, 1)
    if other:
        stored[("key", "channels")[other - 1]] = net.gen_net(d)[
            ("key", "channels")[other - 1]]
    ncp.configure(stored)
    ncp.formed["pan"] = bytes([d.u8(), d.int(0, 0x7F)])
    if d.bool():
        ncp.state = 9
    formed = dict(ncp.formed)
    keep = product and all(stored[k] == want[k] for k in ("key", "channels"))
    d.show("product %d stored %r configured %r", product, stored, conf)
    d.nontrivial("kept" if keep else "enforced")

    async def main(loop, world):
        for n in range(2):
            app = stack.make_app(network=conf)
            await app.startup(True)
            if keep:
                check(ncp.formed == formed and ncp.state == 9 and
                      ncp.nv[sim.NV_PANID] == b"\xff\xff" and
                      ncp.nv[sim.NV_EXTPAN] == stored["extpan"],
                      "network with a random PAN ID not kept: %r", ncp.formed)
            else:
                bad = net.complete(ncp, want)
                check(not bad, "startup %d succeeded but: %s", n, "; ".join(bad))
            await app.shutdown()
            ncp.power_cycle()

    stack.scenario(main, ncp)


def one_application(d):
    """The same application is started again and again, each time on an adapter with
    another past, perhaps another adapter."""
    conf, want = net.gen_conf(d)
    plan = []
    for _ in range(d.int(2, 4)):
        ncp = sim.Ncp(d.choice(net.PRODUCTS), ieee=d.eui())
        if plan and d.bool(0.6):
            ncp = plan[-1][0]  # the same one, changed or not
        plan.append((ncp, d.bool(0.6)))
    d.show("%r", conf)

    async def main(loop, world):
        app = stack.make_app(network=conf)
        for n, (ncp, shut) in enumerate(plan):
            world.ncp = ncp
            ncp.world = world
            what = net.prior(d, ncp, want) if n == 0 or ncp is not plan[n - 1][0] \
                or d.bool(0.8) else "untouched"
            d.show("startup %d: product %d, %s", n, ncp.product, what)
            wrote = len(ncp.nv_write_log)
            await app.startup(True)
            if len(ncp.nv_write_log) > wrote:
                d.nontrivial("again" if n else "first")
                if ncp.product == 0:
                    check(ncp.nv[sim.NV_TCLK] == sim.TC_LINK_KEY, "startup %d configured the "
                          "adapter with trust center link key %s", n,
                          ncp.nv[sim.NV_TCLK].hex())
            bad = net.complete(ncp, want)
            check(not bad, "startup %d succeeded but: %s", n, "; ".join(bad))
            missing = set(sim.REQUIRED_ENDPOINTS) - set(ncp.endpoints)
            check(not missing, "after startup %d endpoints %r are missing", n, missing)
            check(sim.GP_GROUP in ncp.groups, "startup %d: not in the group", n)
            if shut:
                await app.shutdown()
            ncp.power_cycle()
        await app.shutdown()

    stack.scenario(main, plan[0][0])


PARTS = [
    Part("one application", one_application, quick=250, thorough=20000),
    Part("startups", startups, quick=350, thorough=30000),
    Part("random PAN ID", random_pan, quick=80, thorough=5000),
]
