"""C22: startup registers exactly the missing endpoints and the GreenPower group."""
import itertools

from harness import mt, sim, stack
from harness.engine import Part, check

from . import net

TECHNIQUE = "model-based property-based testing over registered endpoint sets"
RULE = ("A case is a firmware generation, a subset of the endpoints (possibly with foreign "
        "ones, in any order) and group membership already present, a prior configuration "
        "state, and repeated startups with power cycles; non-trivial when something is "
        "missing. Distinct: by the full choice sequence.")
ASSUMES = ["An endpoint is there when the adapter lists it as active."]
REQUIRED = sim.REQUIRED_ENDPOINTS
OUT = {11: [0x0500, 0x0502]}
IN = {13: [0x0019]}
REGISTER = mt.cmd("AF", "register")


def check_round(ncp, have, member, wiped):
    """What a startup did, given the endpoints and membership it found."""
    regs = [r.v for r in ncp.requests("register")]
    got = sorted(v["endpoint"] for v in regs)
    missing = sorted(set(REQUIRED) - set(have))
    check(got == missing, "registered %r, missing were %r", got, missing)
    for v in regs:
        e = v["endpoint"]
        check(v["appprofid"] == REQUIRED[e], "endpoint %d with profile 0x%04x", e,
              v["appprofid"])
        check(list(v["appinclusterlist"]) == IN.get(e, []) and
              list(v["appoutclusterlist"]) == OUT.get(e, []) and
              v["appnuminclusters"] == len(IN.get(e, [])) and
              v["appnumoutclusters"] == len(OUT.get(e, [])),
              "endpoint %d with clusters %r %r", e, v["appinclusterlist"],
              v["appoutclusterlist"])
    adds = [(r.v["endpoint"], r.v["groupid"]) for r in ncp.requests("extAddGroup")]
    check(adds == ([] if member else [sim.GP_GROUP]), "group memberships added: %r, "
          "member before: %s", adds, member)
    check(set(ncp.endpoints) >= set(REQUIRED), "endpoints %r", sorted(ncp.endpoints))
    check(sim.GP_GROUP in ncp.groups, "not a member of the GreenPower group")


def run(d, ncp, conf, cycles, busy=False):
    same = len(cycles) > 1 and d.bool(0.5)

    async def main(loop, world):
        app = None
        for n, cycle in enumerate(cycles):
            if cycle:
                ncp.power_cycle()
                if d.bool(0.3):  # memberships may be volatile, too
                    ncp.groups.clear()
                    d.label("memberships lost")
            have, member = list(ncp.endpoints), sim.GP_GROUP in ncp.groups
            del ncp.log[:]
            resets = ncp.resets
            if busy:
                net.traffic(d, world, ncp)
            if app is None or not same:
                app = stack.make_app(network=conf)
            else:
                d.label("the same application")
            await app.startup(True)
            if ncp.resets > resets:  # startup itself reset the adapter
                have, member = [], False
                d.label("reset by startup")
            if set(REQUIRED) - set(have) or not member:
                d.nontrivial()
            d.show("startup %d: endpoints %r member %s", n, sorted(have), member)
            check_round(ncp, have, member, False)
            await app.shutdown()
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main, ncp)


def setup(d, product):
    ncp = sim.Ncp(product)
    conf, want = net.gen_conf(d, 0.2)
    return ncp, conf, want


def subsets(d):
    product = d.choice(net.PRODUCTS)
    ncp, conf, want = setup(d, product)
    if d.bool(0.85):
        ncp.configure(want)
        if d.bool():
            ncp.state = 9
    names = sorted(REQUIRED)
    which = [e for e in names if d.bool()] if d.bool(0.6) else \
        d.sample(names, d.int(0, 13))
    if d.bool(0.4):
        which = which + [e for e in (7, 9, 10, 14, 46, 48, 109, 111, 240, 241, 0)
                         if d.bool(0.3)]
        d.label("foreign endpoints")
    if d.bool():
        which = d.sample(which, len(which))
    for e in which:
        ncp.endpoints[e] = {"endpoint": e}
    k = d.weighted(3, 3, 1)
    if k == 1:
        ncp.groups.add(sim.GP_GROUP)
    elif k == 2:  # near misses
        ncp.groups |= {(242, 0x0B83), (241, 0x0B84), (242, 0x840B)}
    if d.bool(0.3):
        ncp.latency = 0.2
    run(d, ncp, conf, [False] + [d.bool() for _ in range(d.int(0, 2))], d.bool())


def each_single(d, case):
    """All single missing / single present endpoints, for every firmware."""
    product, e, present = case
    ncp, conf, want = setup(d, product)
    ncp.configure(want)
    for x in sorted(REQUIRED):
        if (x == e) == present:
            ncp.endpoints[x] = {"endpoint": x}
    run(d, ncp, conf, [False])


PARTS = [
    Part("each endpoint", each_single, cases=[list(c) for c in itertools.product(
        net.PRODUCTS, sorted(REQUIRED), (True, False))]),
    Part("subsets", subsets, quick=300, thorough=30000),
]
