"""C29: the status LED follows the join state."""
import asyncio

from harness import mt, sim, stack
from harness.engine import Part, check

from . import common

TECHNIQUE = "model-based stateful property-based testing of join-state histories"
RULE = ("A case is a firmware generation, a startup with or without network forming and a "
        "history of join-state reports with other traffic and requests between, in "
        "generated reads and with generated answers to the LED commands; non-trivial when "
        "a report arrives. Distinct: by duration or the full choice sequence.")
ASSUMES = ["The adapter answers LED commands within 5 s.",
           "Reports come after startup, when the firmware generation is known."]
AVOID = (("ZDO", "permitJoinInd"), ("ZDO", "mgmtPermitJoinRsp"), ("AF", "incomingMsg"),
         ("AF", "incomingMsgExt"), ("ZDO", "endDeviceAnnceInd"))
RSP = mt.cmd("ZDO", "mgmtPermitJoinRsp")


def leds(ncp):
    return [r for r in ncp.log if r.name == "ledControl"]


def modes(ncp):
    for r in leds(ncp):
        check(r.v["ledid"] == 3, "LED %d addressed", r.v["ledid"])
    return [r.v["mode"] for r in leds(ncp)]


def report(d, kind, duration):
    if kind == 0:
        return mt.build("ZDO", "permitJoinInd", duration=duration)
    return common.areq(RSP, {"srcaddr": 0, "status": 0})


def histories(d):
    product = d.int(0, 2)
    form = d.bool(0.3)
    steps = []
    for _ in range(d.int(1, 12)):
        k = d.weighted(6, 2, 2, 1, 1)
        if k == 0:
            t = 0 if d.bool(0.4) else d.u8()
            steps.append(("report", 0, t))
            d.nontrivial("open" if t else "closed")
        elif k == 1:
            steps.append(("report", 1, 254))
            d.nontrivial("open as answer to a request")
        elif k == 2:
            steps.append(("other", common.gen_areq(d, AVOID, 40)[2]))
        elif k == 3:
            steps.append(("request", d.int(0, 254)))
        else:
            steps.append(("again",))
    gaps = [d.choice((0.0, 0.0, 0.001, 0.1, 2.0)) for _ in steps]
    delay = d.choice((0.0005, 0.001, 0.3, 4.0)) if d.bool(0.4) else 0.001
    status = common.gen_status(d) if d.bool(0.2) else 0
    d.show("product %d, LED answers after %.4f s with %d", product, delay, status)
    ncp = sim.Ncp(product)

    async def main(loop, world):
        app = stack.make_app()
        await app.startup(form)
        await asyncio.sleep(0.05)
        check(modes(ncp) == ([0] if form and product != 1 else []),
              "LED commands at startup: %r", modes(ncp))
        del ncp.log[:]
        ncp.extra[("UTIL", "ledControl")] = lambda req: [(delay, ncp.status(req, status)[1])]
        if d.bool(0.4):
            ncp.splitter = d.chunks
        want = []
        for s, gap in zip(steps, gaps):
            d.show("%r, then %.3f s", s if s[0] != "other" else "other frame", gap)
            if s[0] == "report":
                ncp.send(report(d, s[1], s[2]))
                want.append(1 if s[2] else 0)
            elif s[0] == "other":
                ncp.send(s[1])
            elif s[0] == "request":
                await app.permit_ncp(s[1])
            else:
                await app.form_network()
                want.append(0)
            if gap:
                await asyncio.sleep(gap)
        await asyncio.sleep(len(want) * (delay + 0.01) + 1)
        got = modes(ncp)
        check(got == (want if product != 1 else []), "LED set to %r, reported %r on "
              "product %d", got, want, product)
        await asyncio.sleep(300)
        check(len(modes(ncp)) == len(got), "LED set again without a report: %r", modes(ncp))

    if any(s[0] == "again" for s in steps):
        # keep the order of report and forming well defined
        gaps = [max(g, 0.1 + (delay + 0.01) * len(steps)) for g in gaps]
    stack.scenario(main, ncp)


def each_duration(d, case):
    async def main(loop, world):
        ncp = world.ncp
        ncp.product = case
        await stack.started_app(world)
        want = []
        d.show("product %d: all durations", case)
        d.nontrivial()
        for t in list(range(256)) + [0]:
            ncp.send(report(d, 0, t))
            want.append(1 if t else 0)
            await asyncio.sleep(0.01)
        got = modes(ncp)
        check(got == (want if case != 1 else []), "LED set to %r", got)

    stack.scenario(main)


PARTS = [
    Part("every duration", each_duration, cases=[0, 1, 2]),
    Part("histories", histories, quick=1000, thorough=40000),
]
