"""C28: permit-joining requests open the network for exactly the time asked."""
import asyncio

import zigpy.types as zt
from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.exception import CommandError

from . import common

TECHNIQUE = "exhaustive enumeration of durations plus property-based request histories"
RULE = ("A case is a history of permit requests (every duration 0-254 is swept; others "
        "random, also outside the range) with generated coordinator statuses, delays and "
        "other traffic, or of requests through chosen devices, several at once, that answer, "
        "refuse or stay silent; non-trivial when a request is in range. Distinct: by duration or "
        "the full choice sequence.")
ASSUMES = []
INVALID = (-1, -2, -255, -256, 255, 256, 257, 510, 511, 1000, 65535, 1 << 31)


def frames(ncp):
    return [r for r in ncp.log if r.name == "mgmtPermitJoinReq"]


def is_permit(r, duration):
    return r.v == {"addrmode": 0x0F, "dstaddr": 0xFFFC, "duration": duration,
                   "tcsignificance": 0}


async def one(app, ncp, duration, status, via):
    """One request; checks what was sent and what came back."""
    n = len(ncp.log)
    ncp.hook = lambda req: [ncp.status(req, status)] \
        if req.name == "mgmtPermitJoinReq" else None
    fn = app.permit_ncp if via == 0 else lambda t: app.permit(
        t, zt.EUI64(ncp.ieee) if via == 1 else list(ncp.ieee))
    error = None
    try:
        await fn(duration)
    except Exception as e:
        error = e
    sent = ncp.log[n:]
    if 0 <= duration <= 254:
        check(len(sent) == 1 and sent[0].name == "mgmtPermitJoinReq" and
              is_permit(sent[0], duration), "permitting for %d sent %r", duration,
              [(r, r.cmd and r.v) for r in sent])
        if status:
            check(isinstance(error, CommandError) and int(error.status) == status,
                  "refusal with status %d ended as %r", status, error)
        else:
            check(error is None, "accepted, but raised %r", error)
    else:
        check(error is not None, "duration %d was not refused", duration)
        check(not sent, "refused duration %d, but sent %r", duration, sent)


def sweep(d, case):
    async def main(loop, world):
        app = await stack.started_app(world)
        for duration in range(case * 32, min(case * 32 + 32, 255)):
            for via in range(3):
                await one(app, world.ncp, duration, 0, via)
        for status in range(case * 32, case * 32 + 32):
            await one(app, world.ncp, 60, status, 0)
        for duration in INVALID:
            for via in range(3):
                await one(app, world.ncp, duration, 0, via)
        d.show("durations and statuses %d..%d", case * 32, case * 32 + 31)
        d.nontrivial()
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


def histories(d):
    steps = []
    product = d.int(0, 2)
    for _ in range(d.int(1, 8)):
        k = d.weighted(6, 1, 2, 2)
        if k == 0:
            t = d.int(0, 254)
            steps.append(("permit", t, common.gen_status(d), d.int(0, 2)))
            d.nontrivial("in range")
        elif k == 1:
            t = d.choice(INVALID) if d.bool() else d.int(255, 1 << 20)
            steps.append(("permit", t, 0, d.int(0, 2)))
            d.label("out of range")
        elif k == 2:
            steps.append(("whole network", d.int(0, 254)))
            d.label("whole network")
        else:
            steps.append(("indication", d.u8()))
        d.show("%r", steps[-1])
    many = d.bool(0.3)

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        app = await stack.started_app(world)
        for s in steps:
            if s[0] == "permit":
                await one(app, ncp, *s[1:])
            elif s[0] == "whole network":
                ncp.hook = None
                n = len(ncp.log)
                await app.permit(s[1])
                sent = ncp.log[n:]
                check(sent and all(r.name == "mgmtPermitJoinReq" for r in sent) and
                      is_permit(sent[-1], s[1]) and all(
                          r.v["duration"] == s[1] and r.v["dstaddr"] == 0xFFFC
                          and r.v["tcsignificance"] == 0 for r in sent),
                      "permitting for %d on the whole network sent %r", s[1], sent)
            else:
                ncp.send(mt.build("ZDO", "permitJoinInd", duration=s[1]))
                await asyncio.sleep(0.05)
        if many:  # several at once
            ncp.hook = None
            n = len(ncp.log)
            times = [s[1] for s in steps if s[0] == "permit" and 0 <= s[1] <= 254]
            await asyncio.gather(*[app.permit_ncp(t) for t in times])
            sent = [r.v["duration"] for r in ncp.log[n:] if r.name == "mgmtPermitJoinReq"]
            check(sent == times, "permits for %r at once sent %r", times, sent)
            check(all(is_permit(r, t) for r, t in zip(frames(ncp)[-len(times):], times)),
                  "wrong frames %r", ncp.log[n:])
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


FATES = ("answered", "refused by the device", "refused by the coordinator", "unanswered",
         "unacknowledged")


def routers(d):
    """Joins permitted through chosen devices, several at once."""
    nwks = d.sample((0x1234, 0x0001, 0xFFF0, 0x8000), d.int(1, 4))
    devs = [(nwk, d.eui()[:7] + bytes([i])) for i, nwk in enumerate(nwks)]
    calls = []
    for _ in range(d.int(1, 8)):
        i = d.int(-1, len(devs) - 1)
        calls.append((d.choice((0.0, 0.0, 0.01, 2.0, 12.0, 30.0)), i, d.int(0, 254) if d.bool(0.85)
                      else d.choice(INVALID), d.weighted(8, 1, 1, 1, 1), d.int(1, 255),
                      d.choice((-0.0005, 0.001, 0.2, 4.0)), d.bool()))
        d.show("+%g %s for %d: %s", calls[-1][0], "an unknown device" if i < 0 else
               "0x%04x" % nwks[i], calls[-1][2], FATES[calls[-1][3]])
    product = d.int(0, 2)

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        app = await stack.started_app(world)
        app.pass_on = True
        for nwk, ieee in devs:
            stack.add_device(app, ieee, nwk)
        plan = {nwk: [] for nwk in nwks}
        seen = []

        def hook(req):
            if req.name != "mgmtPermitJoinReq":
                return None
            v = req.v
            seen.append((v["addrmode"], v["dstaddr"], v["duration"], v["tcsignificance"]))
            queue = plan.get(v["dstaddr"], [])
            call = next((c for c in queue if c[2] == v["duration"]), None)
            if call is None:
                return None
            queue.remove(call)
            fate = FATES[call[3]]
            if fate == "unacknowledged":
                return "drop"
            if fate == "refused by the coordinator":
                return [ncp.status(req, call[4])]
            ack = [ncp.status(req, 0)]
            if fate == "unanswered":
                return ack
            return ack + [(max(0.0001, ncp.latency + call[5]), mt.build(
                "ZDO", "mgmtPermitJoinRsp", srcaddr=v["dstaddr"],
                status=0 if fate == "answered" else call[4]))]

        ncp.hook = hook
        want, tasks = [], []

        async def permit(call, nwk, ieee):
            error = None
            try:
                await app.permit(call[2], zt.EUI64(ieee) if call[6] else list(ieee))
            except Exception as e:
                error = e
            if nwk is None:
                check(error is None, "permitting through an unknown device raised %r", error)
            elif not 0 <= call[2] <= 254:
                check(error is not None, "duration %d was not refused", call[2])
            elif FATES[call[3]] == "answered" and quiet:
                check(error is None, "permitting through 0x%04x raised %r", nwk, error)

        quiet = all(c[3] < 3 for c in calls)
        for call in calls:
            await asyncio.sleep(call[0])
            if call[1] < 0:
                if 0 <= call[2] <= 254:
                    tasks.append(asyncio.ensure_future(permit(call, None, b"\x55" * 8)))
                continue
            nwk, ieee = devs[call[1]]
            if 0 <= call[2] <= 254:
                want.append((2, nwk, call[2], 0))
                plan[nwk].append(call)
                d.nontrivial("through a device")
            tasks.append(asyncio.ensure_future(permit(call, nwk, ieee)))
        if tasks:
            _, pending = await asyncio.wait(tasks, timeout=400)
            check(not pending, "permitting does not end")
        for t in tasks:
            t.result()
        await asyncio.sleep(15)
        check(sorted(seen) == sorted(want), "permitted %r, sent %r", want, seen)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


PARTS = [
    Part("through chosen devices", routers, quick=700, thorough=30000),
    Part("all durations and statuses", sweep, cases=list(range(8))),
    Part("histories", histories, quick=1500, thorough=50000),
]
