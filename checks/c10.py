"""C10: a silent coordinator costs a bounded time and the link stays usable."""
import asyncio

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.exception import CommandError
from zigpy_cc.types import CommandType, Subsystem

from . import common

TECHNIQUE = "stateful property-based testing with fault injection on a virtual clock"
RULE = ("A case is 2-8 operations in sequence (synchronous requests, resets, waits for an "
        "indication with their own limit), each answered in time, not at all, late, or only "
        "by unrelated frames; non-trivial when an unanswered operation is followed by "
        "another one. Distinct: by the full choice sequence.")
ASSUMES = ["A limit of T seconds is taken as failing within T to T+0.5 s of the command "
           "being written.",
           "A response that arrives after its request failed does so before another request "
           "of the same command is issued (MT responses carry no transaction number)."]
LIMITS = {"bdbStartCommissioning": 20.0, "startupFromApp": 20.0}
INDS = [("ZDO", "stateChangeInd"), ("ZDO", "activeEpRsp"), ("AF", "dataConfirm"),
        ("ZDO", "tcDeviceInd"), ("SYS", "resetInd")]
HOT = [mt.cmd("APP_CNF", "bdbStartCommissioning"), mt.cmd("ZDO", "startupFromApp"),
       mt.cmd("AF", "dataRequest"), mt.cmd("SYS", "version"), mt.cmd("SYS", "osalNvWrite")]


class Op:
    pass


def gen_op(d):
    o = Op()
    o.kind = ("sreq", "reset", "wait")[d.weighted(6, 1, 3)]
    o.fate = ("ok", "silent", "unrelated", "late")[d.weighted(4, 4, 2, 2)]
    if o.kind == "sreq":
        o.cmd = d.choice(HOT) if d.bool(0.5) else d.choice(common.SREQS)
        o.args = common.gen_args(d, o.cmd)
        o.values = common.gen_answer(d, o.cmd, 0)
        o.limit = LIMITS.get(o.cmd.name, 6.0)
        o.raw = common.srsp(o.cmd, o.values)
        if o.fate == "late":
            o.late = d.choice((0.02, 0.3, 5.0))
    elif o.kind == "reset":
        o.cmd = mt.cmd(*d.choice(common.RESETS))
        o.args = {"type": d.u8()} if o.cmd.request else {}
        ind = mt.cmd("SYS", "resetInd")
        o.values = mt.gen_payload(d, ind.request)
        o.raw = common.areq(ind, o.values)
        o.limit, o.late = 30.0, 0.3
    else:
        o.cmd = mt.cmd(*d.choice(INDS))
        o.values = mt.gen_payload(d, o.cmd.request)
        o.raw = common.areq(o.cmd, o.values)
        o.limit = d.choice((0.1, 1.0, 10.0, 60.0))
        o.late = 0.3
    o.delay = d.choice((0.0, 0.001, o.limit / 2, o.limit - 0.05))
    o.noise = [common.gen_areq(d, INDS)[2] for _ in range(d.int(1, 3))] \
        if o.fate == "unrelated" else []
    if o.fate == "unrelated" and o.kind == "sreq":
        o.noise.append(common.gen_foreign_srsp(d, [o.cmd])[2])
    return o


def history(d):
    ops = [gen_op(d) for _ in range(d.int(2, 8))]
    for o in ops:
        d.show("%s %s %s (limit %.1f, delay %.3f)", o.kind, o.cmd, o.fate, o.limit, o.delay)
    for a in ops[:-1]:
        if a.fate != "ok":
            d.nontrivial("failure followed by another operation")
            d.label("unanswered " + a.kind)

    async def main(loop, world):
        api = await stack.new_api()
        port = world.port
        current = []
        world.ncp.hook = lambda req: answers(current[0]) \
            if req.cmd is current[0].cmd else "drop"

        def answers(o):
            out = [(o.limit / 2, f) for f in o.noise]
            if o.fate == "ok":
                out.append((o.delay, o.raw))
            return out

        for i, o in enumerate(ops):
            current[:] = [o]
            start, late = loop.t, None
            try:
                if o.kind == "wait":
                    waiter = api.wait_for(
                        CommandType.AREQ, Subsystem(o.cmd.ss), o.cmd.name, {},
                        int(o.limit * 1000))
                    for delay, raw in answers(o):
                        world.ncp.send(raw, delay, port)
                    obj = await waiter.wait()
                else:
                    before = len(world.ncp.log)
                    obj = await api.request(o.cmd.ss, o.cmd.name, dict(o.args))
                check(o.fate == "ok", "operation %d %s was not answered but returned %r", i,
                      o.cmd, mt.norm(obj.payload))
                check(mt.norm(obj.payload) == mt.norm(o.values),
                      "operation %d %s returned %r, the coordinator sent %r", i, o.cmd,
                      mt.norm(obj.payload), o.values)
                check(loop.t - start <= o.delay + 0.5, "operation %d late by %.2f s", i,
                      loop.t - start - o.delay)
            except asyncio.TimeoutError:
                took = loop.t - start
                check(o.fate != "ok", "operation %d %s was answered after %.2f of %.1f s "
                      "but timed out after %.2f", i, o.cmd, o.delay, o.limit, took)
                check(o.limit - 0.01 <= took <= o.limit + 0.5,
                      "operation %d %s failed after %.2f s, its limit is %.1f s", i, o.cmd,
                      took, o.limit)
            if o.kind != "wait":
                check(len(world.ncp.log) == before + 1, "operation %d was written %d times",
                      i, len(world.ncp.log) - before)
            if o.fate == "late":
                world.ncp.send(o.raw, o.late, port)
                await asyncio.sleep(o.late + 0.01)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)
        world.ncp.hook = None
        obj = await api.request(Subsystem.SYS, "ping", {"capabilities": 1})
        check(obj.payload["capabilities"] == 0x0659, "the link is unusable afterwards")
        api.close()

    stack.scenario(main)


def concurrent(d):
    """Several requests issued at once, any subset unanswered: each costs its own limit."""
    n = d.int(2, 8)
    fates = [d.bool() for _ in range(n)]
    slow = [d.bool(0.2) for _ in range(n)]
    d.show("answered: %s, slow commands: %s", fates, slow)
    if not all(fates):
        d.nontrivial()

    async def main(loop, world):
        api = await stack.new_api()

        def hook(req):
            i = req.v["id"] if req.name == "osalNvRead" else req.v["startdelay"]
            if not fates[i]:
                return "drop"
            if req.name == "osalNvRead":
                return [(0.1, common.srsp(req.cmd, {"status": 0, "len": 1,
                                                    "value": bytes([i])}))]
            return [(0.1, common.srsp(req.cmd, {"status": 0}))]

        world.ncp.hook = hook
        start = loop.t
        expect, t = [], 0.0
        for i in range(n):
            t += 0.1 if fates[i] else 20.0 if slow[i] else 6.0
            expect.append(t)

        async def one(i):
            try:
                if slow[i]:
                    await api.request(Subsystem.ZDO, "startupFromApp", {"startdelay": i})
                else:
                    await api.request(Subsystem.SYS, "osalNvRead", {"id": i, "offset": 0})
                ok = True
            except asyncio.TimeoutError:
                ok = False
            return ok, loop.t - start

        results = await asyncio.gather(*[one(i) for i in range(n)])
        for i, (ok, when) in enumerate(results):
            check(ok == fates[i], "request %d answered=%s but success=%s", i, fates[i], ok)
            check(expect[i] - 0.05 <= when <= expect[i] + 0.5 + 0.1 * i,
                  "request %d ended after %.2f s, expected %.2f", i, when, expect[i])

    stack.scenario(main)


PARTS = [
    Part("histories", history, quick=2500, thorough=80000),
    Part("concurrent requests", concurrent, quick=600, thorough=15000),
]
