"""C09: synchronous requests are sent one at a time, in order, and all complete."""
import asyncio

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.exception import CommandError

from . import common

TECHNIQUE = "stateful property-based testing of generated schedules on a virtual clock"
RULE = ("A case is 2-12 requests started at generated times (many at the same instant), "
        "each answered after a generated delay, refused with a generated status, left "
        "unanswered, or abandoned by its caller while queued or in flight; non-trivial when two "
        "requests are outstanding at once. Distinct: by the full choice sequence.")
ASSUMES = ["Requests issued at the same instant are ordered by the order their tasks were "
           "created."]
SLOW = ("bdbStartCommissioning", "startupFromApp")


class Call:
    pass


def gen_call(d, t, index):
    r = Call()
    r.index, r.t = index, t
    k = d.weighted(8, 2, 1, 1)
    if k == 3:
        r.cmd = mt.cmd("SYS", "resetReq")
        r.args = {"type": d.int(0, 1)}
        r.fate = d.choice(("ok", "ok", "drop"))
        r.values = {"reason": d.u8(), "transportrev": 2, "productid": index,
                    "majorrel": 2, "minorrel": 7, "hwrev": d.u8()}
        r.delay = d.choice((0.0, 0.5, 29.0))
        r.limit = 30.0
    else:
        r.cmd = (mt.cmd("SYS", "osalNvRead"), d.choice(common.SREQS),
                 mt.cmd("APP_CNF", "bdbStartCommissioning"))[k]
        r.args = common.gen_args(d, r.cmd)
        r.fate = d.choice(("ok", "ok", "ok", "ok", "error", "drop"))
        has = any(n == "status" for n, _ in r.cmd.response)
        if r.fate == "error" and not has:
            r.fate = "ok"
        r.values = common.gen_answer(d, r.cmd, d.int(1, 255) if r.fate == "error" else 0)
        if r.cmd.name == "osalNvRead":
            r.values["value"] = bytes([index]) * 3
            r.values["len"] = 3
        r.delay = d.choice((0.0, 0.001, 0.05, 1.0, 5.9))
        r.limit = 20.0 if r.cmd.name in SLOW else 6.0
    r.cancel_after = d.choice((0.0, 0.0003, 0.02, 0.5, 3.0)) if d.bool(0.12) else None
    r.outcome = None
    r.cancelled = r.either = False
    return r


def schedule(d):
    calls, t = [], 0.0
    for i in range(d.int(2, 12)):
        calls.append(gen_call(d, t, i))
        if d.bool(0.45):
            t += d.choice((0.0005, 0.01, 0.3, 4.0, 8.0))
    # callers that give up in the very moment some response arrives
    behind = {}
    if d.bool(0.25):
        for _ in range(d.int(1, 3)):
            behind.setdefault(d.int(1, len(calls)), []).append(
                (d.int(0, len(calls) - 1), d.int(0, 8)))
        d.show("given up behind response n by (request, ticks): %r", behind)
    for r in calls:
        d.show("t=%.4f %s %s delay=%s%s", r.t, r.cmd, r.fate, r.delay,
               "" if r.cancel_after is None else " cancel after %s" % r.cancel_after)

    async def main(loop, world):
        api = await stack.new_api()
        base = loop.t
        started, written, busy = [], [], [None, 0.0]

        def hook(req):
            live = [r for r in started if r not in written and not r.cancelled]
            check(live, "%r was written without being requested", req)
            r = live[0]
            check(req.cmd is r.cmd and req.payload == mt.encode(r.cmd.request, r.args),
                  "wrote %r but %s %r was requested first", req, r.cmd, r.args)
            check(loop.t >= busy[1] - 1e-6,
                  "%s written at %.4f while %s is outstanding until %.4f", r.cmd,
                  loop.t - base, busy[0] and busy[0].cmd, busy[1] - base)
            written.append(r)
            r.sent = loop.t
            busy[:] = [r, loop.t + (r.limit if r.fate == "drop" else r.delay)]
            if r.fate == "drop":
                return "drop"
            if r.cmd.type == mt.AREQ:
                return [(r.delay, mt.build("SYS", "resetInd", **r.values))]
            return [(r.delay, common.srsp(r.cmd, r.values))]

        world.ncp.hook = lambda req: guarded(req)
        failures = []

        def guarded(req):
            try:
                return hook(req)
            except BaseException as e:
                failures.append(e)
                return "drop"

        async def one(r):
            started.append(r)
            try:
                obj = await api.request(r.cmd.ss, r.cmd.name, dict(r.args))
                r.outcome = ("ok", mt.norm(obj.payload))
            except CommandError as e:
                r.outcome = ("error", int(e.status))
            except asyncio.TimeoutError:
                r.outcome = ("drop", None)
            r.done = loop.t

        tasks = []
        responses = [0]

        async def give_up(i, ticks):
            for _ in range(ticks - 1):
                await asyncio.sleep(0)
            r, task = calls[i], tasks[i]
            if r in started and not task.done():
                r.cancelled = True
                r.was_written = r in written
                r.either = r.was_written
                d.label("given up right behind a response")
                task.cancel()

        def delivered(port):
            responses[0] += 1
            for i, ticks in behind.get(responses[0], ()):
                if i < len(tasks):
                    asyncio.ensure_future(give_up(i, ticks))

        world.on_deliver = delivered
        for r in calls:
            if base + r.t > loop.t:
                await asyncio.sleep(base + r.t - loop.t)
            task = asyncio.ensure_future(one(r))
            tasks.append(task)
            await asyncio.sleep(0)
            if len([x for x in tasks if not x.done()]) > 1:
                d.nontrivial("overlapping requests")

            def withdraw(r=r, task=task):
                if r in started and not task.done() and not r.cancelled:
                    r.cancelled = True
                    r.was_written = r in written
                    d.label("request in flight abandoned" if r.was_written else
                            "queued request abandoned")
                    task.cancel()

            if r.cancel_after is not None:
                loop.call_later(r.cancel_after, withdraw)
        await asyncio.wait(tasks)
        for e in failures:
            raise e
        for r, task in zip(calls, tasks):
            if r.cancelled:
                check((r in written) == r.was_written,
                      "%s was written after its caller gave up", r.cmd)
                check(task.cancelled() or r.either, "abandoned request %s ended as %r", r.cmd, r.outcome)
                continue
            if task.exception() is not None:
                raise task.exception()
            want = (r.fate, mt.norm(r.values) if r.fate == "ok" else
                    r.values["status"] if r.fate == "error" else None)
            check(r.outcome == want, "request %d %s ended %r, expected %r", r.index, r.cmd,
                  r.outcome, want)
            due = r.sent + (r.limit if r.fate == "drop" else r.delay)
            check(r.done <= due + 0.5, "request %d %s ended %.2f s late", r.index, r.cmd,
                  r.done - due)
        api.close()

    stack.scenario(main)


PARTS = [Part("concurrent requests", schedule, quick=2500, thorough=80000)]
