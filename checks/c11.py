"""C11: late, duplicate and unsolicited responses are ignored."""
import asyncio

from harness import mt, stack
from harness.engine import Discard, Part, check
from zigpy_cc.types import CommandType, Subsystem

from . import common

TECHNIQUE = "model-based stateful testing of generated frame histories"
RULE = ("A case is a history of waits for indications (generated conditions and limits), "
        "synchronous requests, and frames from the coordinator: wanted ones, duplicates, "
        "responses nobody asked for, responses after the failure of their request; "
        "non-trivial when a duplicate, late or unsolicited frame is followed by a wait or "
        "request that still completes. Distinct: by the full choice sequence.")
ASSUMES = ["As C10 for responses that arrive late."]
# (subsystem, command, field conditions can be put on)
IND = [("ZDO", "stateChangeInd", "state"), ("AF", "dataConfirm", "transid"),
       ("ZDO", "activeEpRsp", "srcaddr"), ("ZDO", "nodeDescRsp", "srcaddr"),
       ("ZDO", "mgmtPermitJoinRsp", "srcaddr"), ("ZDO", "bindRsp", "srcaddr"),
       ("ZDO", "bindRsp", "status"), ("SYS", "resetInd", None)]


class Wait:
    pass


def gen_ind(d):
    ss, name, field = d.choice(IND)
    c = mt.cmd(ss, name)
    values = mt.gen_payload(d, c.request, max_payload=40)
    if field:
        values[field] = d.int(0, 2)
    if "srcaddr" in values:
        values["srcaddr"] = d.int(0, 2)
    return c, values


def gen_wait(d):
    ss, name, field = d.choice(IND)
    w = Wait()
    w.cmd = mt.cmd(ss, name)
    w.cond = {field: d.int(0, 2)} if field and d.bool(0.7) else {}
    if name == "bindRsp" and d.bool(0.3):
        w.cond = {"srcaddr": d.int(0, 2), "status": d.int(0, 2)}
    w.limit = d.choice((1.0, 10.0, 60.0))
    w.none = d.bool(0.2) and not w.cond
    return w


def history(d):
    n = d.int(3, 20)
    steps = []
    for _ in range(n):
        k = d.weighted(4, 5, 2, 2, 2, 1)
        if k == 0:
            w = gen_wait(d)
            steps.append(("wait", w))
            d.show("wait for %s %s (%.0f s)", w.cmd, w.cond, w.limit)
        elif k == 1:
            c, v = gen_ind(d)
            copies = d.weighted(6, 3, 1) + 1
            steps.append(("ind", c, v, copies))
            d.show("%s %s x%d", c, {f: v[f] for f in v if f in
                                    ("state", "transid", "srcaddr", "status")}, copies)
            if copies > 1:
                d.label("duplicate indication")
        elif k == 2:
            c = d.choice(common.SREQS)
            v = common.gen_answer(d, c)
            steps.append(("stray", c, v))
            d.show("unsolicited response %s", c)
            d.label("unsolicited response")
        elif k == 5:
            ss, name, _ = d.choice(IND)
            steps.append(("crossed", common.gen_crossed(d, mt.cmd(ss, name) if d.bool()
                                                        else d.choice(common.SREQS))))
            d.show("%s, of a type it never has", name)
        elif k == 3:
            c = d.choice(common.SREQS)
            copies = d.int(1, 3)
            answered = d.bool(0.75)
            steps.append(("request", c, common.gen_args(d, c),
                          common.gen_answer(d, c, 0), copies, answered))
            d.show("request %s, answered %d times%s", c, copies,
                   "" if answered else " only after it failed")
            d.label("duplicate response" if answered and copies > 1 else
                    "late response" if not answered else "request")
        else:
            dt = d.choice((0.05, 1.2, 9.0))
            steps.append(("pause", dt))
            d.show("pause %.2f", dt)
    odd = [i for i, s in enumerate(steps) if s[0] == "stray"
           or (s[0] == "ind" and s[3] > 1) or (s[0] == "request" and (s[4] > 1 or not s[5]))]
    if odd and any(s[0] in ("wait", "request") for s in steps[odd[0] + 1:]):
        d.nontrivial()

    async def main(loop, world):
        app = await stack.started_app(world)
        api = app._api
        stack.add_device(app, b"\x01" * 8, 1)
        stack.add_device(app, b"\x02" * 8, 2)
        ncp = world.ncp
        table = dict(app.devices)
        waits = []

        async def wait_one(w):
            try:
                w.got = (await w.waiter.wait()), loop.t
            except asyncio.TimeoutError:
                w.got = None, loop.t

        for i, s in enumerate(steps):
            if s[0] == "wait":
                w = s[1]
                w.waiter = api.wait_for(CommandType.AREQ, Subsystem(w.cmd.ss), w.cmd.name,
                                        None if w.none else dict(w.cond),
                                        int(w.limit * 1000))
                w.want, w.until, w.got = None, loop.t + w.limit, None
                w.task = asyncio.ensure_future(wait_one(w))
                waits.append(w)
                await asyncio.sleep(0)
            elif s[0] == "ind":
                _, c, v, copies = s
                if any(abs(loop.t - w.until) < 0.02 for w in waits):
                    raise Discard()  # a race the property does not decide
                for w in waits:  # the model: every matching pending wait, once
                    if w.want is None and loop.t < w.until and w.cmd is c and all(
                            v[f] == x for f, x in w.cond.items()):
                        w.want = (mt.norm(v), loop.t)
                for _ in range(copies):
                    ncp.send(common.areq(c, v))
                await asyncio.sleep(0.001)
            elif s[0] == "stray":
                ncp.send(common.srsp(s[1], s[2]))
                await asyncio.sleep(0.001)
            elif s[0] == "crossed":
                ncp.send(s[1])
                await asyncio.sleep(0.001)
            elif s[0] == "pause":
                await asyncio.sleep(s[1])
            else:
                _, c, args, values, copies, answered = s
                raw = common.srsp(c, values)
                ncp.hook = lambda req: [(0.01, raw)] * copies if answered else "drop"
                try:
                    obj = await api.request(c.ss, c.name, dict(args))
                    check(answered, "step %d %s returned %r without an answer", i, c,
                          mt.norm(obj.payload))
                    check(obj.command == c.name and int(obj.subsystem) == c.ss and
                          mt.norm(obj.payload) == mt.norm(values),
                          "step %d %s returned %r, sent %r", i, c, mt.norm(obj.payload),
                          values)
                except asyncio.TimeoutError:
                    check(not answered, "step %d %s timed out although answered", i, c)
                    for _ in range(copies):
                        ncp.send(raw)
                ncp.hook = None
                await asyncio.sleep(0.02)
        await asyncio.sleep(61)
        for w in waits:
            await w.task
            obj, when = w.got
            if w.want is None:
                check(obj is None, "wait for %s %s was completed by %r", w.cmd, w.cond,
                      obj and (obj.command, mt.norm(obj.payload)))
                check(w.until - 0.01 <= when <= w.until + 0.5, "wait ended %.2f s off its "
                      "limit", when - w.until)
            else:
                values, sent = w.want
                check(obj is not None, "wait for %s %s missed %r", w.cmd, w.cond, values)
                check(obj.command == w.cmd.name and int(obj.subsystem) == w.cmd.ss and
                      mt.norm(obj.payload) == values,
                      "wait for %s %s got %s %r, first match was %r", w.cmd, w.cond,
                      obj.command, mt.norm(obj.payload), values)
                check(when <= sent + 0.5, "wait completed %.2f s late", when - sent)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)
        check(app.received == [], "delivered to zigpy: %r", app.received)
        check(app.joins == [] and dict(app.devices) == table, "device table changed")

    stack.scenario(main)


PARTS = [Part("histories", history, quick=1800, thorough=60000)]
