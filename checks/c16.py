"""C16: ZDO replies reach zigpy once, under the transaction that asked for them."""
import asyncio

import zigpy.types as zt
import zigpy.zdo.types as zz
from harness import mt, stack
from harness.engine import Discard, Part, check

from . import common, zdo

TECHNIQUE = "model-based stateful property-based testing of request/reply histories"
RULE = ("A case is a history of ZDO requests to 1-4 devices (the coordinator among them; generated kinds, arguments, "
        "transaction numbers; some refused by or unanswered from the coordinator), replies "
        "with generated content in generated order, unsolicited replies and pauses; "
        "non-trivial when at least one reply is solicited. Distinct: by the full choice "
        "sequence.")
ASSUMES = ["Replies arrive less than 10 s or more than 10.2 s after the request was made.",
           "Routing- and binding-table replies are outside the property (the library does "
           "not decode these lists)."]
# operation -> (MT reply, zigpy cluster of the reply)
REPLY = {"node": ("nodeDescRsp", 0x8002), "power": ("powerDescRsp", 0x8003),
         "simple": ("simpleDescRsp", 0x8004), "eps": ("activeEpRsp", 0x8005),
         "match": ("matchDescRsp", 0x8006), "bind": ("bindRsp", 0x8021),
         "unbind": ("unbindRsp", 0x8022), "lqi": ("mgmtLqiRsp", 0x8031),
         "leave": ("mgmtLeaveRsp", 0x8034), "permit": ("mgmtPermitJoinRsp", 0x8036)}
OPS = tuple(REPLY)
MSG = mt.cmd("AF", "incomingMsg")
NWKS = (0x1234, 0x0001, 0xFFF0, 0x0000)  # the last is the coordinator itself


def gen_reply(d, op, nwk, ok=False):
    """(raw frame, content after the source address)"""
    c = mt.cmd("ZDO", REPLY[op][0])
    v = mt.gen_payload(d, c.request, max_payload=80)
    v["srcaddr"] = nwk
    if ok:
        v["status"] = 0
    data = mt.encode(c.request, v)
    return mt.frame(mt.AREQ, c.ss, c.id, data), data[2:]


def target(app, i, nwk, sleepy=False):
    dev = stack.add_device(app, bytes([5, i] + [8] * 6), nwk) if nwk else \
        app.devices[app.ieee]
    # known, so that zigpy makes no requests of its own
    dev.node_desc = zz.NodeDescriptor(2 if sleepy else 1, 64, 0x80 if sleepy else 0x8E, 4476,
                                      82, 255, 0, 255, 0)
    return dev


class Ask:
    pass


class Book:
    """Who gets which reply: in request order; the first reply to equal requests (one of
    them perhaps repeated because of a lost reply) answers them all."""

    def __init__(self):
        self.places = []  # [since, request, not answered yet]

    def ask(self, a, t):
        self.places.append([t, a, True])

    def drop(self, t):
        self.places = [p for p in self.places if t - p[0] < 10]

    def reply(self, nwk, op):
        mine = [p for p in self.places if (p[1].nwk, p[1].op) == (nwk, op)]
        if not mine:
            return []
        self.places.remove(mine[0])
        out = []
        for p in mine:
            if p[1].fields == mine[0][1].fields:
                if p[2]:
                    out.append(p[1])
                p[2] = False
        return out


def gen_ask(d, ndev, ops):
    a = Ask()
    a.nwk = NWKS[d.uniform(0, ndev - 1)]
    a.op = d.choice(ops)
    _, a.cmd, a.args, a.name, a.fields = zdo.gen(d, a.nwk, (a.op,))
    a.tsn = d.choice((0, 1, 2, 255)) if d.bool(0.5) else d.u8()
    a.fate = ("ok", "refused", "silent")[d.weighted(8, 2, 1)]
    a.status = d.int(1, 255)
    a.sent = False
    return a


def history(d):
    ndev = d.int(1, 4)
    ops = d.sample(OPS, d.int(1, 4))
    steps = []
    for _ in range(d.int(1, 10)):
        k = d.weighted(4, 5, 1, 2)
        if k == 0:
            batch = [gen_ask(d, ndev, ops) for _ in range(d.weighted(4, 3, 2, 1) + 1)]
            steps.append(("ask", batch))
            for a in batch:
                d.show("ask 0x%04x %s tsn=%d %s", a.nwk, a.op, a.tsn, a.fate)
            if len(batch) > 1:
                d.label("concurrent requests")
        elif k == 1:
            nwk = NWKS[d.int(0, ndev - 1)] if d.bool(0.9) else 0x7777
            op = d.choice(ops) if d.bool(0.9) else d.choice(OPS)
            steps.append(("reply", nwk, op, gen_reply(d, op, nwk)))
            d.show("reply from 0x%04x %s", nwk, op)
        elif k == 2:
            v = mt.gen_payload(d, MSG.request, max_payload=40)
            v["srcaddr"] = NWKS[d.int(0, ndev - 1)]
            steps.append(("msg", v))
            d.show("message from 0x%04x", v["srcaddr"])
        else:
            dt = d.choice((0.3, 3.0, 9.0, 10.3))
            steps.append(("pause", dt))
            d.show("pause %.1f", dt)

    async def main(loop, world):
        app = await stack.started_app(world)
        ncp = world.ncp
        devices = {n: target(app, i, n)
                   for i, n in enumerate(NWKS[:ndev])}
        book, want, tasks = Book(), [], []
        asked = []

        def hook(req):
            if req.ss != mt.ZDO:
                return None
            a = asked.pop(0)
            check(zdo.same(req, a.name, a.fields), "asked %s %r, sent %r", a.name,
                  a.fields, req)
            if a.fate == "silent":
                return "drop"
            return [ncp.status(req, 0 if a.fate == "ok" else a.status)]

        ncp.hook = hook

        async def one(a):
            try:
                res = await app.request(
                    devices[a.nwk], 0, a.cmd, 0, 0, a.tsn,
                    bytes([a.tsn]) + devices[a.nwk].zdo._serialize(a.cmd, *a.args))
                check(int(res[0]) == (0 if a.fate == "ok" else a.status),
                      "status %r for a request that was %s", res, a.fate)
            except asyncio.TimeoutError:
                check(a.fate == "silent", "timed out although answered")

        for s in steps:
            if s[0] == "ask":
                for a in s[1]:
                    a.made = loop.t
                    asked.append(a)
                    tasks.append(asyncio.ensure_future(one(a)))
                    if a.fate == "ok":
                        book.ask(a, loop.t)
                await asyncio.sleep(0.05)
                for t in tasks:
                    if not t.done():
                        await t  # silent ones: 6 s each
            elif s[0] == "reply":
                _, nwk, op, (raw, content) = s
                if any(9.9 < loop.t - p[0] < 10.15 for p in book.places):
                    raise Discard()
                book.drop(loop.t)
                whose = book.reply(nwk, op)
                for a in whose:
                    want.append((nwk, REPLY[op][1], 0, 0, bytes([a.tsn]) + content))
                    d.nontrivial("solicited reply")
                if len(whose) > 1:
                    d.label("answers equal requests")
                if not whose:
                    d.label("unsolicited reply")
                ncp.send(raw)
                await asyncio.sleep(0.01)
            elif s[0] == "msg":
                v = s[1]
                want.append((v["srcaddr"], v["clusterid"], v["srcendpoint"],
                             v["dstendpoint"], v["data"]))
                ncp.send(common.areq(MSG, v))
                await asyncio.sleep(0.01)
            else:
                await asyncio.sleep(s[1])
            got = [m.row for m in app.received]
            check(got == want, "zigpy received %r, expected %r", got, want)
        for t in tasks:
            await t
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


def every_tsn(d, case):
    """Each operation under every transaction number."""
    op, lo = case
    d.show("%s, transaction numbers %d..%d", op, lo, lo + 31)
    d.nontrivial()

    async def main(loop, world):
        app = await stack.started_app(world)
        dev = stack.add_device(app, b"\x05" * 8, 0x1234)
        for tsn in range(lo, lo + 32):
            _, cmd, args, name, _ = zdo.gen(d, 0x1234, (op,))
            raw, content = gen_reply(d, op, 0x1234)
            res = await app.request(dev, 0, cmd, 0, 0, tsn,
                                    bytes([tsn]) + dev.zdo._serialize(cmd, *args))
            check(int(res[0]) == 0, "%s refused: %r", op, res)
            del app.received[:]
            world.ncp.send(raw)
            world.ncp.send(raw)
            await asyncio.sleep(0.01)
            want = [(0x1234, REPLY[op][1], 0, 0, bytes([tsn]) + content)]
            got = [m.row for m in app.received]
            check(got == want, "transaction %d: zigpy received %r, expected %r", tsn, got,
                  want)

    stack.scenario(main)


def long_histories(d, case):
    """Many requests are made and completed while a reply is outstanding."""
    op, others, kind = case
    _, cmd, args, name, _ = zdo.gen(d, 0x1234, (op,))
    raw, content = gen_reply(d, op, 0x1234)
    d.show("%s, %d other requests (%s) before its reply", op, others,
           ("ping", "message", "ZDO request to another device")[kind])
    d.nontrivial()

    async def main(loop, world):
        app = await stack.started_app(world)
        world.ncp.latency = 1e-5
        dev = stack.add_device(app, b"\x05" * 8, 0x1234)
        two = stack.add_device(app, b"\x06" * 8, 0x4321)
        res = await app.request(dev, 0, cmd, 0, 0, 77,
                                bytes([77]) + dev.zdo._serialize(cmd, *args))
        check(int(res[0]) == 0, "%s refused: %r", op, res)
        begin = loop.t
        for i in range(others):
            if kind == 0:
                await app._api.request(1, "ping", {"capabilities": 1})
            elif kind == 1:
                await app.request(two, 260, 6, 1, 1, i & 255, b"abc")
            else:
                await app.request(two, 0, zz.ZDOCmd.Node_Desc_req, 0, 0, i & 255,
                                  bytes([i & 255, 0x21, 0x43]))
        check(loop.t - begin < 9, "the harness is too slow: %r", loop.t - begin)
        world.ncp.send(raw)
        world.ncp.send(raw)
        await asyncio.sleep(0.01)
        want = [(0x1234, REPLY[op][1], 0, 0, bytes([77]) + content)]
        got = [m.row for m in app.received]
        check(got == want, "after %d other requests zigpy received %r, expected %r", others,
              got, want)

    stack.scenario(main, max_iterations=400000 + 40 * others)


def long_cases(tier):
    out = [[OPS[(i + k) % len(OPS)], n, k] for k in range(3) for i, n in enumerate(
        (7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200))]
    out += [[OPS[k], n, k] for k in range(3) for n in (255, 256, 257, 520)]
    out += [["node", 1025, 0]]
    if tier == "thorough":
        out += [[OPS[i % len(OPS)], n, k] for k in range(3)
                for i, n in enumerate(range(1, 600, 3))]
        out += [["node", n, 0] for n in (2048, 4096, 8192, 32768, 65535, 65536)]
    return out


def through_zigpy(d):
    """Concurrent calls of zigpy's ZDO methods each return their own reply."""
    ndev = d.int(1, 4)
    start = d.choice((0, 250, 254, 255)) if d.bool(0.6) else d.u8()
    calls = []
    for _ in range(d.int(1, 8)):
        a = gen_ask(d, ndev, OPS)
        a.delay = d.choice((0.002, 0.1, 1.0, 4.0)) + 0.001 * d.int(0, 9)
        a.raw, a.content = gen_reply(d, a.op, a.nwk, ok=True)
        calls.append(a)
        d.show("0x%04x %s reply after %.3f", a.nwk, a.op, a.delay)
    # replies of one kind from one device come in request order
    last = {}
    for a in calls:
        k = (a.nwk, a.op)
        a.delay = max(a.delay, last.get(k, 0) + 0.001)
        last[k] = a.delay
    d.nontrivial("several calls" if len(calls) > 1 else "one call")

    async def main(loop, world):
        app = await stack.started_app(world)
        app.pass_on = True
        ncp = world.ncp
        devices = {n: target(app, i, n)
                   for i, n in enumerate(NWKS[:ndev])}
        for _ in range(start):
            app.get_sequence()
        ncp.hook = lambda req: [ncp.status(req, 0)]
        begin = loop.t
        tasks = [asyncio.ensure_future(getattr(devices[a.nwk].zdo, a.cmd.name)(*a.args))
                 for a in calls]
        await asyncio.sleep(0.02)
        book = Book()
        for a in calls:
            book.ask(a, loop.t)
        for a in calls:
            for x in book.reply(a.nwk, a.op):
                x.due = a.content
        for a in calls:
            ncp_delay = max(begin + 0.05 + a.delay - loop.t, 0)
            loop.call_later(ncp_delay, ncp.send, a.raw)
        for a, task in zip(calls, tasks):
            try:
                res = await asyncio.wait_for(task, 30)
            except asyncio.TimeoutError:
                check(False, "%s to 0x%04x got no reply", a.cmd.name, a.nwk)
            schema = zz.CLUSTERS[REPLY[a.op][1]][1]
            want, _ = zt.deserialize(a.due, schema)
            check(list(res) == list(want), "%s to 0x%04x returned %r, the device "
                  "answered %r", a.cmd.name, a.nwk, res, want)

    stack.scenario(main)


def given_up(d):
    """Callers give up while their request waits for its turn; others go on."""
    product = d.int(0, 2)
    ndev = d.choice((1, 2, 4))
    ops = d.sample(OPS, d.int(1, 2))
    busy = [d.choice((0.05, 0.5, 2.0)) for _ in range(d.int(1, 3))]
    groups = d.int(0, 3)
    asks = []
    for _ in range(d.int(1, 7)):
        a = gen_ask(d, ndev, ops)
        a.fate, a.task, a.withdrawn = "ok", None, False
        a.start = d.choice((0.0, 0.0, 0.0, 0.01, 1.0, 3.0))
        a.cancel = a.start + d.choice((0.0, 0.0, 0.005, 0.04, 0.3, 1.0)) if d.bool() \
            else None
        asks.append(a)
        d.show("ask 0x%04x %s tsn=%d at %.3f%s", a.nwk, a.op, a.tsn, a.start,
               "" if a.cancel is None else ", given up at %.3f" % a.cancel)
    asks.sort(key=lambda a: a.start)
    replies = [gen_reply(d, a.op, a.nwk) for a in asks]
    extra = [(nwk, op, gen_reply(d, op, nwk)) for nwk in NWKS[:ndev] for op in ops]

    async def main(loop, world):
        world.ncp.product = product
        app = await stack.started_app(world)
        ncp = world.ncp
        other = stack.add_device(app, b"\x09" * 8, 0x0BAD)
        devices = {n: target(app, i, n)
                   for i, n in enumerate(NWKS[:ndev])}
        queue, sent, waits = [], [], list(busy)

        def hook(req):
            if req.ss != mt.ZDO:
                return [(waits.pop(0) if waits else 0.003, ncp.status(req, 0)[1])]
            while queue and queue[0].withdrawn:
                queue.pop(0)
            check(queue, "sent %r, nobody asked for it", req)
            a = queue.pop(0)
            check(zdo.same(req, a.name, a.fields), "asked %s %r, sent %r", a.name,
                  a.fields, req)
            a.sent = True
            sent.append(a)
            return [(d.choice((0.002, 0.002, 0.1)), ncp.status(req, 0)[1])]

        ncp.hook = hook

        def start(a):
            queue.append(a)
            a.task = asyncio.ensure_future(app.request(
                devices[a.nwk], 0, a.cmd, 0, 0, a.tsn,
                bytes([a.tsn]) + devices[a.nwk].zdo._serialize(a.cmd, *a.args)))

        def give_up(a):
            if not a.task.done():
                a.task.cancel()
                a.withdrawn = True

        first = [asyncio.ensure_future(app.request(other, 260, 6, 1, 1, i, b"abc"))
                 for i in range(len(busy))]
        first += [asyncio.ensure_future(app.mrequest(7, 260, 6, 1, i, b"abc"))
                  for i in range(groups)]
        await asyncio.sleep(0.001)
        begin = loop.time()
        for a in asks:
            loop.call_at(begin + a.start, start, a)
            if a.cancel is not None:
                loop.call_at(begin + a.cancel + 1e-6, give_up, a)
        await asyncio.sleep(8.0)
        await asyncio.gather(*first)
        # given up after it was sent: the reply comes all the same, whose it is
        # cannot be told from that to a later request of its kind
        unclear = {(a.nwk, a.op) for a in asks if a.withdrawn and a.sent}
        want = []
        for a in asks:
            check(a.task.done(), "%s to 0x%04x hangs", a.op, a.nwk)
            if not a.withdrawn:
                check(int(a.task.result()[0]) == 0, "refused: %r", a.task.result())
            elif not a.sent:
                d.nontrivial("given up before it was sent")
        book = Book()
        for a in sent:
            if not a.withdrawn:
                book.ask(a, loop.t)
        for a in sent:
            raw, content = replies[asks.index(a)]
            if (a.nwk, a.op) not in unclear:
                for x in book.reply(a.nwk, a.op):
                    want.append((x.nwk, REPLY[x.op][1], 0, 0, bytes([x.tsn]) + content))
                ncp.send(raw)
        await asyncio.sleep(0.01)
        got = [m.row for m in app.received]
        check(got == want, "zigpy received %r, expected %r", got, want)
        for nwk, op, (raw, _) in extra:
            if (nwk, op) not in unclear:
                ncp.send(raw)
        await asyncio.sleep(0.01)
        got = [m.row for m in app.received]
        check(got == want, "nobody waits for a reply but zigpy received %r", got[len(want):])
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


def repeated(d):
    """Replies get lost; zigpy repeats the request."""
    op = d.choice(OPS)
    nwk = NWKS[d.int(0, 2)]
    _, _, args, _, _ = zdo.gen(d, nwk, (op,))
    lost = d.int(0, 2)
    delay = d.choice((0.002, 0.1, 1.0, 3.0, 4.5, 4.99))
    pause = d.choice((0.1, 0.1, 0.5, 1.0, 3.0))
    sleepy = d.bool(0.2)
    start = d.u8()
    raw, content = gen_reply(d, op, nwk, ok=True)
    d.show("%s to 0x%04x, %d replies lost, repeated %.1f s after the time-out, then "
           "answered after %.3f s%s", op, nwk, lost, pause, delay,
           ", end device" if sleepy else "")
    if lost:
        d.nontrivial("%d lost" % lost)

    async def main(loop, world):
        app = await stack.started_app(world)
        app.pass_on = True
        ncp = world.ncp
        for _ in range(start):
            app.get_sequence()
        dev = target(app, 0, nwk, sleepy)
        seen = []

        def hook(req):
            seen.append(req)
            return [ncp.status(req, 0)] + ([(delay, raw)] if len(seen) > lost else [])

        ncp.hook = hook
        cmd = dict((o, c) for o, c in CALLS)[op]
        try:
            res = await getattr(dev.zdo, cmd.name)(*args, tries=3, delay=pause)
        except asyncio.TimeoutError:
            check(False, "%s: tried %d times, %d replies were lost, the others are not "
                  "used", cmd.name, len(seen), lost)
        check(len(seen) == lost + 1, "sent %r", seen)
        want, _ = zt.deserialize(content, zz.CLUSTERS[REPLY[op][1]][1])
        check(list(res) == list(want), "%s returned %r, the device answered %r", cmd.name,
              res, want)

    stack.scenario(main)


def unaccepted(d):
    """A reply arrives while another request of the kind is not accepted yet."""
    op = d.choice(OPS)
    nwk = NWKS[d.int(0, 3)]
    first = zdo.gen(d, nwk, (op,))
    second = first if d.bool(0.7) else zdo.gen(d, nwk, (op,))
    tsns = [d.u8(), d.u8()]
    ack = d.choice((0.01, 0.3, 2.0, 5.9))
    part = d.choice((0.001, 0.5, 0.99))
    status = d.int(1, 255) if d.bool(0.6) else 0
    replies = [gen_reply(d, op, nwk) for _ in range(3)]
    d.show("%s to 0x%04x, the second %s after %.2f s, a reply meanwhile", op, nwk,
           "refused" if status else "accepted", ack)
    d.nontrivial("refused" if status else "accepted")

    async def main(loop, world):
        app = await stack.started_app(world)
        ncp = world.ncp
        dev = target(app, 0, nwk)
        acks = [(0.001, 0), (ack, status)]
        ncp.hook = lambda req: [(a, ncp.status(req, st)[1]) for a, st in [acks.pop(0)]]

        def ask(i, q):
            return asyncio.ensure_future(app.request(
                dev, 0, q[1], 0, 0, tsns[i], bytes([tsns[i]]) +
                dev.zdo._serialize(q[1], *q[2])))

        res = await ask(0, first)
        check(int(res[0]) == 0, "refused: %r", res)
        task = ask(1, second)
        await asyncio.sleep(ack * part)
        check(not task.done(), "the second request ended before it was acknowledged")
        ncp.send(replies[0][0])
        res = await task
        check(int(res[0]) == status, "the second request gave %r, refused with %d", res,
              status)
        await asyncio.sleep(0.01)
        for raw, _ in replies[1:]:
            ncp.send(raw)
            await asyncio.sleep(0.01)
        want = [(nwk, REPLY[op][1], 0, 0, bytes([tsn]) + content)
                for tsn, (_, content) in zip(tsns, replies)][:1 if status else 2]
        got = [m.row for m in app.received]
        check(got == want, "zigpy received %r, expected %r", got, want)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


CALLS = [("node", zdo.CMD.Node_Desc_req), ("power", zdo.CMD.Power_Desc_req),
         ("simple", zdo.CMD.Simple_Desc_req), ("eps", zdo.CMD.Active_EP_req),
         ("match", zdo.CMD.Match_Desc_req), ("bind", zdo.CMD.Bind_req),
         ("unbind", zdo.CMD.Unbind_req), ("lqi", zdo.CMD.Mgmt_Lqi_req),
         ("leave", zdo.CMD.Mgmt_Leave_req), ("permit", zdo.CMD.Mgmt_Permit_Joining_req)]


PARTS = [
    Part("every transaction number", every_tsn,
         cases=[[op, lo] for op in OPS for lo in range(0, 256, 32)]),
    Part("long histories", long_histories, cases=long_cases),
    Part("histories", history, quick=1500, thorough=50000),
    Part("given up", given_up, quick=500, thorough=20000),
    Part("through zigpy", through_zigpy, quick=500, thorough=15000),
    Part("not accepted yet", unaccepted, quick=400, thorough=10000),
    Part("repeated", repeated, quick=300, thorough=10000),
]
