"""C27: group and broadcast traffic is paced for the adapter."""
import asyncio

import zigpy.types as zt
from harness import stack
from harness.engine import Part, check

TECHNIQUE = "stateful property-based testing of request schedules on a virtual clock"
RULE = ("A case is a firmware generation and several concurrent clients, each issuing a "
        "generated sequence of group, broadcast and unicast requests with pauses (often "
        "none), against an adapter that accepts, refuses or does not answer after "
        "generated delays, also around a loss of the port and the restart; non-trivial when requests have to wait for their turn. "
        "Distinct: by the full choice sequence.")
ASSUMES = ["No request is cancelled by its caller once it was transmitted."]
DELAYS = (0.0005, 0.001, 0.003, 0.05, 0.1999, 0.2, 0.25, 1.0, 5.9)
EPS = 1e-6


class Item:
    pass


def gen_item(d, number, quick):
    i = Item()
    i.kind = ("group", "broadcast", "unicast")[d.weighted(3, 3, 2)]
    i.number = number
    k = d.weighted(60 if quick else 12, 2, 1)
    i.status = 0 if k != 1 else d.int(1, 255)
    i.silent = k == 2 and i.kind != "unicast"
    i.delay = d.choice(DELAYS[:3]) if d.bool(0.98 if quick else 0.6) else d.choice(DELAYS)
    i.pause = 0.0 if d.bool(0.6) else d.choice((0.001, 0.1, 0.199, 0.2, 0.201, 0.5, 3.0))
    # whatever it is that is sent
    i.pad = bytes(d.int(0, 200)) if d.bool(0.3) else b""
    i.how = (d.u16(), d.choice((260, 0xC05E, 0xA1E0, 1)), d.u16(), d.int(1, 240), d.int(1, 255),
             d.int(0, 255), d.choice((0xFFFC, 0xFFFD, 0xFFFF)), d.u8()) if d.bool(0.3) else \
        (9, 260, 6, 1, 1, 30, 0xFFFD, None)
    i.issued = i.sent = i.accepted = i.ended = None
    i.result = i.count = 0
    return i


def schedules(d):
    product = d.int(0, 2)
    limit = 16 if product == 1 else 2
    clients, items = [], []
    shape = d.weighted(3, 2)
    n = (d.uniform(14, 34) if product == 1 else d.int(2, 20)) if shape == 0 else d.int(2, 5)
    quick = d.bool()
    for _ in range(n):
        seq = []
        for _ in range(d.int(1, 3) if shape == 0 else d.int(2, 12)):
            i = gen_item(d, len(items), quick)
            items.append(i)
            seq.append(i)
        clients.append((d.choice((0.0, 0.0, 0.01, 0.1, 0.2, 0.4, 2.0)), seq))
        d.show("client: %s", " ".join("%s%s" % (x.kind[0], "!" if x.silent else "?" if
                                                x.status else "") for x in seq))
    cancels = []
    if d.bool(0.2):  # callers that give up while still waiting
        cancels = [(d.choice((0.001, 0.1, 0.2, 0.3, 1.0)), d.int(0, n - 1))]
        d.label("a waiting caller gives up")

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        app = await stack.started_app(world)
        dev = stack.add_device(app, b"\x07" * 8, 0x1234)
        order = []
        waited = [0]

        def hook(req):
            v = req.v
            i = items[int.from_bytes(v["data"][:2], "big")]
            i.count += 1
            i.sent = loop.t
            order.append(i)
            if i.sent > i.issued + EPS:
                waited[0] += 1
            if i.silent:
                return "drop"

            def accept():
                i.accepted = loop.t
                req.answered = True
                ncp.send(ncp.status(req, i.status)[1])

            loop.call_later(i.delay, accept)
            return []

        ncp.hook = hook

        def busy(i):
            """Is this group or broadcast transmission in progress now?"""
            if i.sent is None or i.kind == "unicast":
                return False
            if i.ended is not None and (i.status or i.silent):
                return False
            return i.accepted is None or loop.t < i.accepted + 0.2 - EPS

        most = [0]
        real = hook

        def counting(req):
            out = real(req)
            k = sum(1 for i in items if busy(i))
            most[0] = max(most[0], k)
            check_later.append((k, loop.t))
            return out

        check_later = []
        ncp.hook = counting

        async def client(start, seq):
            await asyncio.sleep(start)
            for i in seq:
                if i.pause:
                    await asyncio.sleep(i.pause)
                i.issued = loop.t
                i.ahead = [x for x in items if x.issued is not None and x.ended is None
                           and x is not i]
                i.rank = len([x for x in items if x.issued is not None])
                data = i.number.to_bytes(2, "big") + i.pad
                group, profile, cluster, src, dst, radius, addr, tsn = i.how
                tsn = i.number & 255 if tsn is None else tsn
                try:
                    if i.kind == "group":
                        i.result = await app.mrequest(group, profile, cluster, src, tsn,
                                                      data, hops=radius)
                    elif i.kind == "broadcast":
                        i.result = await app.broadcast(
                            profile, cluster, src, dst, 0, radius, tsn, data,
                            zt.BroadcastAddress(addr))
                    else:
                        i.result = await app.request(dev, profile, cluster, src, dst, tsn,
                                                     data, expect_reply=bool(i.delay > 1))
                    i.result = int(i.result[0])
                except asyncio.TimeoutError:
                    i.result = "timeout"
                i.ended = loop.t

        tasks = [asyncio.ensure_future(client(*c)) for c in clients]
        gone = set()
        for when, k in sorted(cancels):
            await asyncio.sleep(when)
            cur = [i for i in clients[k][1] if i.issued is not None and i.ended is None]
            if cur and cur[0].sent is None:
                tasks[k].cancel()
                gone.update(i.number for i in clients[k][1] if i.ended is None)
                for i in cur:
                    i.ended = loop.t
        done, late = await asyncio.wait(tasks, timeout=3000)
        check(not late, "%d clients never got through", len(late))
        for t in done:
            if not t.cancelled():
                t.result()
        if waited[0]:
            d.nontrivial()
        for k, t in check_later:
            check(k <= limit, "%d group or broadcast transmissions in progress at %.4f, "
                  "limit %d", k, t, limit)
        if most[0] == limit:
            d.label("limit reached, product %d" % product)
        for i in items:
            if i.number in gone:
                check(i.count == 0, "a request given up while waiting was transmitted")
                continue
            check(i.count == 1, "%s request %d was transmitted %d times", i.kind, i.number,
                  i.count)
            want = "timeout" if i.silent else i.status
            check(i.result == want, "%s request %d returned %r, expected %r", i.kind,
                  i.number, i.result, want)
        paced = [i for i in order if i.kind != "unicast"]
        asked = sorted(paced, key=lambda i: i.rank)
        same = [i.number for i in paced] == [i.number for i in asked]
        check(same, "transmitted in order %r, requested in order %r",
              [i.number for i in paced], [i.number for i in asked])
        for i in order:
            if i.kind == "unicast":
                bound = sum(0.2 + (6.0 if x.silent else x.delay) for x in i.ahead) + 0.01
                check(i.sent - i.issued <= bound, "a unicast request waited %.3f s behind "
                      "%d others that take %.3f s", i.sent - i.issued, len(i.ahead), bound)
        bad = stack.loop_errors(loop)
        check(not bad, "errors escaped into the event loop: %r", bad)

    stack.scenario(main)


def each_burst(d, case):
    """Bursts of every size around the limit, every firmware, several answer delays."""
    product, n, delay = case
    limit = 16 if product == 1 else 2
    d.show("product %d: %d at once, accepted after %.3f s", product, n, delay)
    if n > 1:
        d.nontrivial()

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        app = await stack.started_app(world)
        ncp.latency = delay
        tasks = [asyncio.ensure_future(
            app.mrequest(9, 260, 6, 1, k, bytes([k])) if k % 2 else
            app.broadcast(260, 6, 1, 1, 0, 30, k, bytes([k]))) for k in range(n)]
        await asyncio.wait(tasks, timeout=1000)
        check(all(t.done() for t in tasks), "not all requests ended")
        check([r.v["data"][0] for r in ncp.log] == list(range(n)), "transmitted %r",
              [r.v["data"] for r in ncp.log])
        for k in range(limit, n):
            freed = sorted(r.t + delay + 0.2 for r in ncp.log[:k])[k - limit]
            check(ncp.log[k].t >= freed - EPS, "transmission %d at %.4f, a place is free "
                  "at %.4f", k, ncp.log[k].t, freed)

    stack.scenario(main)


def reconnections(d):
    """Requests around a loss of the port and the restart after it."""
    product = d.int(0, 2)
    limit = 16 if product == 1 else 2
    latency = d.choice((0.001, 0.005, 0.02, 0.05, 0.2))
    many = product == 1
    asks = []
    for _ in range(d.int(1, 4)):
        t = d.choice((0.0, 0.1, 4.0)) if d.bool(0.2) else \
            6.0 + d.choice((0, 1, 2, 3, 4, 6)) * latency + d.choice((0.0, 0.001, 0.3)) \
            if d.bool(0.7) else 6.0 + d.uniform(0, 3000) / 1000
        asks.append((t, d.int(1, 40 if many else 6), d.bool()))
    asks.sort(key=lambda a: a[0])
    d.show("product %d, answers after %.3f s: %s", product, latency, " ".join(
        "%d %s at %.3f" % (n, "groups" if g else "broadcasts", t) for t, n, g in asks))

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        app = stack.make_app()
        await app.startup(True)
        ncp.latency = latency
        begin = loop.t
        world.live()[0].lose()
        sent = []
        plain = ncp.hook

        def hook(req):
            if req.name in ("dataRequestExt",):
                now = [t for t in sent if loop.t < t + latency + 0.2 - EPS]
                check_later.append((len(now) + 1, loop.t))
                sent.append(loop.t)
            return plain(req) if plain else None

        check_later = []
        ncp.hook = hook

        async def ask(n, k, group):
            try:
                if group:
                    return await app.mrequest(9, 260, 6, 1, k, bytes([n, k]))
                return await app.broadcast(260, 6, 1, 1, 0, 30, k, bytes([n, k]))
            except Exception as e:
                return e  # made while there is no connection

        tasks = []
        for n, (t, count, group) in enumerate(asks):
            await asyncio.sleep(max(0, begin + t - loop.t))
            if loop.t - begin < 7.0:
                d.nontrivial()
            tasks += [asyncio.ensure_future(ask(n, k, group)) for k in range(count)]
        await asyncio.sleep(60)
        check(all(t.done() for t in tasks), "not all requests ended")
        got = sum(1 for t in tasks if not isinstance(t.result(), Exception))
        d.label("all sent" if got == len(tasks) else "some failed")
        for k, t in check_later:
            check(k <= limit, "%d group or broadcast transmissions in progress %.4f s after "
                  "the loss, limit %d", k, t - begin, limit)

    stack.scenario(main)


PARTS = [
    Part("bursts", each_burst, cases=[[p, n, x] for p in range(3)
                                      for n in (1, 2, 3, 4, 5, 15, 16, 17, 18, 33, 50)
                                      for x in (0.001, 0.1, 0.3)]),
    Part("schedules", schedules, quick=500, thorough=40000),
    Part("reconnections", reconnections, quick=200, thorough=10000),
]
