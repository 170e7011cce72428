"""C26: probing tells whether a coordinator answers and always closes the port."""
import asyncio

import serial
from harness import mt, sim, stack
from harness.engine import Discard, Part, check
from zigpy_cc.api import API
from zigpy_cc.zigbee.application import ControllerApplication

from . import common

TECHNIQUE = "fault-injecting property-based testing of port behaviours on a virtual clock"
RULE = ("A case is a port behaviour: open failure or delay, bytes sent before and after the "
        "version request (noise, partial and damaged answers, unrelated frames, the answer "
        "itself, in generated reads at generated times), loss and cancellation at generated "
        "times; non-trivial when the port opens. Distinct: by the full choice sequence.")
ASSUMES = ["Opening fails with SerialException, as pyserial does.",
           "Answers within 2 ms of the limit may count either way."]
VERSION = mt.cmd("SYS", "version")
LIMIT = 2.0


def gen_version(d, valid=True):
    v = dict(transportrev=d.u8(), product=d.int(0, 2) if d.bool(0.8) else d.u8(),
             majorrel=d.u8(), minorrel=d.u8(), maintrel=d.u8(), revision=d.u32())
    return common.srsp(VERSION, v)


def gen_noise(d):
    k = d.weighted(3, 2, 2, 2, 2, 1)
    if k == 0:
        return "unrelated frame", common.gen_areq(d)[2]
    if k == 1:
        return "random bytes", bytes(b for b in d.bytes(0, 20) if b != 0xFE)
    if k == 2:
        return "partial answer", gen_version(d)[: d.int(0, 13)]
    if k == 3:
        raw = bytearray(gen_version(d))
        raw[d.int(1, len(raw) - 1)] ^= 1 << d.int(0, 7)
        return "damaged answer", bytes(raw)
    if k == 4:
        return "foreign response", common.gen_foreign_srsp(d, (VERSION,))[2]
    c = d.choice((mt.SREQ, mt.AREQ, mt.POLL))
    raw = gen_version(d)
    return "answer of another type", mt.frame(c, VERSION.ss, VERSION.id, raw[4:-1])


def probe(d):
    open_fail = d.bool(0.08)
    open_delay = 0.0 if d.bool(0.5) else d.choice((0.1, 0.5, 0.9, 0.99, 1.01, 1.5, 2.5, 30.0)) \
        if d.bool(0.7) else d.uniform(0, 3000) / 1000
    t_req = open_delay + 1.0
    plan = []  # (time after start, bytes)
    for _ in range(d.weighted(3, 2, 2, 1)):
        what, raw = gen_noise(d)
        t = d.uniform(0, 1000) / 1000 + open_delay if d.bool(0.3) else \
            t_req + d.uniform(0, 1000) / 1000
        plan.append((t, raw))
        d.show("%s at %.3f", what, t)
        d.label(what)
    answers = d.bool(0.75)
    if answers:
        lat = d.choice((0.0001, 0.001, 0.01, 0.1, 0.5, 0.9)) if d.bool(0.6) else \
            d.uniform(0, 1200) / 1000
        plan.append((t_req + lat + 1e-5, gen_version(d)))
        d.show("answer %.4f after the request", lat)
        if d.bool(0.1):
            plan.append((t_req + lat + 2e-5, gen_version(d)))
    loss = d.uniform(0, 2500) / 1000 if d.bool(0.2) else None
    cancel = d.uniform(0, 2500) / 1000 if d.bool(0.15) else None
    through_app = d.bool(0.3)
    chunk = d.bool(0.4)
    d.show("open %s after %.3f, loss %r, cancel %r", "fails" if open_fail else "succeeds",
           open_delay, loss, cancel)
    events = []
    line = 0.0
    for t, raw in sorted(plan, key=lambda p: p[0]):
        line = max(line, t)
        for c in d.chunks(raw) if chunk else [raw]:
            if c:
                line += 1e-5
                events.append((line, c))
    # what a reference receiver makes of it
    frames = []
    now = [0.0]
    stream = mt.Stream(lambda raw, ok: ok and frames.append((now[0], raw)), lambda b: None)
    for t, c in events:
        if t > open_delay and (loss is None or t < loss or loss < open_delay):
            now[0] = t
            stream.feed(c)

    def is_answer(raw):
        return raw[2] == (mt.SRSP << 5 | VERSION.ss) and raw[3] == VERSION.id \
            and len(raw) - 5 >= 5

    good = [t for t, raw in frames if t > t_req and is_answer(raw)]
    for t in [t for t, _ in events] + [t_req]:
        if abs(t - LIMIT) < 2e-3 or (loss is not None and abs(t - loss) < 2e-3) or \
                (cancel is not None and abs(t - cancel) < 2e-3) or \
                (t != t_req and abs(t - t_req) < 5e-6):
            raise Discard()
    if (cancel is not None and abs(cancel - LIMIT) < 2e-3) or (
            loss is not None and abs(loss - open_delay) < 2e-3):
        raise Discard()
    if loss is not None and loss > open_delay:
        good = [t for t in good if t < loss]
    want = not open_fail and bool(good) and good[0] < LIMIT
    end = min([good[0]] if want else [LIMIT])
    if open_fail:
        end = min(open_delay, LIMIT)
    cancelled = cancel is not None and cancel < end

    async def main(loop, world):
        world.ncp.hook = lambda req: "drop"
        world.open_delay = open_delay
        if open_fail:
            world.open_plan.append(serial.SerialException("could not open"))

        def deliver(c):
            for p in world.live():
                p.deliver(c)

        for t, c in events:
            loop.call_at(loop.start + t, deliver, c)
        if loss is not None:
            loop.call_later(loss, lambda: [p.lose(OSError("gone")) for p in world.live()])
        fn = ControllerApplication.probe if through_app else API.probe
        task = asyncio.ensure_future(fn({"path": stack.PORT}))
        if cancel is not None:
            loop.call_later(cancel, task.cancel)
        await asyncio.wait([task], timeout=100)
        check(task.done(), "probe did not end")
        took = loop.t
        if world.ports:
            d.nontrivial()
        if cancelled:
            d.label("cancelled")
            check(task.cancelled(), "cancelled probe ended with %r", task)
        else:
            check(not task.cancelled(), "probe ended cancelled")
            check(task.exception() is None, "probe raised %r", task.exception())
            check(task.result() is want, "probe returned %r, expected %r (answers at %r)",
                  task.result(), want, good)
            d.label("answer %r" % want)
            check(took < LIMIT + 0.05, "probe took %.3f s", took)
        check(not world.live(), "the port is still open after the probe")
        n = [len(p.written) for p in world.ports]
        await asyncio.sleep(60)
        check(not world.live() and len(world.opens) <= 1, "port open or opened again later: "
              "%r", world.opens)
        for p, k in zip(world.ports, n):
            late = [x for x in p.written[k:] + p.late_writes if x[0] > took]
            check(not late, "written after the end: %r", late)
            full = b"\xef" + mt.build("SYS", "version", mt.SREQ)
            check(full.startswith(p.bytes_out), "sent %s", p.bytes_out.hex())
            if want and not cancelled:
                check(p.bytes_out == full, "sent %s", p.bytes_out.hex())
        bad = stack.loop_errors(loop)
        check(not bad, "errors escaped into the event loop: %r", bad)

    stack.scenario(main)


def races(d, case):
    """Cancelled, lost or timed out some loop iterations behind each event."""
    event, action, ticks = case
    d.show("%s %d ticks behind the %s", action, ticks, event)
    d.nontrivial()

    async def main(loop, world):
        async def act():
            for _ in range(ticks):
                await asyncio.sleep(0)
            if action == "cancel":
                task.cancel()
            else:
                for p in world.live():
                    p.lose(OSError("gone"))

        def at(what):
            if what == event:
                asyncio.ensure_future(act())

        def hook(req):
            at("request")
            return [(0.01, gen_version(d))]

        world.ncp.hook = hook
        if event == "limit":
            world.open_delay = 0.9
            world.ncp.hook = lambda req: [(0.1 - 1e-6, gen_version(d))]
            loop.call_later(LIMIT, at, "limit")
        world.on_deliver = lambda port: at("answer")
        if event == "start":
            loop.call_soon(at, "start")
        elif event == "open":
            loop.call_soon(at, "open")
            world.open_delay = 0.0
        elif event == "opened":
            world.open_delay = 0.25
            loop.call_later(0.25, at, "opened")
        task = asyncio.ensure_future(API.probe({"path": stack.PORT}))
        await asyncio.wait([task], timeout=100)
        check(task.done(), "probe did not end")
        check(task.cancelled() or task.exception() is None, "probe raised %r",
              not task.cancelled() and task.exception())
        check(action == "cancel" or not task.cancelled(), "probe ended cancelled")
        check(not world.live(), "the port is still open after the probe")
        opens = len(world.opens)
        sent = [len(p.written) + len(p.late_writes) for p in world.ports]
        await asyncio.sleep(60)
        check(not world.live() and len(world.opens) == opens, "port open or opened later")
        check(sent == [len(p.written) + len(p.late_writes) for p in world.ports],
              "written after the end")
        bad = stack.loop_errors(loop)
        check(not bad, "errors escaped into the event loop: %r", bad)

    stack.scenario(main)


PARTS = [Part("races", races, cases=[
            [e, a, k] for e in ("start", "open", "opened", "request", "answer", "limit")
            for a in ("cancel", "lose") for k in range(10)]),
         Part("port behaviours", probe, quick=5000, thorough=200000)]
