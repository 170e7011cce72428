"""C17: every message from a known device reaches zigpy once, unaltered."""
import asyncio

import zigpy.types as zt
from harness import mt, stack
from harness.engine import Part, check

from . import common

TECHNIQUE = "model-based stateful property-based testing of message histories"
RULE = ("A case is a device table and a history of normal and extended incoming messages "
        "with generated contents from known and unknown addresses, device additions and "
        "removals, and concurrent unicast requests, in generated reads, sometimes with a zigpy "
        "that raises on some of the messages; non-trivial when a "
        "message from a known device is among them. Distinct: by the full choice sequence.")
ASSUMES = ["No two known devices share a network address.",
           "In extended messages with a 16-bit source the unused address bytes are zero."]
MSG = mt.cmd("AF", "incomingMsg")
EXT = mt.cmd("AF", "incomingMsgExt")
NWKS = (0x0001, 0x00FF, 0x0100, 0x1234, 0x3412, 0xFFF7, 0xFEFE)
IEEES = (b"\x01" * 8, bytes(range(8)), bytes(range(7, -1, -1)), b"\xfe" * 8,
         b"\x01\x00\x00\x00\x00\x00\x00\x00", b"\x34\x12\x00\x00\x00\x00\x00\x00",
         b"\x00" * 7 + b"\x01")


def gen_msg(d, table, last=None):
    """(frame, ieee of the sender or None, row), perhaps much like the last one"""
    ext = d.bool(0.4)
    c = EXT if ext else MSG
    if last and last.get("v") and d.bool(0.4):
        c, v = last["v"]
        ext, v = c is EXT, dict(v)
        if d.bool(0.8):  # the same in all but some fields; else the very same again
            new = mt.gen_payload(d, c.request, max_payload=40)
            names = [n for n in new if n not in ("srcaddr", "srcaddrmode", "len", "data")]
            for n in d.sample(names, d.int(0, 2)):
                v[n] = new[n]
            if d.bool(0.7):
                v["len"], v["data"] = new["len"], new["data"]
            if d.bool(0.2):
                v["transseqnumber"] = (v["transseqnumber"] + d.choice((-1, 1))) & 0xFF
        return finish(d, table, c, v, last)
    big = d.bool(0.1)
    v = mt.gen_payload(d, c.request, max_payload=250 if big else 70)
    i = d.int(0, len(NWKS))
    nwk = 0 if i == len(NWKS) else NWKS[i] if d.bool(0.93) else d.u16()
    if not ext:
        v["srcaddr"] = nwk
    elif d.bool():
        v["srcaddrmode"], v["srcaddr"] = 2, nwk.to_bytes(8, "little")
    else:
        v["srcaddrmode"] = 3
        v["srcaddr"] = d.choice(IEEES) if d.bool(0.95) else d.eui()
    if d.bool(0.5):
        v["transseqnumber"] = d.choice((0, 0, 1, 255))
    return finish(d, table, c, v, last)


def finish(d, table, c, v, last):
    if last is not None:
        last["v"] = c, v
    by_nwk = {n: e for e, n in table.items()}
    ext = c is EXT
    if not ext:
        ieee = by_nwk.get(v["srcaddr"])
    elif v["srcaddrmode"] == 2:
        ieee = by_nwk.get(int.from_bytes(v["srcaddr"][:2], "little"))
    else:
        ieee = v["srcaddr"] if v["srcaddr"] in table else None
    row = None
    if ieee is not None:
        row = (ieee, table[ieee], v["clusterid"], v["srcendpoint"], v["dstendpoint"],
               v["data"], v["linkquality"])
    return common.areq(c, v), ext, row


ERRORS = (KeyError, ValueError, AttributeError, asyncio.TimeoutError)


def history(d):
    coordinator = b"\x0c" * 8
    table = {coordinator: 0}
    for i in range(d.int(1, 5)):
        table[IEEES[i]] = NWKS[(i * 3 + d.int(0, 1)) % 7] if i == 0 else \
            [n for n in NWKS if n not in table.values()][d.int(0, 1)]
    start = dict(table)
    fussy = d.choice((2, 3, 7)) if d.bool(0.15) else 0
    if fussy:
        d.show("zigpy raises on one message in %d", fussy)
        d.label("zigpy raises")
    steps, last = [], {}
    for _ in range(d.int(1, 10)):
        k = d.weighted(8, 2, 1, 1)
        if k == 0:
            burst = [gen_msg(d, table, last) for _ in range(d.weighted(4, 2, 1) + 1)]
            together = d.bool(0.3)
            steps.append(("msgs", burst, together))
            for raw, ext, row in burst:
                d.show("%s %s", "extended message" if ext else "message", row)
                if row:
                    d.nontrivial("extended" if ext else "normal")
                else:
                    d.label("unknown sender")
        elif k == 1:
            others = [e for e in table if e != coordinator]
            if others:
                steps.append(("request", d.choice(others), d.u8(),
                              0 if d.bool(0.7) else d.u8(), d.choice((0.0, 0.02, 0.2))))
                d.show("concurrent request")
                d.label("concurrent request")
        elif k == 2:
            others = [e for e in table if e != coordinator]
            if others:
                e = d.choice(others)
                del table[e]
                steps.append(("remove", e))
                d.show("remove %s", e.hex())
        else:
            free_e = [e for e in IEEES if e not in table]
            free_n = [n for n in NWKS if n not in table.values()]
            if free_e and free_n:
                e, n = d.choice(free_e), d.choice(free_n)
                table[e] = n
                steps.append(("add", e, n))
                d.show("add %s 0x%04x", e.hex(), n)

    async def main(loop, world):
        ncp = world.ncp
        ncp.ieee = coordinator
        app = await stack.started_app(world)
        for e, n in start.items():
            if e != coordinator:
                stack.add_device(app, e, n)
        def refuse(msg):
            if fussy and len(app.received) % fussy == 0:
                raise ERRORS[len(app.received) % 4]("zigpy says no")

        app.refuse = refuse
        ncp.splitter = d.chunks
        want, tasks = [], []
        for s in steps:
            if s[0] == "msgs":
                raws = [m[0] for m in s[1]]
                for raw in [b"".join(raws)] if s[2] else raws:
                    ncp.send(raw)
                want += [m[2] for m in s[1] if m[2]]
                await asyncio.sleep(0.01)  # delivered before the table changes
            elif s[0] == "request":
                _, e, tsn, st, delay = s
                dev = app.devices[zt.EUI64(e)]
                ncp.hook = lambda req, st=st, delay=delay: [
                    (delay, ncp.status(req, st)[1])]
                tasks.append(asyncio.ensure_future(app.request(
                    dev, 260, 6, 1, 1, tsn, b"\x01")))
                await asyncio.sleep(0)
            elif s[0] == "remove":
                app.devices.pop(zt.EUI64(s[1]))
            else:
                stack.add_device(app, s[1], s[2])
        await asyncio.sleep(1)
        got = [(m.sender.ieee.serialize(), int(m.sender.nwk), m.cluster, m.src_ep,
                m.dst_ep, m.data, m.lqi) for m in app.received]
        check(got == want, "zigpy received %r, expected %r", got, want)
        for t in tasks:
            await t
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


PARTS = [Part("histories", history, quick=2500, thorough=80000)]
