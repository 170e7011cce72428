"""C18: device announcements register the device under its current address."""
import asyncio

import zigpy.types as zt
from harness import mt, stack
from harness.engine import Part, check

from . import common

TECHNIQUE = "model-based stateful property-based testing of announcement histories"
RULE = ("A case is a history of announcements (new devices, rejoins at the same or another "
        "address, in generated reads), messages from all addresses ever used, pauses, with "
        "zigpy's own join handling; non-trivial when a device changes its address and a "
        "message follows. Distinct: by the full choice sequence.")
ASSUMES = ["Addresses are unique among devices at any one time."]
ANN = mt.cmd("ZDO", "endDeviceAnnceInd")
MSG = mt.cmd("AF", "incomingMsg")
NWKS = (0x0001, 0x0100, 0x1234, 0x3412, 0xFFF7, 0x00FE)
IEEES = [bytes([i] * 8) for i in (1, 2)] + [bytes(range(8)), bytes(range(7, -1, -1))]


def history(d):
    steps, table = [], {}
    real = d.bool(0.7)
    ndev = d.int(1, 4)
    moved = False
    for _ in range(d.int(1, 14)):
        k = d.weighted(4, 5, 1)
        if k == 0:
            e = IEEES[d.int(0, ndev - 1)]
            taken = [n for x, n in table.items() if x != e]
            free = [n for n in NWKS if n not in taken]
            if e in table and d.bool(0.4):
                n = table[e]
                d.label("announced again at the same address")
            else:
                n = d.choice(free)
            if table.get(e, n) != n:
                moved = True
                d.label("address change")
            if n not in table.values() and any(s[0] == "announce" and s[2] == n
                                               for s in steps):
                d.label("address taken over by another device")
            table[e] = n
            v = {"srcaddr": n if d.bool(0.8) else d.u16(), "nwkaddr": n, "ieeeaddr": e,
                 "capabilities": d.u8()}
            steps.append(("announce", e, n, v, d.bool(0.2)))
            d.show("announce %s at 0x%04x", e.hex(), n)
        elif k == 1:
            n = d.choice(NWKS)
            v = mt.gen_payload(d, MSG.request, max_payload=40)
            v["srcaddr"] = n
            by = {x: e for e, x in table.items()}
            steps.append(("msg", n, v, by.get(n)))
            d.show("message from 0x%04x (%s)", n, by[n].hex() if n in by else "nobody")
            if moved:
                d.nontrivial("message after an address change")
        else:
            steps.append(("pause", d.choice((0.1, 5.0, 30.0))))

    async def main(loop, world):
        app = await stack.started_app(world)
        app.pass_join = real
        ncp = world.ncp
        ncp.splitter = d.chunks
        joins, want, objects = [], [], {}
        pending = b""
        for s in steps:
            if s[0] == "announce":
                _, e, n, v, hold = s
                joins.append((n, e))
                want.append((e, n, 0x0013, 0, 0, mt.encode(ANN.request, v)[2:]))
                pending += common.areq(ANN, v)
                if hold:  # shares its read with whatever follows
                    continue
            elif s[0] == "msg":
                _, n, v, e = s
                if e is not None:
                    want.append((e, n, v["clusterid"], v["srcendpoint"],
                                 v["dstendpoint"], v["data"]))
                pending += common.areq(MSG, v)
            else:
                await asyncio.sleep(s[1])
            if pending:
                ncp.send(pending)
                pending = b""
            await asyncio.sleep(0.01)
            for e, dev in list(app.devices.items()):
                check(objects.setdefault(e, dev) is dev, "%s announced itself again and what "
                      "was known of it is gone", e)
        if pending:
            ncp.send(pending)
        await asyncio.sleep(0.5)
        check([(n, e) for n, e, _ in app.joins] == joins, "joins reported %r, announced %r",
              app.joins, joins)
        got = []
        for m in app.received:
            data = m.data
            if m.cluster == 0x0013 and m.src_ep == 0 and m.dst_ep == 0 and len(want) > len(
                    got) and want[len(got)][2:5] == (0x0013, 0, 0) and len(data) == 12:
                data = data[1:]  # the transaction number of an announcement is free
            got.append((m.sender.ieee.serialize(), m.nwk, m.cluster, m.src_ep, m.dst_ep,
                        data))
        check(got == want, "zigpy received %r, expected %r", got, want)
        known = {e.serialize(): int(dev.nwk) for e, dev in app.devices.items()
                 if e.serialize() != ncp.ieee}
        check(known == table, "device table %r, announced %r", known, table)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


PARTS = [Part("histories", history, quick=1500, thorough=50000)]
