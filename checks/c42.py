"""C42: removing a device takes exactly that device away, whatever it answers."""
import asyncio

import zigpy.device
import zigpy.types as zt
import zigpy.zdo.types as zz
from harness import mt, stack
from harness.engine import Part, check

from . import common
from .c39 import message

TECHNIQUE = "model-based stateful property-based testing with simulated devices"
RULE = ("A case is a history of removals (answered, refused by the device or the coordinator, "
        "unanswered, unacknowledged; several at once, also of unknown devices), messages "
        "from the devices, requests to them, announcements of new addresses and of "
        "removed devices, on two to five devices; non-trivial when a known device is removed. "
        "Distinct: by the full choice sequence.")
ASSUMES = ["A device is not removed twice at the same time.",
           "Leave replies arrive within 4.9 s or, where they count as missing, not at all."]
LEAVE = mt.cmd("ZDO", "mgmtLeaveRsp")
ANN = mt.cmd("ZDO", "endDeviceAnnceInd")
NWKS = (0x1234, 0x0001, 0xFFF0, 0x8000, 0x4321)
SPARE = (0x2345, 0x0002, 0xEEEE, 0x8001, 0x5432)
FATES = ("left", "device refuses", "no answer", "coordinator refuses", "unacknowledged")
BOUND = 75.0


class Dev:
    pass


class Listener:
    def __init__(self):
        self.removed = []

    def device_removed(self, dev):
        self.removed.append(dev.ieee.serialize())


def history(d):
    product = d.int(0, 2)
    confirms = common.gen_confirms(d)
    ndev = d.int(2, 5)
    devs = []
    for i in range(ndev):
        x = Dev()
        x.i, x.nwk, x.ieee = i, NWKS[i], d.eui()[:7] + bytes([i])
        x.sleepy, x.long = d.bool(0.3), d.bool(0.3)
        x.here, x.leaving, x.fate, x.delay, x.status, x.seq = True, None, 0, 0.1, 0, 0
        devs.append(x)
    steps = []
    for _ in range(d.int(1, 14)):
        gap = d.choice((0.0, 0.0, 0.02, 0.3, 3.0, 12.0, 40.0))
        k = d.weighted(5, 5, 3, 2, 1)
        x = d.choice(devs)
        if k == 0:
            steps.append((gap, "remove", x, d.weighted(6, 2, 2, 2, 1), d.int(1, 255),
                          d.choice((-0.0005, 0.0005, 0.05, 1.0, 4.8))))
            d.show("+%.2f remove 0x%04x: %s", gap, x.nwk, FATES[steps[-1][3]])
        elif k == 4:
            steps.append((gap, "remove unknown", d.eui()))
        else:
            steps.append((gap, ("message", "request", "announce")[k - 1], x,
                          d.choice((0x0006, 0x0008, 0x0402)), d.bytes(0, 20), d.bool(0.4)))
            d.show("+%.2f %s 0x%04x", gap, steps[-1][1], x.nwk)

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        ncp.confirms = confirms
        app = await stack.started_app(world)
        listener = Listener()
        app.add_listener(listener)

        def add(x):
            dev = app.devices.get(zt.EUI64(x.ieee)) or stack.add_device(app, x.ieee, x.nwk)
            dev.node_desc = zz.NodeDescriptor(2 if x.sleepy else 1, 64, 0x80 if x.sleepy else
                                              0x8E, 4476, 82, 255, 0, 255, 0)
            dev.status = zigpy.device.Status.ENDPOINTS_INIT
            return dev

        for x in devs:
            add(x)
        app.pass_on = True
        asked, sent, want_leaves, want_sent, gone = [], [], [], [], []

        def hook(req):
            if req.key == ("AF", "dataRequest"):
                sent.append((req.v["dstaddr"], req.v["data"]))
                return [ncp.status(req, 0)]
            if req.key != ("ZDO", "mgmtLeaveReq"):
                return None
            asked.append((req.v["dstaddr"], req.v["deviceaddress"]))
            x = next((x for x in devs if x.ieee == req.v["deviceaddress"]), None)
            check(x is not None, "nobody was to be removed: %r", req)
            check(req.v["removechildrenRejoin"] == 2, "zigpy asked for options 2, sent %r",
                  req)
            what = FATES[x.fate]
            if what == "unacknowledged":
                return "drop"
            if what == "coordinator refuses":
                return [ncp.status(req, x.status)]
            ack = [ncp.status(req, 0)]
            if what == "no answer":
                return ack
            return ack + [(max(0.0001, ncp.latency + x.delay), common.areq(LEAVE, {
                "srcaddr": x.nwk, "status": 0 if what == "left" else x.status}))]

        ncp.hook = hook

        async def remove(x):
            begin = loop.t
            await app.remove(zt.EUI64(x.ieee))
            check(loop.t - begin < BOUND, "the removal of 0x%04x took %.1f s", x.nwk,
                  loop.t - begin)
            check(zt.EUI64(x.ieee) not in app.devices, "0x%04x was removed (%s) and is still "
                  "there", x.nwk, FATES[x.fate])
            x.here = False

        def settle():
            for x in devs:
                if x.leaving is not None and x.leaving.done():
                    e = x.leaving.exception()
                    if e is not None:
                        if isinstance(e, AssertionError):
                            raise e
                        check(False, "removing 0x%04x (%s) raised %r", x.nwk, FATES[x.fate], e)
                    x.leaving = None

        def verify():
            table = {dev.ieee.serialize(): int(dev.nwk) for dev in app.devices.values()
                     if dev.ieee != app.ieee}
            for x in devs:
                if x.leaving is None:
                    check((x.ieee in table) == x.here, "0x%04x is %sin the device table",
                          x.nwk, "" if x.ieee in table else "not ")
                if x.ieee in table:
                    check(table.pop(x.ieee) == x.nwk, "0x%04x has another address", x.nwk)
            check(not table, "unknown devices in the table: %r", table)

        requests = []
        for s in steps:
            await asyncio.sleep(s[0])
            settle()
            if s[1] == "remove unknown":
                await app.remove(zt.EUI64(s[2]))
                continue
            x = s[2]
            if s[1] == "remove":
                if x.leaving is not None:
                    continue
                if x.here:
                    d.nontrivial(FATES[s[3]])
                    x.fate, x.status, x.delay = s[3:]
                    want_leaves.append((x.nwk, x.ieee))
                    gone.append(x.ieee)
                x.leaving = asyncio.ensure_future(remove(x))
            elif s[1] == "message":
                x.seq = (x.seq + 1) & 255
                data = bytes([0x18, x.seq, 0x0A]) + s[4]
                ncp.send(message(x.nwk, s[3], 1, 1, data, x.ieee if x.long else None))
                before = len(app.received)
                busy = x.leaving is not None
                await asyncio.sleep(0.01)
                got = [m.row for m in app.received[before:] if m.cluster == s[3]]
                if not busy and x.leaving is None:
                    want = [(x.nwk, s[3], 1, 1, data)] if x.here else []
                    check(got == want, "a message of 0x%04x, %s, gave %r", x.nwk,
                          "a known device" if x.here else "removed", got)
                    if not x.here:
                        d.label("message of a removed device")
                else:
                    check(len(got) <= 1, "delivered %r", got)
            elif s[1] == "request":
                if x.here and x.leaving is None:
                    x.seq = (x.seq + 1) & 255
                    data = bytes([0x01, x.seq, 0]) + s[4]
                    want_sent.append((x.nwk, data))
                    requests.append(asyncio.ensure_future(app.request(
                        app.devices[zt.EUI64(x.ieee)], 260, s[3], 1, 1, x.seq, data)))
            elif x.leaving is None:
                back = not x.here
                if s[5]:
                    other = SPARE if x.nwk == NWKS[x.i] else NWKS
                    x.nwk = other[x.i]
                ncp.send(common.areq(ANN, {"srcaddr": x.nwk, "nwkaddr": x.nwk,
                                           "ieeeaddr": x.ieee, "capabilities": 0x8E}))
                await asyncio.sleep(0.01)
                check(zt.EUI64(x.ieee) in app.devices, "0x%04x announced itself and is not "
                      "known", x.nwk)
                add(x)
                x.here = True
                if back:
                    d.label("came back")
            settle()
            verify()
        rest = [x.leaving for x in devs if x.leaving is not None] + requests
        if rest:
            _, pending = await asyncio.wait(rest, timeout=200)
            check(not pending, "removals or requests do not end")
        settle()
        verify()
        for r in requests:
            check(r.exception() is None and int(r.result()[0]) == 0, "a request to another "
                  "device gave %r", r.exception() or r.result())
        await asyncio.sleep(15)
        verify()
        check(sorted(asked) == sorted(want_leaves), "leave requests %r instead of %r", asked,
              want_leaves)
        check(sorted(sent) == sorted(want_sent), "sent %r instead of %r", sent, want_sent)
        check(sorted(listener.removed) == sorted(gone), "removals reported: %r, made: %r",
              listener.removed, gone)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


PARTS = [Part("histories", history, quick=700, thorough=40000)]
