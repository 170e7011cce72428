"""C43: devices outlive restarts and reconnections."""
import asyncio
import os
import shutil
import tempfile

import zigpy.device
import zigpy.types as zt
from harness import mt, sim, stack
from harness.engine import Part, check

from . import c24, c32, common, net

TECHNIQUE = "model-based stateful property-based testing with simulated devices and a scratch database"
RULE = ("A case is a history of one to four runs of the application on one scratch database, created "
        "through zigpy, with failing creations in between; in a run generated devices join "
        "(interviewed over the simulated air), change their address, are scanned for neighbours, are removed, "
        "and the port is lost, also with the adapter's memory; after each creation and reconnection every known device is compared "
        "with the simulated one, sends a message and is sent one; non-trivial when a "
        "device is known at a restart or reconnection. Distinct: by the full choice sequence.")
ASSUMES = ["Devices answer within 5 s.", "A run ends with a shutdown, not during an interview.",
           "What zigpy's database itself cannot keep (device status before the interview is "
           "over, custom attribute types, "
           "neighbours scanned before a change of address) is outside."]
ANN = mt.cmd("ZDO", "endDeviceAnnceInd")
LQI = mt.cmd("ZDO", "mgmtLqiRsp")
SPARE = 0x3000


def gen_devices(d):
    out = []
    for i in range(d.int(1, 4)):
        x = c32.gen_device(d, i)
        x.delays = [min(t, 0.2) for t in x.delays]
        x.again = [0.0]
        x.at = 0.0
        x.node["logicaltype_cmplxdescavai_userdescavai"] &= 0xF8
        x.node["logicaltype_cmplxdescavai_userdescavai"] |= d.int(1, 2)
        x.known, x.moved, x.near, x.table = False, False, [], []
        for ep in x.eps.values():
            if ep.profile in (0x0104, 0xC05E):  # zigpy loads only types it knows
                ep.type = 0x0100
            # zigpy may answer time and OTA requests by itself, here nothing is sent there
        out.append(x)
    return out


def plan_run(d, n):
    steps = []
    for _ in range(d.int(1, 5)):
        k = d.weighted(5, 2, 2, 2, 2, 1, 1)
        what = ("join", "move", "scan", "remove", "lose", "power cycle", "wipe")[k]
        table = []
        if what == "scan":
            for _ in range(d.int(0, 7)):
                e = mt.gen_neighbor(d)
                e["permitJoin"] = min(e["permitJoin"], 2)
                e["extAddr"] = e["extAddr"][:7] + b"\x33"
                table.append(e)
        steps.append((what, d.int(0, n - 1), table, d.bool(0.8),
                      d.choice((0.0, 0.5, 4.0)), d.bytes(1, 12)))
    return steps


def lifetimes(d):
    product = d.int(0, 2)
    devices = gen_devices(d)
    runs = []
    for _ in range(d.weighted(1, 3, 2, 1) + 1):
        fail = d.weighted(6, 1, 1, 1)
        runs.append((fail, d.bool(0.5), plan_run(d, len(devices)), d.int(0, 25)))
        d.show("%s%s; %s", ("", "port missing; ", "adapter deaf; ",
                            "adapter falls silent; ")[fail],
               "start, forming" if runs[-1][1] else "start",
               ", ".join("%s %d" % s[:2] for s in runs[-1][2]))
    folder = tempfile.mkdtemp(prefix="c43-", dir="/dev/shm" if os.path.isdir("/dev/shm")
                              else None)
    database = os.path.join(folder, "zigbee.db")

    async def main(loop, world):
        ncp = world.ncp
        net.full_endpoints(d, ncp, sim.REQUIRED_ENDPOINTS)
        ncp.groups.add(sim.GP_GROUP)
        ncp.configure(dict(net.DEFAULT))
        ncp.state = 9
        air = c32.Air(ncp, devices)
        ncp.extra["ZDO", "activeEpReq"] = lambda req: \
            air.zdo(req) if req.v["dstaddr"] else ncp.do_ZDO_activeEpReq(req)
        seq = [0]

        def near(req):
            x = air.devices.get(req.v["dstaddr"])
            i = req.v["startindex"]
            out = [ncp.status(req, 0)]
            if x is None:
                return out
            part = x.table[i:i + 3]
            return out + [(ncp.latency + 0.01, common.areq(LQI, {
                "srcaddr": x.nwk, "status": 0, "neighbortableentries": len(x.table),
                "startindex": i, "neighborlqilistcount": len(part),
                "neighborlqilist": part}))]

        ncp.extra["ZDO", "mgmtLqiReq"] = near
        conf = stack.app_config()
        conf.update(database_path=database, topology_scan_enabled=False)
        asked = ("nodeDescReq", "activeEpReq", "simpleDescReq")
        spare = [SPARE]

        async def announce(x):
            ncp.send(common.areq(ANN, {"srcaddr": x.nwk, "nwkaddr": x.nwk, "ieeeaddr": x.ieee,
                                       "capabilities": x.node["maccapflags"]}))
            await asyncio.sleep(0.01)

        async def interviewed(app, x):
            end = loop.time() + 100
            while loop.time() < end:
                dev = app.devices.get(zt.EUI64(x.ieee))
                if dev is not None and dev.status == zigpy.device.Status.ENDPOINTS_INIT:
                    break
                await asyncio.sleep(0.2)
            await asyncio.sleep(1)
            c32.verify(x, app.devices.get(zt.EUI64(x.ieee)), 100)

        async def compare(app, when):
            """Every known device, and nothing else, is there and works."""
            count = len(ncp.requests(*asked))
            table = set(app.devices) - {app.ieee}
            want = {zt.EUI64(x.ieee) for x in devices if x.known}
            check(table == want, "%s the device table holds %r instead of %r", when, table,
                  want)
            check(type(app.devices[app.ieee]).__name__ == "Coordinator", "%s the coordinator is "
                  "%r", when, app.devices[app.ieee])
            for x in devices:
                if not x.known:
                    continue
                d.nontrivial()
                dev = app.devices[zt.EUI64(x.ieee)]
                check(int(dev.nwk) == x.nwk, "%s 0x%04x has address 0x%04x", when, x.nwk,
                      dev.nwk)
                same(x, dev, when)
                got = [n.neighbor.serialize() for n in dev.neighbors]
                if x.moved and not got:
                    x.near = []
                check(got == x.near, "%s 0x%04x has neighbours %r instead of %r", when, x.nwk,
                      got, x.near)
                seq[0] = (seq[0] + 1) & 255
                data = bytes([0x18, seq[0], 0x0A, 0, 0, 0x20, seq[0]])
                before = len(app.received)
                ncp.send(air.message(x, 8, 1, 1, data))
                await asyncio.sleep(0.02)
                got = [m for m in app.received[before:] if m.cluster == 8]
                check([m.row for m in got] == [(x.nwk, 8, 1, 1, data)] and
                      got[0].sender is dev, "%s a message of 0x%04x gave %r", when, x.nwk, got)
                n = len(ncp.requests("dataRequest"))
                res = await app.request(dev, 260, 6, 1, 1, seq[0], bytes([1, seq[0], 2]),
                                        expect_reply=False)
                sent = ncp.requests("dataRequest")[n:]
                check(int(res[0]) == 0 and [r.v["dstaddr"] for r in sent] == [x.nwk],
                      "%s a request to 0x%04x gave %r, sent %r", when, x.nwk, res, sent)
            check(len(ncp.requests(*asked)) == count, "%s known devices were interviewed "
                  "again: %r", when, ncp.requests(*asked)[count:])

        def same(x, dev, when):
            try:
                old = {e: (list(p.inputs), list(p.outputs)) for e, p in x.eps.items()}
                for e, p in x.eps.items():  # a database does not keep their order
                    got = dev.endpoints.get(e)
                    if got is not None:
                        p.inputs = order(p.inputs, got.in_clusters)
                        p.outputs = order(p.outputs, got.out_clusters)
                c32.verify(x, dev, 0)
                for e, p in x.eps.items():
                    p.inputs, p.outputs = old[e]
            except AssertionError as e:
                check(False, "%s: %s", when, e)

        async def start(fail, form, skip):
            if fail:
                opens = len(world.opens)
                if fail == 1:
                    world.open_plan.append(OSError("no such port"))
                elif fail == 2:
                    ncp.dead = True
                else:
                    seen = []

                    def hook(req):
                        seen.append(req)
                        return "drop" if len(seen) > skip % 3 else None

                    ncp.hook = hook
                app = None
                try:
                    app = await stack.App.new(stack.ControllerApplication.SCHEMA(dict(conf)),
                                              form)
                except Exception:
                    pass
                check(app is None, "created although the adapter does not work")
                ncp.hook, ncp.dead = None, False
                await asyncio.sleep(0.01)
                check(len(world.opens) == opens + 1, "opened %r", world.opens[opens:])
                check(not world.live(), "the creation failed and left the port open")
                await asyncio.sleep(30)
                check(not world.live(), "a port opened after the creation failed")
            return await stack.App.new(stack.ControllerApplication.SCHEMA(dict(conf)), form)

        for number, (fail, form, steps, skip) in enumerate(runs):
            app = await start(fail, form, skip)
            await compare(app, "after %d restarts" % number)
            for what, i, table, wait, gap, _ in steps:
                x = devices[i]
                if what == "join" and not x.known:
                    await announce(x)
                    await interviewed(app, x)
                    x.known, x.moved, x.near = True, False, []
                elif what == "move" and x.known:
                    del air.devices[x.nwk]
                    spare[0] += 1
                    x.nwk = spare[0]
                    x.node["srcaddr"] = x.node["nwkaddr"] = x.nwk
                    air.devices[x.nwk] = x
                    await announce(x)
                    await asyncio.sleep(3)
                    x.moved = True
                elif what == "scan" and x.known:
                    x.table = table
                    await app.devices[zt.EUI64(x.ieee)].neighbors.scan()
                    x.moved = False
                    x.near = [mt.encode_neighbor(n) for n in table]
                elif what == "remove" and x.known:
                    # this device leaves without a word
                    await app.remove(zt.EUI64(x.ieee))
                    x.known = False
                elif what == "lose":
                    world.port.lose(OSError("gone"))
                    await asyncio.sleep(12)
                    await compare(app, "after a reconnection")
                elif what == "power cycle":
                    ncp.power_cycle()
                    world.port.lose(None)
                    await asyncio.sleep(20)
                    await compare(app, "after a power cycle")
                elif what == "wipe":
                    # the adapter is initialised anew, with the same network
                    c24.wipe(ncp)
                    world.port.lose(None)
                    await asyncio.sleep(40)
                    await compare(app, "after the adapter lost its memory")
                await asyncio.sleep(gap)
            await compare(app, "at the end of a run")
            await app.shutdown()
            app._dblistener._db.close()
            await asyncio.sleep(0.1)
            check(not world.live(), "the port is open after the shutdown")
        app = await start(0, False, 0)
        await compare(app, "after the last restart")
        await app.shutdown()
        app._dblistener._db.close()
        strange = [r for r in air.unknown if r.name != "dataRequest" or r.v["clusterid"] != 6]
        check(not strange, "requests no device can answer: %r", strange)

    try:
        stack.scenario(main, sim.Ncp(product), max_time=30000.0)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def order(want, got):
    return [c for c in got if c in want] + [c for c in want if c not in got] \
        if sorted(got) == sorted(set(want)) else want


PARTS = [Part("lifetimes", lifetimes, quick=150, thorough=6000)]
