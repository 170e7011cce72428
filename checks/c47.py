"""C47: a startup without network forming only looks at the adapter."""
import asyncio

from harness import mt, sim, stack
from harness.engine import Part, check

from . import common, net

TECHNIQUE = "stateful property-based testing of startups against a simulated adapter"
RULE = ("A case is an adapter of any firmware generation, memory, network and device state, "
        "a configuration, and one to four startups without network forming, some of them "
        "after a startup with forming, after a failed one, on the same application or on a "
        "new one, among other traffic; non-trivial always. Distinct: by the full choice "
        "sequence.")
ASSUMES = ["LED commands that follow reports of the join state are left aside."]
LOOKS = ["ping", "version", "getDeviceInfo"]
MSG = mt.cmd("AF", "incomingMsg")
IEEE = b"\x20" * 8


def looks(d):
    product = d.choice(net.PRODUCTS)
    ncp = sim.Ncp(product, ieee=d.eui())
    conf, want = net.gen_conf(d)
    d.show("product %d, %s", product, net.prior(d, ncp, want))
    ncp.latency = d.choice((0.001, 0.001, 0.3))
    plan = []
    for _ in range(d.int(1, 4)):
        k = d.weighted(6, 2, 1, 1)
        plan.append((k, d.bool(0.6), d.int(0, 2), d.choice((0, 1, 5, 6, 7, 8, 9, 10, None)),
                     d.bool(0.5), d.bytes(0, 20), d.u8(), d.int(0, 255) if d.bool() else 0))
        d.label(("looks", "with forming", "one request is not answered",
                 "power cycle")[k])
        d.show("%s%s", ("looks", "forms", "one request is not answered",
                        "power cycle, looks")[k], "" if plan[-1][1] else ", new application")
    busy = d.bool(0.4)
    d.nontrivial()

    async def main(loop, world):
        app = None
        for k, same, which, state, close, data, tsn, status in plan:
            if app is None or not same:
                if app is not None:
                    await app.shutdown()
                app = stack.make_app(network=conf)
            elif close:
                await app.shutdown()
            if k == 1:
                await app.startup(True)
                continue
            if k == 3:
                ncp.power_cycle()
            elif state is not None:
                ncp.state = state
            await asyncio.sleep(1)
            if busy:
                net.traffic(d, world, ncp)
            del ncp.log[:], ncp.nv_write_log[:], ncp.noise[:], ncp.bad_frames[:]
            before = snapshot(ncp)
            if k == 2:
                ncp.hook = lambda req: "drop" if req.name == LOOKS[which] else None
                try:
                    await app.startup()
                except Exception:
                    pass
                else:
                    check(False, "startup succeeded although %s was not answered",
                          LOOKS[which])
                ncp.hook = None
                expected = LOOKS[:which + 1]
            else:
                if state is None or k == 3:
                    await app.startup()
                else:
                    await app.startup(auto_form=False)
                expected = LOOKS
            await asyncio.sleep(2)
            names = [r.name for r in ncp.log if not busy or r.name != "ledControl"]
            check(names == expected, "a startup without forming sent %r", names)
            check(not ncp.bad_frames and not ncp.nv_write_log, "wrote %r, %r",
                  ncp.bad_frames, ncp.nv_write_log)
            after = snapshot(ncp)
            check(before == after, "a startup without forming changed the adapter from %r "
                  "to %r", before, after)
            world.on_deliver = None
            if k == 2:
                continue
            # and it is of use: messages are delivered, requests sent
            dev = app.devices.get(stack.zt.EUI64(IEEE)) or stack.add_device(app, IEEE, 0x1234)
            v = mt.gen_payload(d, MSG.request, max_payload=40)
            v.update(srcaddr=0x1234)
            del app.received[:]
            ncp.send(common.areq(MSG, v))
            ncp.hook = lambda req: [ncp.status(req, status)] if req.name == "dataRequest" \
                else None
            res = await app.request(dev, 260, 6, 1, 2, tsn, data)
            ncp.hook = None
            check(res[0] == status, "a request after it was answered %d, reported %r",
                  status, res)
            sent = ncp.requests("dataRequest")
            check(len(sent) == 1 and sent[0].v["data"] == data, "sent %r", sent)
            await asyncio.sleep(0.5)
            got = [(m.sender.ieee.serialize(), m.cluster, m.data) for m in app.received]
            check(got == [(IEEE, v["clusterid"], v["data"])], "delivered %r of %r", got, v)
        await app.shutdown()
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main, ncp)


def snapshot(ncp):
    return (dict(ncp.nv), ncp.formed and dict(ncp.formed), ncp.state, ncp.resets, ncp.forms,
            sorted(ncp.endpoints), sorted(ncp.groups), dict(ncp.bdb_channels))


PARTS = [Part("startups", looks, quick=700, thorough=40000)]
