"""C45: what zigpy believes of the devices' groups is so, and group commands go out."""
import asyncio
import struct

import zigpy.device
import zigpy.endpoint
import zigpy.types as zt
import zigpy.zdo.types as zz
from harness import mt, stack
from harness.engine import Part, check

from . import common
from .c39 import message

TECHNIQUE = "model-based stateful property-based testing with simulated devices"
RULE = ("A case is a history of joining, leaving and listing groups on up to four devices with "
        "one to three endpoints each (answered, refused by the device or the coordinator, "
        "unanswered with or without effect, unacknowledged), of devices announcing "
        "themselves, and of commands to groups, with generated gaps; non-trivial when a group "
        "command goes to a group with members and a membership changed. Distinct: by the full "
        "choice sequence.")
ASSUMES = ["One group operation per device at a time.",
           "Devices answer within 4 s or not at all."]
ANN = mt.cmd("ZDO", "endDeviceAnnceInd")
NWKS = (0x1234, 0x0001, 0xFFF0, 0x8000)
EPS = (1, 11, 240)
GROUPS = (0x0001, 0x0B84, 0xFFF7, 0x1234, 0x00FF)
GRP, ONOFF, LEVEL = 4, 6, 8
FATES = ("answered", "refused by the device", "refused by the coordinator", "unanswered",
         "unanswered but done", "unacknowledged")


class Dev:
    pass


class Listener:
    """Follows the events zigpy raises."""

    def __init__(self):
        self.members = set()

    def group_member_added(self, group, ep):
        self.members.add((int(group.group_id), ep.unique_id[0].serialize(), ep.unique_id[1]))

    def group_member_removed(self, group, ep):
        self.members.discard((int(group.group_id), ep.unique_id[0].serialize(),
                              ep.unique_id[1]))


def gen_jobs(d, x):
    jobs = []
    for _ in range(d.int(1, 8)):
        k = d.weighted(5, 3, 3, 1)
        ep = d.choice(x.eps)
        fate = d.weighted(10, 2, 1, 1, 1, 1)
        job = [d.choice((0.0, 0.0, 0.002, 0.3, 3.0)), ("add", "remove", "scan", "announce")[k],
               ep, d.choice(GROUPS), fate, d.choice((0x89, 0x8A, 0x8B, 0x01)),
               d.choice((-0.0005, 0.0005, 0.05, 1.0, 4.0))]
        if k == 3:
            job[4] = 0
        jobs.append(job)
    return jobs


def history(d):
    product = d.int(0, 2)
    confirms = common.gen_confirms(d)
    devs = []
    for i in range(d.weighted(2, 3, 2, 1) + 1):
        x = Dev()
        x.i, x.nwk, x.ieee, x.long = i, NWKS[i], d.eui()[:7] + bytes([i]), d.bool(0.3)
        x.eps = d.sample(EPS, d.int(1, 3))
        x.hold = {e: set(d.sample(GROUPS, d.int(0, 2))) for e in x.eps}
        x.jobs = gen_jobs(d, x)
        x.now, x.seen = None, {e: set() for e in x.eps}
        d.show("0x%04x holds %r", x.nwk, x.hold)
        for j in x.jobs:
            d.show("  +%.3f %s %d 0x%04x %s +%g", j[0], j[1], j[2], j[3], FATES[j[4]], j[6])
        devs.append(x)
    commands = [(d.choice((0.0, 0.01, 0.5, 3.0)), d.choice(GROUPS), d.int(0, 3),
                 d.u8(), d.u16(), d.weighted(8, 1, 1), d.int(1, 255))
                for _ in range(d.int(0, 10))]
    for c in commands:
        d.show("+%g command %r", c[0], c[1:])

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        ncp.confirms = confirms
        app = await stack.started_app(world)
        listener = Listener()
        app.groups.add_listener(listener)
        app.pass_join = True
        app.pass_on = True
        for x in devs:
            dev = x.dev = stack.add_device(app, x.ieee, x.nwk)
            dev.node_desc = zz.NodeDescriptor(1, 64, 0x8E, 4476, 82, 255, 0, 255, 0)
            dev.status = zigpy.device.Status.ENDPOINTS_INIT
            for e in x.eps:
                ep = dev.add_endpoint(e)
                ep.profile_id, ep.status = 260, zigpy.endpoint.Status.ZDO_INIT
                for c in (0, GRP, ONOFF, LEVEL):
                    ep.add_input_cluster(c)
        by_nwk = {x.nwk: x for x in devs}
        multicasts, executed, changed, number = [], [], [], [0]

        def members():
            return set((g, x.ieee, e) for x in devs for e in x.eps for g in x.hold[e])

        def hook(req):
            ack = [ncp.status(req, 0)]
            if req.key == ("AF", "dataRequestExt"):
                v = req.v
                mode, to = v["dstaddrmode"], int.from_bytes(v["dstaddr"][:2], "little")
                check(mode == 1, "a group command became %r", v)
                c = commands[number[0]]
                number[0] += 1
                multicasts.append((to, v["clusterid"], v["srcendpoint"], v["data"]))
                if c[5] == 1:
                    return [ncp.status(req, c[6])]
                if c[5] == 2:
                    return "drop"
                for g, ieee, e in members():
                    if g == to:
                        executed.append((ieee, e, v["clusterid"], v["data"]))
                return ack
            if req.key != ("AF", "dataRequest"):
                return None
            v = req.v
            x, e, data = by_nwk[v["dstaddr"]], v["destendpoint"], v["data"]
            if data[0] & 3 == 0 and data[2] == 0x0B:
                return ack
            check(v["clusterid"] == GRP and data[0] == 1 and x.now is not None,
                  "nobody asked for %r", v)
            job = x.now
            check(e == job[2] or job[1] == "announce", "0x%04x: endpoint %d asked instead of "
                  "%d", x.nwk, e, job[2])
            fate = FATES[job[4]]
            if fate == "unacknowledged":
                return "drop"
            if fate == "refused by the coordinator":
                return [ncp.status(req, job[5])]
            tsn, cmd, body = data[1], data[2], data[3:]
            if cmd == 2:
                check(job[1] in ("scan", "announce") and body == b"\x00", "sent %r", v)
                hold = sorted(x.hold[e])
                out = bytes([200, len(hold)]) + b"".join(struct.pack("<H", g) for g in hold)
            else:
                g = struct.unpack_from("<H", body)[0]
                check(job[1] == {0: "add", 3: "remove"}.get(cmd) and g == job[3],
                      "asked to %s group 0x%04x, sent %r", job[1], job[3], v)
                if fate == "refused by the device":
                    status = job[5]
                elif fate == "unanswered":
                    status = 0
                elif cmd == 0:
                    status = 0x8A if g in x.hold[e] else 0
                    x.hold[e].add(g)
                else:
                    status = 0 if g in x.hold[e] else 0x8B
                    x.hold[e].discard(g)
                out = bytes([status]) + body[:2]
                if fate in ("answered", "unanswered but done") and status == 0:
                    changed.append(g)
            if fate.startswith("unanswered"):
                return ack
            return ack + [(max(0.0001, ncp.latency + job[6]), message(
                x.nwk, GRP, e, 1, bytes([0x19, tsn, cmd]) + out, x.ieee if x.long else None))]

        ncp.hook = hook

        def believed(x, e):
            mine = set(int(g) for g in x.dev.endpoints[e].member_of)
            also = set(int(g) for g, grp in app.groups.items()
                       if (zt.EUI64(x.ieee), e) in grp)
            check(mine == also, "0x%04x: the endpoint's groups are %r, the groups' %r", x.nwk,
                  mine, also)
            return mine

        async def perform(x, job):
            what, e, g, fate = job[1], job[2], job[3], FATES[job[4]]
            before = set(x.seen[e])
            ep = x.dev.endpoints[e]
            x.now = job
            result = error = None
            begin = loop.t
            try:
                if what == "add":
                    result = await ep.add_to_group(g, "name %d" % g)
                elif what == "remove":
                    result = await ep.remove_from_group(g)
                elif what == "scan":
                    await ep.group_membership_scan()
                else:
                    ncp.send(common.areq(ANN, {
                        "srcaddr": x.nwk, "nwkaddr": x.nwk, "ieeeaddr": x.ieee,
                        "capabilities": 0x8E}))
                    await asyncio.sleep(0.05)
                    scan = x.dev._group_scan_handle  # zigpy's own follow-up
                    check(scan is not None, "0x%04x announced itself and was not asked for "
                          "its groups", x.nwk)
                    await scan
            except AssertionError:
                raise
            except Exception as err:
                error = err
            check(loop.t - begin < 80, "%s took %.1f s", what, loop.t - begin)
            x.now = None
            said = "0x%04x endpoint %d, %s 0x%04x, %s" % (x.nwk, e, what, g, fate)
            if what == "announce":
                for k in x.eps:
                    x.seen[k] = set(x.hold[k])
                d.label("announced")
            elif what == "scan":
                check(error is None, "%s: raised %r", said, error)
                if fate in ("answered", "refused by the device"):
                    x.seen[e] = set(x.hold[e])
            elif fate in ("answered", "refused by the device"):
                check(error is None, "%s: raised %r", said, error)
                if fate == "answered":
                    ok = True
                    (x.seen[e].add if what == "add" else x.seen[e].discard)(g)
                    check(int(result) in (0, 0x8A, 0x8B), "%s: gave %r", said, result)
                else:
                    check(int(result) == job[5], "%s: gave %r, the device said %d", said,
                          result, job[5])
                    if (what, job[5]) in (("add", 0x8A), ("remove", 0x8B)):
                        (x.seen[e].add if what == "add" else x.seen[e].discard)(g)
            else:
                check(error is not None, "%s: gave %r", said, result)
            if fate != "answered":
                d.label(fate)
            for k in x.eps:
                check(believed(x, k) == x.seen[k], "%s: zigpy believes %r of endpoint %d, it "
                      "was told %r (before: %r)", said, believed(x, k), k, x.seen[k], before)

        async def live(x):
            for job in x.jobs:
                await asyncio.sleep(job[0])
                await perform(x, job)

        want = []

        async def command(c):
            _, g, k, a, b, fate, status = c
            group = app.groups.add_group(g)
            if k < 2:
                cluster, call = ONOFF, lambda: (group.endpoint.on_off.off,
                                                group.endpoint.on_off.on)[k]()
                body = bytes([k])
            elif k == 2:
                cluster, call = LEVEL, lambda: group.endpoint.level.move_to_level(a, b)
                body = b"\x00" + struct.pack("<BH", a, b)
            else:
                cluster, call = LEVEL, lambda: group.endpoint[LEVEL].step(a & 1, a, b)
                body = b"\x02" + struct.pack("<BBH", a & 1, a, b)
            want.append((g, cluster, body))
            held = [m for m in members() if m[0] == g]
            del executed[:]
            sent = len(multicasts)
            result = error = None
            begin = loop.t
            try:
                result = await call()
            except AssertionError:
                raise
            except Exception as err:
                error = err
            check(loop.t - begin < 60, "a group command took %.1f s", loop.t - begin)
            new = multicasts[sent:]
            check(len(new) == 1 and new[0][:2] == (g, cluster) and new[0][2] == 1 and
                  new[0][3][:1] == b"\x01" and new[0][3][2:] == body,
                  "command %s to group 0x%04x transmitted as %r", body.hex(), g, new)
            if fate == 0:
                check(error is None and int(result[1]) == 0, "a group command gave %r",
                      error or result)
                if held and changed:
                    d.nontrivial()
            elif fate == 1:
                check(error is not None or int(result[1]) == status, "a group command the "
                      "coordinator refused with %d gave %r", status, result)
            else:
                check(error is not None or int(result[1]) != 0, "an unacknowledged group "
                      "command gave %r", result)

        async def talk():
            for c in commands:
                await asyncio.sleep(c[0])
                await command(c)

        tasks = [asyncio.ensure_future(t) for t in [live(x) for x in devs] + [talk()]]
        _, pending = await asyncio.wait(tasks, timeout=3000)
        check(not pending, "operations do not end")
        for t in tasks:
            t.result()
        await asyncio.sleep(15)
        for x in devs:
            for e in x.eps:
                await perform(x, [0, "scan", e, 0, 0, 0, 0.05])
        check(listener.members == members(), "the events tell of %r, the devices hold %r",
              listener.members, members())
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


PARTS = [Part("histories", history, quick=600, thorough=40000)]
