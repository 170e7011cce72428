"""C41: a neighbour scan through zigpy yields every router's whole table."""
import asyncio

import zigpy.topology
import zigpy.zdo.types as zz
from harness import mt, stack
from harness.engine import Part, check

from . import common
from .c39 import message

TECHNIQUE = "property-based end-to-end testing with simulated routers"
RULE = ("A case is one to three rounds of scanning the neighbour tables (generated entries, 0-40 per "
        "router, 1-11 per reply) of one to four routers and the coordinator, through zigpy's topology scan "
        "or of all of them at once, with generated delays, one lost reply, refusal or "
        "silence of the coordinator per page, routers that do not support it, answer with nothing or stop "
        "answering half-way, and other traffic; non-trivial when a table takes several "
        "replies. Distinct: by the full choice sequence.")
ASSUMES = ["A router answers within 4.9 s or, when the reply counts as lost, not at all.",
           "When the coordinator leaves a request unacknowledged, which holds up others for 6 s, "
           "routers answer within 0.3 s.",
           "Only where no reply gets lost do replies overtake the coordinator's "
           "acknowledgement."]
RSP = mt.cmd("ZDO", "mgmtLqiRsp")
NWKS = (0x1234, 0x0001, 0xFFF0, 0x8000)
INVALID = (b"\x00" * 8, b"\xff" * 8)


class Router:
    pass


def gen_table(d, known, size):
    out = []
    for _ in range(size):
        n = mt.gen_neighbor(d)
        n["permitJoin"] = min(n["permitJoin"], 2)
        k = d.weighted(8, 2, 1)
        if k == 1:
            n["extAddr"] = d.choice(known)
        elif k == 2:
            n["extAddr"] = d.choice(INVALID)
        out.append(n)
    return out


def gen_round(d, r, known):
    size = d.choice((0, 1, 2, 3, 4, 5, 6, 9, 20, 40)) if d.bool(0.8) else d.int(0, 40)
    r.table = gen_table(d, known, size)
    r.page = d.choice((1, 2, 2, 3, 3, 5, 10, 11))
    r.fate = ("answers", "unsupported", "silent", "stops")[d.weighted(12, 1, 1, 1)]
    if r.fate == "stops":
        r.until = d.int(1, 3) * r.page
    r.status = d.choice((0x84, 0x81, 0x8D, 0x01))
    r.trouble = {}
    for i in range(0, max(size, 1), r.page):
        if d.bool(0.12):
            r.trouble[i] = ("lost", "refused")[d.weighted(3, 1)]
    r.delays = [d.choice((0.0005 if r.trouble else -0.0005, 0.0005, 0.01, 0.3, 2.0, 4.8))
                for _ in range(3)]
    r.seen = {}
    r.at = d.choice((0.0, 0.0, 0.001, 0.5, 3.0))


class Air:
    def __init__(self, ncp, routers):
        self.ncp, self.routers, self.n = ncp, routers, 0
        ncp.extra["ZDO", "mgmtLqiReq"] = self.lqi
        ncp.hook = self.hook

    def hook(self, req):
        if req.key != ("ZDO", "mgmtLqiReq"):
            return None
        r = self.routers[req.v["dstaddr"]]
        k = r.seen[req.v["startindex"]] = r.seen.get(req.v["startindex"], 0) + 1
        trouble = r.trouble.get(req.v["startindex"]) if k == 1 else None
        if trouble == "refused":
            return [self.ncp.status(req, 0xE9)]
        if trouble == "unacknowledged":
            return "drop"
        return None

    def lqi(self, req):
        v = req.v
        r = self.routers[v["dstaddr"]]
        ack = [self.ncp.status(req, 0)]
        i = v["startindex"]
        lost = r.trouble.get(i) == "lost" and r.seen[i] == 1
        if lost or r.fate == "silent" or r.fate == "stops" and i >= r.until:
            return ack
        bad = r.fate == "unsupported"
        part = [] if bad else r.table[i:i + r.page]
        self.n += 1
        at = max(0.0001, self.ncp.latency + r.delays[self.n % 3])
        return ack + [(at, common.areq(RSP, {
            "srcaddr": r.nwk, "status": r.status if bad else 0,
            "neighbortableentries": 0 if bad else len(r.table), "startindex": i,
            "neighborlqilistcount": len(part), "neighborlqilist": part}))]


def rows(neighbors):
    return [n.neighbor.serialize() for n in neighbors]


def scans(d):
    product = d.int(0, 2)
    nrouters = d.int(1, 4)
    ieees = [d.eui()[:7] + bytes([i]) for i in range(nrouters + 1)]
    skip = d.bool(0.2)
    routers = {}
    for i in range(nrouters):
        r = Router()
        r.nwk = NWKS[i]
        routers[r.nwk] = r
    root = Router()
    root.nwk = 0
    routers[0] = root
    rounds = d.weighted(5, 3, 1) + 1
    split = d.choice((0, 0, 1, 7))
    reports = [(d.choice((0.01, 0.5, 3.0, 8.0)), d.int(0, nrouters - 1), d.u8())
               for _ in range(d.weighted(2, 1, 1) * 3)]
    plan = []
    for n in range(rounds):
        each = d.bool(0.5)
        deaf = d.choice(tuple(routers)) if d.bool(0.2) else None
        for r in routers.values():
            gen_round(d, r, ieees)
            if deaf is not None:  # its silence takes 6 s of everybody's time
                r.delays = [min(x, 0.3) for x in r.delays]
                if deaf == r.nwk:
                    r.trouble[0] = "unacknowledged"
                    r.delays = [abs(x) for x in r.delays]
            d.show("round %d: 0x%04x %s, table of %d, %d per reply, trouble %r", n + 1, r.nwk,
                   r.fate, len(r.table), r.page, r.trouble)
            if r.fate == "answers" and len(r.table) > r.page:
                d.nontrivial("%d replies" % -(-len(r.table) // r.page))
            if r.trouble:
                d.label("trouble")
        plan.append((each, {n: dict(vars(r)) for n, r in routers.items()}))

    async def main(loop, world):
        ncp = world.ncp
        ncp.product = product
        ncp.ieee = ieees[-1]
        app = await stack.started_app(world)
        app.config["topology_scan_enabled"] = False
        app.config["topology_scan_skip_coordinator"] = skip
        devices = {0: app.devices[app.ieee]}
        for i in range(nrouters):
            dev = devices[NWKS[i]] = stack.add_device(app, ieees[i], NWKS[i])
            dev.node_desc = zz.NodeDescriptor(1, 64, 0x8E, 4476, 82, 255, 0, 255, 0)
        end = stack.add_device(app, b"\x77" * 8, 0x7777)
        end.node_desc = zz.NodeDescriptor(2, 64, 0x80, 4476, 82, 255, 0, 255, 0)
        app.pass_on = app.pass_join = True
        app.topology = zigpy.topology.Topology.new(app)
        Air(ncp, routers)
        if split:
            ncp.splitter = lambda raw: [raw[i:i + split] for i in range(0, len(raw), split)]
        want = {nwk: [] for nwk in devices}
        unsupported = set()
        for number, (each, state) in enumerate(plan):
            for nwk, values in state.items():
                vars(routers[nwk]).update(values)
            before = ncp.requests("mgmtLqiReq")
            for t, i, tsn in reports:
                ncp.send(message(NWKS[i], 8, 1, 1, bytes([0x18, tsn, 0x0A, 0, 0, 0x20, 5])),
                         t)
            scanned = dict(devices) if each else {
                nwk: dev for nwk, dev in devices.items()
                if nwk not in unsupported and (nwk or not skip)}
            if each:
                async def scan(nwk):
                    await asyncio.sleep(routers[nwk].at)
                    return await devices[nwk].neighbors.scan()

                tasks = {nwk: asyncio.ensure_future(scan(nwk)) for nwk in devices}
            else:
                tasks = {None: asyncio.ensure_future(app.topology.scan())}
            done, pending = await asyncio.wait(tasks.values(), timeout=4000)
            check(not pending, "the scan of %r does not end", [
                n for n, t in tasks.items() if t in pending])
            for nwk, task in tasks.items():
                check(task.exception() is None, "the scan of %r raised %r", nwk,
                      task.exception())
            for nwk in scanned:
                r = routers[nwk]
                reached = r.fate == "answers" or \
                    r.fate == "stops" and len(r.table) <= r.until
                if reached:
                    want[nwk] = [mt.encode_neighbor(n) for n in r.table
                                 if n["extAddr"] not in INVALID]
                if r.fate == "unsupported":
                    unsupported.add(nwk)
            for nwk, dev in devices.items():
                check(dev.neighbors.supported == (nwk not in unsupported), "0x%04x counts as "
                      "%ssupporting scans", nwk, "" if dev.neighbors.supported else "not ")
                got = rows(dev.neighbors)
                check(got == want[nwk], "after round %d 0x%04x has %d neighbours, not the "
                      "%d of its table: %r instead of %r", number + 1, nwk, len(got),
                      len(want[nwk]), [x.hex() for x in got[:4]],
                      [x.hex() for x in want[nwk][:4]])
                for n in dev.neighbors:
                    check(n.device is app.devices.get(n.neighbor.ieee),
                          "neighbour %r is shown as %r", n.neighbor.ieee, n.device)
            asked = ncp.requests("mgmtLqiReq")[len(before):]
            check({r.v["dstaddr"] for r in asked} == set(scanned), "asked %r, to scan %r",
                  sorted({r.v["dstaddr"] for r in asked}), sorted(scanned))
            await asyncio.sleep(30)
        check(not ncp.bad_frames and not ncp.noise, "not frames: %r", ncp.bad_frames)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main, max_time=20000.0)


PARTS = [Part("scans", scans, quick=350, thorough=20000)]
