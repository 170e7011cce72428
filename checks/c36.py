"""C36: traffic leaves nothing behind."""
import asyncio
import collections
import gc

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.api import API
from zigpy_cc.types import CommandType, Subsystem

from . import common, zdo
from .c03 import bad_frame
from .c16 import OPS, gen_reply

TECHNIQUE = "property-based testing of an invariant over repeated generated traffic"
RULE = ("A case is a block of 40 operations of one to three kinds (requests of every kind "
        "answered, refused, unanswered or given up, replies, messages, uninterpretable and "
        "damaged frames, noise, resets, losses of the port, probes) with generated "
        "contents, repeated four to ten times with 100 s of quiet after each; pending timers, "
        "tasks, live objects and buffered bytes are compared between the repetitions; "
        "non-trivial always. Distinct: by the full choice sequence.")
ASSUMES = ["What zigpy keeps about devices is not the library's.",
           "A leak is at least one object or byte per second operation of a kind."]
MSG = mt.cmd("AF", "incomingMsg")
OPS_PER_BLOCK = 40
KINDS = ("unicast", "unicast refused", "unicast unanswered", "group", "group refused",
         "broadcast", "zdo answered", "zdo unanswered", "zdo refused", "zdo silent",
         "permit", "given up", "messages", "unknown senders", "unsolicited",
         "bad frames", "damaged", "noise", "stray responses", "join reports",
         "indications", "raw requests", "raw silent", "resets", "reset silent", "losses",
         "probes", "dead probes", "long waits")


def gen_block(d, kinds):
    out = []
    for i in range(OPS_PER_BLOCK):
        k = kinds[i % len(kinds)]
        x = None
        if k.startswith(("unicast", "group", "broadcast")):
            x = (d.u16(), d.u8(), d.bytes(0, 20))
        elif k.startswith("zdo") or k == "given up":
            op = d.choice(OPS)
            _, cmd, args, _, _ = zdo.gen(d, 0x1234, (op,))
            x = (cmd, args, d.u8(), gen_reply(d, op, 0x1234)[0])
        elif k == "permit":
            x = d.int(0, 254)
        elif k in ("messages", "unknown senders"):
            v = mt.gen_payload(d, MSG.request, max_payload=60)
            v["srcaddr"], v["srcendpoint"] = 0x1234, v["srcendpoint"] or 1
            if k == "unknown senders":
                v["srcaddr"] = 0x4321
            x = common.areq(MSG, v)
        elif k == "unsolicited":
            x = gen_reply(d, d.choice(OPS), 0x1234)[0]
        elif k == "bad frames":
            x = bad_frame(d, d.int(0, 7))
        elif k == "damaged":
            raw = bytearray(mt.frame(2, 5, 0xCB, d.bytes(1, 30)))
            raw[-1] ^= d.int(1, 255)
            x = bytes(raw)
        elif k == "noise":
            x = bytes([b if b != 0xFE else 0 for b in d.bytes(1, 60)])
        elif k == "stray responses":
            x = common.gen_foreign_srsp(d, ())[2]
        elif k == "join reports":
            x = mt.build("ZDO", "permitJoinInd", duration=d.choice((0, 60)))
        elif k == "indications":
            x = common.gen_areq(d, (("ZDO", "endDeviceAnnceInd"),
                                    ("ZDO", "permitJoinInd")))[2]
        elif k.startswith("raw"):
            c = d.choice(common.SREQS)
            x = (c, common.gen_args(d, c), common.srsp(c, common.gen_answer(d, c, 0)))
        out.append((k, x))
    return out


PLAIN = {int, str, float, bool, type(None), type, collections.Counter}


def census():
    """Live objects by type, and the bytes held."""
    gc.collect()
    gc.collect()
    count, size = {}, 0
    for o in gc.get_objects():
        t = type(o)
        if t is bytes or t is bytearray:
            size += len(o)
        if t not in PLAIN:
            count[t] = count.get(t, 0) + 1
    return count, size


async def play(app, world, dev, block):
    ncp = world.ncp
    quiet = {"silent": False, "status": 0, "raw": None}

    def hook(req):
        if req.typ != mt.SREQ:
            return "drop" if quiet["silent"] else None
        if quiet["silent"]:
            return "drop"
        if quiet["raw"] is not None and req.cmd is quiet["raw"][0]:
            return [(0.001, quiet["raw"][1])]
        if req.ss in (mt.ZDO, mt.AF) and quiet["status"]:
            return [ncp.status(req, quiet["status"])]
        return None

    ncp.hook = hook
    for k, x in block:
        quiet.update(silent=k.endswith("silent") or k == "unicast unanswered",
                     status=7 if k.endswith("refused") else 0, raw=None)
        try:
            if k.startswith("unicast"):
                await app.request(dev, 260, x[0], 1, 1, x[1], x[2])
            elif k.startswith("group"):
                await app.mrequest(x[0], 260, 6, 1, x[1], x[2])
            elif k == "broadcast":
                await app.broadcast(260, x[0], 1, 1, 0, 3, x[1], x[2])
            elif k.startswith("zdo"):
                ncp.hook = lambda req: hook(req) or [ncp.status(req, 0)]
                await app.request(dev, 0, x[0], 0, 0, x[2], bytes([x[2]]) +
                                  dev.zdo._serialize(x[0], *x[1]))
                if k == "zdo answered":
                    ncp.send(x[3])
            elif k == "given up":
                quiet["silent"] = True
                task = asyncio.ensure_future(app.request(
                    dev, 0, x[0], 0, 0, x[2], bytes([x[2]]) +
                    dev.zdo._serialize(x[0], *x[1])))
                await asyncio.sleep(0.001)
                task.cancel()
                await asyncio.wait([task])
            elif k == "permit":
                await app.permit_ncp(x)
            elif k == "raw requests" or k == "raw silent":
                quiet["raw"] = (x[0], x[2])
                await app._api.request(x[0].ss, x[0].name, x[1])
            elif k.startswith("reset"):
                await app._api.request(1, "resetReq", {"type": 1})
            elif k == "losses":
                world.port.lose(OSError("gone"))
                await asyncio.sleep(20)
            elif k in ("probes", "dead probes"):
                quiet["silent"] = k == "dead probes"
                port = world.port
                await API.probe({"path": stack.PORT})
                world.ports.append(port)
            elif k == "long waits":
                try:
                    await app._api.wait_for(CommandType.AREQ, Subsystem.ZDO,
                                            "stateChangeInd", {"state": 3}, 1000).wait()
                except asyncio.TimeoutError:
                    pass
            else:
                ncp.send(x)
        except Exception:
            pass
        finally:
            ncp.hook = hook
        await asyncio.sleep(0.01)
    ncp.hook = None


def forget(app, world, loop):
    """What the harness itself collected."""
    ncp = world.ncp
    for x in (ncp.log, ncp.nv_write_log, ncp.overlaps, ncp.bad_frames, ncp.noise,
              world.opens, world.port.written, world.port.late_writes, app.received,
              app.joins, app.losses, loop.contexts):
        del x[:]
    del world.ports[:-1]
    ncp.pending = None


def check_kinds(d, kinds, product):
    block = gen_block(d, kinds)
    d.show("product %d, %s", product, ", ".join(kinds))
    for k, x in block[:12]:
        d.show("%s %s", k, x.hex()[:60] if isinstance(x, bytes) else x)
    d.nontrivial()
    for k in kinds:
        d.label(k)

    async def main(loop, world):
        world.ncp.product = product
        app = await stack.started_app(world)
        dev = stack.add_device(app, b"\x05" * 8, 0x1234)
        seen = []
        few = OPS_PER_BLOCK // len(kinds) // 2

        def growing():
            """What has grown in every repetition so far."""
            pairs = list(zip(seen, seen[1:]))
            more = {k.__name__: b[k] - a.get(k, 0) for (a, _), (b, _) in pairs[-1:]
                    for k in b if all(y.get(k, 0) - x.get(k, 0) >= few
                                      for (x, _), (y, _) in pairs)}
            if all(y - x >= few for (_, x), (_, y) in pairs):
                more["bytes held"] = pairs[-1][1][1] - pairs[-1][0][1]
            return more

        # four repetitions; the interpreter's own fluctuations end in further ones
        for n in range(10):
            await play(app, world, dev, block)
            await asyncio.sleep(100)
            forget(app, world, loop)
            timers = [h for h in loop._scheduled if not h._cancelled]
            tasks = asyncio.all_tasks() - {asyncio.current_task()}
            check(not tasks, "100 s after %s tasks go on: %r", kinds, tasks)
            check(not timers, "100 s after %s timers are pending: %r", kinds, timers)
            if n:
                seen.append(census())
            if n >= 3 and not growing():
                break
        else:
            check(False, "%s leave more and more behind: %s", kinds, growing())

    stack.scenario(main, max_time=1e6, max_iterations=10**7)


def each_kind(d, case):
    check_kinds(d, [case], d.int(0, 2))


def mixes(d):
    check_kinds(d, d.sample(KINDS, d.int(2, 3)), d.int(0, 2))


PARTS = [
    Part("every kind", each_kind, cases=list(KINDS)),
    Part("mixes", mixes, quick=10, thorough=1500),
]
