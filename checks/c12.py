"""C12: resets complete on the reset indication; other async commands immediately."""
import asyncio

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.types import CommandType
from zigpy_cc.zpi_object import ZpiObject

from . import common

TECHNIQUE = "property-based testing against a simulated coordinator"
RULE = ("A case is an asynchronous command with generated arguments sent to a coordinator "
        "that emits generated other frames and, for resets, the reset indication after a "
        "generated delay; non-trivial for every reset with other traffic before its "
        "indication and every non-reset command. Distinct: by the full choice sequence.")
ASSUMES = ["Non-reset commands are issued while no other request holds the port."]
PLAIN = [c for c in mt.COMMANDS if c.type == mt.AREQ
         and (c.ss_name, c.name) not in common.RESETS
         and not any(t in mt.UNSUPPORTED for _, t in c.request)]
IND = mt.cmd("SYS", "resetInd")


def resets(d):
    rounds = []
    for _ in range(d.int(1, 3)):
        c = mt.cmd(*d.choice(common.RESETS))
        noise = []
        for _ in range(d.int(0, 4)):
            k = d.weighted(3, 2)
            noise.append(common.gen_areq(d, [("SYS", "resetInd")])[2] if k == 0
                         else common.gen_foreign_srsp(d, [])[2])
        delay = d.choice((0.0, 0.5, 7.0, 29.9))
        rounds.append((c, {"type": d.u8()} if c.request else {}, noise, delay,
                       mt.gen_payload(d, IND.request), d.int(1, 2)))
        d.show("%s, %d other frames, indication after %.2f s", c, len(noise), delay)
        if noise:
            d.nontrivial()

    async def main(loop, world):
        api = await stack.new_api()
        world.ncp.splitter = d.chunks
        for c, args, noise, delay, ind, copies in rounds:
            start, before = loop.t, len(world.ncp.log)
            world.ncp.hook = lambda req: (
                [(delay * 0.5, f) for f in noise]
                + [(delay, common.areq(IND, ind))] * copies)
            obj = await api.request(c.ss, c.name, dict(args))
            check(delay - 0.001 <= loop.t - start <= delay + 0.1,
                  "%s completed after %.3f s, its indication came after %.3f", c,
                  loop.t - start, delay)
            check(obj is not None and obj.command == "resetInd" and int(obj.subsystem) == 1
                  and mt.norm(obj.payload) == mt.norm(ind),
                  "%s returned %r instead of the reset indication %r", c, obj, ind)
            sent = world.ncp.log[before:]
            check(len(sent) == 1 and sent[0].cmd is c and sent[0].typ == mt.AREQ
                  and sent[0].payload == mt.encode(c.request, args),
                  "%s: wrote %r", c, sent)
            await asyncio.sleep(0.1)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


def plain(d):
    cs = [d.choice(PLAIN) for _ in range(d.int(1, 6))]
    calls = [(c, common.gen_args(d, c)) for c in cs]
    for c, a in calls:
        d.show("%s %r", c, a)
    d.nontrivial()

    async def main(loop, world):
        api = await stack.new_api()
        world.ncp.hook = lambda req: "drop"
        for c, args in calls:
            before, start = len(world.ncp.log), loop.t
            res = await api.request(c.ss, c.name, dict(args))
            check(loop.t - start < 0.01, "%s took %.2f s", c, loop.t - start)
            check(res is None, "%s returned %r", c, res)
            sent = world.ncp.log[before:]
            check(len(sent) == 1 and sent[0].typ == mt.AREQ and sent[0].cmd is c
                  and sent[0].payload == mt.encode(c.request, args), "%s: wrote %r", c, sent)
        await asyncio.sleep(100)
        check(len(world.ncp.log) == len(calls), "written again later: %r", world.ncp.log)

    stack.scenario(main)


def each_plain(d, case):
    c = mt.cmd(*case)
    args = common.gen_args(d, c)
    d.show("%s %r", c, args)
    d.nontrivial()

    async def main(loop, world):
        api = await stack.new_api()
        world.ncp.hook = lambda req: "drop"
        start = loop.t
        res = await api.request(c.ss, c.name, dict(args))
        check(res is None and loop.t - start < 0.01, "%s returned %r after %.2f s", c, res,
              loop.t - start)
        check([r.raw for r in world.ncp.log] == [mt.frame(2, c.ss, c.id, mt.encode(
            c.request, args))], "%s: wrote %r", c, world.ncp.log)

    stack.scenario(main)


def refused(d):
    typ = d.choice((mt.POLL, mt.SRSP))
    c = d.choice([c for c in mt.COMMANDS if not any(
        t in mt.UNSUPPORTED for _, t in c.request)])
    args = common.gen_args(d, c)
    params = ZpiObject.from_command(c.ss, c.name, args).parameters
    d.show("%s as type %d", c, typ)
    d.nontrivial()

    async def main(loop, world):
        api = await stack.new_api()
        obj = ZpiObject(CommandType(typ), c.ss, c.name, c.id, args, params)
        start = loop.t
        try:
            res = await api.request_raw(obj)
        except asyncio.TimeoutError:
            check(False, "%s as type %d was not refused but timed out", c, typ)
        except Exception:
            pass
        else:
            check(False, "%s as type %d was accepted and returned %r", c, typ, res)
        check(loop.t - start < 0.01, "refusal took %.2f s", loop.t - start)
        check(world.ncp.log == [] and world.ncp.noise[1:] == [],
              "wrote %r", world.ncp.log)
        obj = await api.request(mt.SYS, "ping", {"capabilities": 1})
        check(obj.payload["capabilities"] == 0x0659, "link unusable afterwards")

    stack.scenario(main)


PARTS = [
    Part("every plain command", each_plain, cases=[[c.ss_name, c.name] for c in PLAIN]),
    Part("resets", resets, quick=1500, thorough=40000),
    Part("sequences of plain commands", plain, quick=1000, thorough=20000),
    Part("other types refused", refused, quick=600, thorough=10000),
]
