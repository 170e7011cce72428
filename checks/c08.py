"""C08: each request completes with its own response and reports its status."""
import asyncio

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.exception import CommandError

from . import common

TECHNIQUE = "stateful property-based testing against a simulated coordinator"
RULE = ("A case is 1-4 synchronous requests (any of the commands, generated arguments, "
        "accepted-status lists), each answered after a generated delay with generated "
        "values, surrounded by indications and by synchronous responses of other commands, "
        "in generated reads; non-trivial when other traffic arrives before the answer or "
        "the status is not 0. Distinct: by the full choice sequence.")
ASSUMES = ["The coordinator answers each request within the 6 s limit."]
SAME_NAME = {}
for _c in common.SREQS:
    SAME_NAME.setdefault(_c.name, []).append(_c)
TWINS = [c for cs in SAME_NAME.values() if len(cs) > 1 for c in cs]
WITH_STATUS = [c for c in common.SREQS if any(n == "status" for n, _ in c.response)]


def accepted(d):
    k = d.weighted(6, 2, 1, 1, 2)
    if k == 0:
        return None
    if k == 4:
        return sorted({d.u8() for _ in range(d.int(1, 4))})
    return ([0, 1], [0, 2], [0, 9])[k - 1]


def gen_request(d, before_it=None):
    k = d.weighted(5, 3, 2)
    c = d.choice((common.SREQS, WITH_STATUS, TWINS or common.SREQS)[k])
    accept = accepted(d)
    status = common.gen_status(d)
    if accept and d.bool(0.5):
        status = d.choice(accept)
    if before_it and d.bool(0.3):  # as the request before
        accept = before_it[2]
        status = before_it[3].get("status", status) if d.bool() else status
    values = common.gen_answer(d, c, status)
    before, after = [], []
    for where in (before, after):
        for _ in range(d.weighted(3, 2, 1, 1)):
            kind = d.weighted(3, 3, 2, 2)
            if kind == 0:
                where.append(common.gen_areq(d)[2])
            elif kind == 3:
                where.append(common.gen_crossed(d, c))
            elif kind == 1 or c not in TWINS:
                where.append(common.gen_foreign_srsp(d, [c])[2])
            else:  # the same command name in another subsystem
                twin = d.choice([x for x in SAME_NAME[c.name] if x is not c])
                where.append(common.srsp(twin, common.gen_answer(d, twin)))
    delay = d.choice((0.0, 0.001, 0.5, 5.9))
    return c, common.gen_args(d, c), accept, values, before, after, delay


def interleaved(d):
    reqs, lists = [], {}
    for _ in range(d.int(1, 4)):
        reqs.append(gen_request(d, reqs[-1] if reqs else None))
    for c, args, accept, values, before, after, delay in reqs:
        d.show("%s accept=%s answered %r after %.3fs, %d frames before, %d after", c,
               accept, {k: v for k, v in values.items() if k in ("status",)}, delay,
               len(before), len(after))
        if before:
            d.nontrivial("other traffic before the answer")
        if values.get("status"):
            d.nontrivial("status not 0")

    async def main(loop, world):
        api = await stack.new_api()
        current = []

        def hook(req):
            c, _, _, values, before, after, delay = current[0]
            if req.cmd is not c:
                return "drop"
            return ([(delay, f) for f in before] + [(delay, common.srsp(c, values))]
                    + [(delay, f) for f in after])

        world.ncp.hook = hook
        world.ncp.splitter = d.chunks
        for r in reqs:
            c, args, accept, values = r[:4]
            current[:] = [r]
            # the caller's list, which it may use again
            kw = {} if accept is None else {
                "expected_status": lists.setdefault(tuple(accept), list(accept))}
            ok = "status" not in values or values["status"] in (accept or [0])
            try:
                obj = await api.request(c.ss, c.name, dict(args), **kw)
            except CommandError as e:
                check(not ok, "%s raised %r although status %r is accepted", c, e,
                      values.get("status"))
                check(int(e.status) == values["status"],
                      "%s answered status %d but the error carries %r", c,
                      values["status"], e.status)
            except asyncio.TimeoutError:
                check(False, "%s was answered but timed out", c)
            else:
                check(ok, "%s answered status %r (accepted %s) but raised nothing", c,
                      values.get("status"), accept or [0])
                check(obj.command == c.name and int(obj.subsystem) == c.ss
                      and int(obj.command_type) == mt.SRSP,
                      "%s returned %s %s", c, obj.subsystem, obj.command)
                check(mt.norm(obj.payload) == mt.norm(values),
                      "%s returned %r, the coordinator sent %r", c,
                      mt.norm(obj.payload), values)
            await asyncio.sleep(0.05)
        sent = [r.cmd for r in world.ncp.log]
        check(sent == [r[0] for r in reqs], "commands sent: %s, requested: %s", sent,
              [r[0] for r in reqs])
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)
        api.close()

    stack.scenario(main)


def statuses(d, case):
    """Every status value, against default and explicit accepted lists."""
    name, status = case
    c = next(x for x in WITH_STATUS if "%s.%s" % (x.ss_name, x.name) == name)
    accept = [None, [0, 1], [0, 9], [status], [s for s in (0, 2, 255) if s != status]][
        d.int(0, 4)]
    values = common.gen_answer(d, c, status)
    args = common.gen_args(d, c)
    d.show("%s status %d accepting %s", name, status, accept)
    if status:
        d.nontrivial()

    async def main(loop, world):
        api = await stack.new_api()
        world.ncp.hook = lambda req: [(0.0, common.srsp(c, values))]
        kw = {} if accept is None else {"expected_status": accept}
        good = status in (accept if accept is not None else [0])
        try:
            obj = await api.request(c.ss, c.name, args, **kw)
        except CommandError as e:
            check(not good and int(e.status) == status, "status %d accepting %s: error %r",
                  status, accept, e.status)
        else:
            check(good, "status %d accepting %s: no error", status, accept)
            check(mt.norm(obj.payload) == mt.norm(values), "returned %r, sent %r",
                  mt.norm(obj.payload), values)

    stack.scenario(main)


PARTS = [
    Part("every status", statuses, cases=[
        [n, s] for n in ("SYS.osalNvWrite", "AF.dataRequest", "ZDO.nodeDescReq")
        for s in range(256)]),
    Part("interleaved traffic", interleaved, quick=2500, thorough=80000),
]
