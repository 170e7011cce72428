"""C06: a payload that ends early is rejected, never filled in."""
import asyncio

from harness import mt, stack
from harness.engine import Part, Violation, check
from zigpy_cc.uart import UnpiFrame
from zigpy_cc.zpi_object import ZpiObject

from .c05 import INBOUND

RULE = ("A case is one response or indication with generated field values and EVERY proper "
        "prefix of its payload; non-trivial when at least two prefixes were tried. "
        "Distinct: by the full choice sequence.")
ASSUMES = ["As C05 for the layouts in scope."]


def must_fail(c, typ, data):
    try:
        obj = ZpiObject.from_unpi_frame(UnpiFrame(typ, c.ss, c.id, data))
    except Exception:
        return
    raise Violation("%s type %d with only %d payload bytes (%s) decoded to %r"
                    % (c, typ, len(data), data.hex(), mt.norm(obj.payload)))


def prefixes(d, c, typ, values):
    params = mt.layout(c, typ)
    data = mt.encode(params, values)
    tried = 0
    for cut in range(len(data)):
        try:
            mt.decode(params, data[:cut])
        except mt.Short:
            must_fail(c, typ, data[:cut])
            tried += 1
    d.show("%s type %d, %d prefixes of %s", c, typ, tried, data[:40].hex())
    if tried > 1:
        d.nontrivial()


def random_values(d):
    c, typ = d.choice(INBOUND)
    prefixes(d, c, typ, mt.gen_payload(d, mt.layout(c, typ), max_payload=120))


def each(d, case):
    ss, name, typ = case
    c = mt.cmd(ss, name)
    prefixes(d, c, typ, mt.gen_payload(d, mt.layout(c, typ), max_payload=120))


def in_conversation(d):
    """Truncated answers and messages reach neither the caller nor zigpy."""
    c, _ = d.choice([x for x in INBOUND if x[1] == mt.SRSP and x[0].response
                     and x[0].type == mt.SREQ])
    values = mt.gen_payload(d, c.response, max_payload=60)
    if "status" in values:
        values["status"] = 0
    payload = mt.encode(c.response, values)
    short = [mt.frame(mt.SRSP, c.ss, c.id, payload[: d.int(0, len(payload) - 1)])
             for _ in range(d.int(1, 3))]
    short = [s for s in short if _is_short(c.response, s[4:-1])]
    msg = mt.gen_payload(d, mt.cmd("AF", "incomingMsg").request, max_payload=60)
    msg["srcaddr"] = 0x1234
    body = mt.encode(mt.cmd("AF", "incomingMsg").request, msg)
    cut = mt.frame(mt.AREQ, 4, 0x81, body[: d.int(0, len(body) - 1)])
    whole = d.bool(0.7)
    args = {n: b"" if t == "BUFFER" else [] if t in mt.ITEM else mt.gen_value(d, t)
            for n, t in c.request}
    d.show("%s: %d truncated answers, then %s", c, len(short),
           "the whole one" if whole else "nothing")
    d.nontrivial("whole answer follows" if whole else "only truncated answers")

    async def main(loop, world):
        app = await stack.started_app(world)
        stack.add_device(app, b"\x11" * 8, 0x1234)
        api = app._api

        def hook(req):
            out = [(0.01, s) for s in short] + [(0.01, cut)]
            if whole:
                out.append((0.02, mt.frame(mt.SRSP, c.ss, c.id, payload)))
            return out

        world.ncp.hook = hook
        start = loop.t
        try:
            obj = await api.request(c.ss, c.name, args)
        except asyncio.TimeoutError:
            check(not whole, "%s: the complete answer after truncated ones was lost", c)
        else:
            check(whole, "%s completed by a truncated answer: %r", c,
                  mt.norm(obj.payload))
            check(mt.norm(obj.payload) == mt.norm(values), "%s returned %r, sent %r", c,
                  mt.norm(obj.payload), values)
            check(loop.t - start < 1, "answer arrived late")
        check(app.received == [], "a truncated message was delivered: %r", app.received)

    stack.scenario(main)


def _is_short(params, data):
    try:
        mt.decode(params, data)
    except mt.Short:
        return True
    return False


PARTS = [
    Part("every message", each, cases=[[c.ss_name, c.name, t] for c, t in INBOUND]),
    Part("random values", random_values, quick=3000, thorough=80000),
    Part("in conversation", in_conversation, quick=700, thorough=15000),
]
