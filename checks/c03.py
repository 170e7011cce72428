"""C03: a frame the library cannot interpret affects nothing but itself."""
import asyncio

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.exception import CommandError
from zigpy_cc.types import Subsystem

from . import common

TECHNIQUE = "fault-injecting stateful property-based testing of the whole receive path"
RULE = ("A case is a conversation of 1-5 requests on a running application; around each "
        "answer the coordinator sends application messages, announcements and correctly "
        "framed but uninterpretable frames (unknown type, subsystem or command, truncated "
        "payload, undefined address mode, unsupported list, response to a command without "
        "response), in one read or generated chunks; non-trivial when an uninterpretable "
        "frame shares a conversation with a later valid frame. Distinct: by choice sequence.")
ASSUMES = []
MSG = mt.cmd("AF", "incomingMsg")
EXT = mt.cmd("AF", "incomingMsgExt")
ANN = mt.cmd("ZDO", "endDeviceAnnceInd")
KNOWN_SS = sorted({c.ss for c in mt.COMMANDS})
UNKNOWN_SS = [s for s in range(32) if s not in KNOWN_SS]
UNKNOWN_ID = {s: [i for i in range(256) if (s, i) not in mt.BY_ID] for s in KNOWN_SS}
TRUNCATABLE = [(c, mt.AREQ) for c in common.AREQS if c.request] + \
              [(c, mt.SRSP) for c in common.SREQS if c.response]
NO_RESPONSE = [c for c in mt.COMMANDS if c.response is None]
LISTS = [(c, t) for c in mt.COMMANDS for t, ps in ((mt.AREQ, c.request),
                                                   (mt.SRSP, c.response))
         if ps and any(x in mt.UNSUPPORTED for _, x in ps)]
KINDS = ("unknown subsystem", "unknown type", "unknown command", "truncated payload",
         "response without layout", "unsupported list", "undefined address mode",
         "empty frame")


def bad_frame(d, kind):
    if kind == 0:
        return mt.frame(d.int(0, 3), d.choice(UNKNOWN_SS), d.u8(), d.bytes(0, 20))
    if kind == 1:
        return mt.frame(d.int(4, 7), d.choice(KNOWN_SS), d.u8(), d.bytes(0, 20))
    if kind == 2:
        s = d.choice(KNOWN_SS)
        return mt.frame(d.int(0, 3), s, d.choice(UNKNOWN_ID[s]), d.bytes(0, 20))
    if kind == 3:
        c, t = d.choice(TRUNCATABLE)
        if d.bool(0.3):
            c, t = MSG, mt.AREQ
        params = mt.layout(c, t)
        v = mt.gen_payload(d, params, max_payload=60)
        if "srcaddr" in v and isinstance(v["srcaddr"], int):
            v["srcaddr"] = d.int(1, 3)
        data = mt.encode(params, v)
        cut = d.int(0, len(data) - 1)
        try:
            mt.decode(params, data[:cut])
        except mt.Short:
            return mt.frame(t, c.ss, c.id, data[:cut])
        return mt.frame(t, c.ss, c.id, b"")
    if kind == 4:
        c = d.choice(NO_RESPONSE)
        return mt.frame(mt.SRSP, c.ss, c.id, d.bytes(0, 20))
    if kind == 5:
        c, t = d.choice(LISTS)
        fixed = [(n, x) for n, x in mt.layout(c, t) if x not in mt.UNSUPPORTED]
        v = {n: mt.gen_value(d, x, 0) for n, x in fixed}
        return mt.frame(t, c.ss, c.id, mt.encode(fixed, v) + d.bytes(0, 40))
    if kind == 6:
        v = mt.gen_payload(d, EXT.request, max_payload=60)
        v["srcaddrmode"] = d.choice((4, 5, 7, 14, 16, 128, 255))
        v["srcaddr"] = d.choice((b"\x01", b"\x02", b"\x03")) * 8
        return common.areq(EXT, v)
    return mt.frame(d.int(0, 3), d.choice(UNKNOWN_SS), d.u8(), b"")


def gen_message(d):
    v = mt.gen_payload(d, MSG.request, max_payload=60)
    v["srcaddr"] = d.int(1, 3)
    v["srcendpoint"] = v["srcendpoint"] or 1  # not confusable with an announcement
    return v


def items(d, lo, hi):
    """Frames around an answer: (raw, expected row | None, expected join | None)."""
    out = []
    for _ in range(d.int(lo, hi)):
        k = d.weighted(5, 4, 1)
        if k == 0:
            kind = d.weighted(3, 1, 3, 3, 2, 2, 2, 1)
            out.append((bad_frame(d, kind), "bad", KINDS[kind]))
        elif k == 1:
            v = gen_message(d)
            out.append((common.areq(MSG, v), "msg", v))
        else:
            i = d.int(4, 9)
            out.append((common.areq(ANN, {
                "srcaddr": i, "nwkaddr": i, "ieeeaddr": bytes([i]) * 8,
                "capabilities": d.u8()}), "join", i))
    return out


def conversation(d):
    rounds = []
    for _ in range(d.int(1, 5)):
        c = d.choice(common.SREQS)
        status = 0 if d.bool(0.8) else d.int(1, 255)
        rounds.append((c, common.gen_args(d, c), common.gen_answer(d, c, status),
                       items(d, 0, 4), items(d, 0, 3), d.bool(0.6)))
    flat = []
    for c, _, v, before, after, joined in rounds:
        for raw, kind, x in before + [(None, "answer", c)] + after:
            flat.append(kind)
            d.show("%s %s", kind, x if kind != "msg" else "")
            if kind == "bad":
                d.label(x)
        if joined:
            d.label("answer shares its read with other frames")
    if "bad" in flat and any(k != "bad" for k in flat[flat.index("bad"):]):
        d.nontrivial()

    async def main(loop, world):
        app = await stack.started_app(world)
        for i in (1, 2, 3):
            stack.add_device(app, bytes([i]) * 8, i)
        ncp = world.ncp
        split = d.bool(0.5)
        if split:
            ncp.splitter = d.chunks
        want_rows, want_joins = [], []
        for n, (c, args, values, before, after, joined) in enumerate(rounds):
            raws = [r for r, _, _ in before] + [common.srsp(c, values)] + \
                   [r for r, _, _ in after]
            if joined:
                raws = [b"".join(raws)]
            ncp.hook = lambda req: "drop"

            def reply(req):
                for r in raws:
                    ncp.send(r)
                return "drop"

            ncp.hook = reply
            for _, kind, x in before + after:
                if kind == "msg":
                    want_rows.append((x["srcaddr"], x["clusterid"], x["srcendpoint"],
                                      x["dstendpoint"], x["data"]))
                elif kind == "join":
                    want_joins.append((x, bytes([x]) * 8))
                    want_rows.append((x, 0x0013, 0, 0, None))
            try:
                obj = await api_request(app, c, args)
            except asyncio.TimeoutError:
                check(False, "round %d: the answer to %s was lost", n, c)
            except CommandError as e:
                check(values.get("status") == int(e.status) != 0,
                      "round %d: %s failed with %r, sent %r", n, c, e.status, values)
            else:
                check(values.get("status", 0) == 0, "round %d: no error for status %r", n,
                      values.get("status"))
                check(obj.command == c.name and mt.norm(obj.payload) == mt.norm(values),
                      "round %d: %s returned %r, sent %r", n, c, mt.norm(obj.payload),
                      values)
            await asyncio.sleep(0.05)
        got = [m.row if m.cluster != 0x0013 or m.src_ep or m.dst_ep else
               m.row[:4] + (None,) for m in app.received]
        check(got == want_rows, "zigpy received %r, expected %r", got, want_rows)
        check([j[:2] for j in app.joins] == want_joins, "joins %r, expected %r", app.joins,
              want_joins)
        errors = stack.loop_errors(loop)
        check(not errors, "raised into the transport: %r", errors)
        ncp.hook = ncp.splitter = None
        obj = await app._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
        check(obj.payload["capabilities"] == 0x0659, "link unusable afterwards")

    stack.scenario(main)


async def api_request(app, c, args):
    return await app._api.request(c.ss, c.name, dict(args))


def each_bad(d, case):
    """Every unknown (type, subsystem, command) header, between two messages."""
    typ, ss = case

    async def main(loop, world):
        app = await stack.started_app(world)
        stack.add_device(app, b"\x01" * 8, 1)
        n = 0
        for cid in range(256):
            if typ < 4 and (ss, cid) in mt.BY_ID:
                continue
            v = {"groupid": 0, "clusterid": cid, "srcaddr": 1, "srcendpoint": 1,
                 "dstendpoint": 1, "wasbroadcast": 0, "linkquality": 9, "securityuse": 0,
                 "timestamp": 0, "transseqnumber": 0, "len": 1, "data": bytes([cid])}
            good = common.areq(MSG, v)
            world.port.deliver(good + mt.frame(typ, ss, cid, b"\x01\x02"[: cid % 3]) + good)
            n += 2
            check(len(app.received) == n, "header type %d subsystem %d command 0x%02x: "
                  "%d of 2 neighbouring messages delivered", typ, ss, cid,
                  len(app.received) - n + 2)
        d.show("type %d subsystem %d: %d command ids", typ, ss, n // 2)
        if n:
            d.nontrivial()

    stack.scenario(main)


PARTS = [
    Part("every unknown header", each_bad,
         cases=[[t, s] for t in range(8) for s in range(32)]),
    Part("conversations", conversation, quick=1300, thorough=60000),
]
