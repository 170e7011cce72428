"""C34: after garbage on the line the receiver finds the frames again."""
import asyncio

from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.uart import Gateway

from . import common
from .c01 import Sink, gen_frame

TECHNIQUE = "property-based testing of the receive path with generated line faults"
RULE = ("A case is arbitrary garbage (random bytes rich in start bytes, truncated frames, "
        "frames with lost, doubled or altered bytes, length bytes included), once or "
        "several times, each followed by a stretch of at least 260 bytes of noise or of "
        "frames without an inner start byte, then valid frames of any content, cut into "
        "generated reads; non-trivial when the garbage contains a start byte. Distinct: by "
        "the full choice sequence.")
ASSUMES = ["260 bytes is the longest frame a length byte can announce; within them what "
           "is handed up is only required to be a checksum-correct part of the stream."]
SPAN = 260


def plain_frame(d):
    """A frame in which the start byte occurs only at the start."""
    while True:
        n = d.int(0, 20)
        f = (d.int(0, 3), d.choice((1, 2, 4, 5, 7)), d.int(0, 0xFD),
             bytes([d.int(0, 0xFD) for _ in range(n)]))
        if 0xFE not in mt.frame(*f)[1:]:
            return f
        d.bool(0.5)  # another draw, also when replaying
        return (2, 5, 0xCB, b"\x3c")


def garbage(d):
    k = d.weighted(3, 3, 3, 1)
    if k == 0:
        n = d.int(1, 40)
        return bytes([0xFE if d.bool(0.3) else d.u8() for _ in range(n)])
    raw = bytearray(mt.frame(*gen_frame(d)))
    if k == 1:  # cut off
        return bytes(raw[: d.int(1, len(raw) - 1)])
    if k == 2:  # a byte lost, doubled or altered anywhere
        for _ in range(d.int(1, 2)):
            i = d.int(0, len(raw) - 1) if d.bool(0.6) else min(1, len(raw) - 1)
            how = d.int(0, 2)
            if how == 0 and len(raw) > 1:
                del raw[i]
            elif how == 1:
                raw.insert(i, raw[i])
            else:
                raw[i] ^= d.int(1, 255)
        return bytes(raw)
    return b"\xfe" + bytes([d.int(0xFB, 0xFF)]) + d.bytes(0, 3)


def stretch(d):
    """At least SPAN bytes without a misleading start byte; (bytes, frames, sure)."""
    if d.bool(0.5):
        b = bytes([x if x != 0xFE else 0 for x in d.bytes(0, 6)]) or b"\x00"
        return (b * SPAN)[:SPAN], []
    out, sure = b"", []
    while len(out) < SPAN + 40:
        f = plain_frame(d)
        if len(out) >= SPAN:
            sure.append(f)
        out += mt.frame(*f)
    return out, sure


def legit(stream, frames):
    """Each frame handed up is a part of the stream, in order, without overlap."""
    pos = 0
    for f in frames:
        i = stream.find(mt.frame(*f), pos)
        check(i >= 0, "handed up %r, which is not in the stream after byte %d", f, pos)
        pos = i + len(f[3]) + 5


def streams(d):
    rounds = []
    for _ in range(d.weighted(4, 2, 1) + 1):
        g = garbage(d)
        s, sure = stretch(d)
        good = [gen_frame(d, 0.05) for _ in range(d.int(1, 4))]
        rounds.append((g, s, sure + good, b"".join(mt.frame(*f) for f in good)))
        d.show("garbage %s, %d bytes, then %r", g.hex(), len(s), good)
        if 0xFE in g:
            d.nontrivial()
    sink = Sink()
    gw = Gateway(sink)
    stream = b""
    for g, s, due, tail in rounds:
        part = g + s + tail
        for r in d.chunks(part):
            gw.data_received(r)
        stream += part
        check(sink.frames[len(sink.frames) - len(due):] == due,
              "%d bytes after the garbage %s the frames handed up were %r, sent were %r",
              len(s), g.hex(), sink.frames[-len(due) - 2:], due)
    legit(stream, sink.frames)


def each_length(d, case):
    """A false start with every length byte; truncated or followed by other bytes."""
    length, behind = case
    g = bytes([0xFE, length]) + b"\x00" * behind
    d.show("garbage %s", g.hex())
    d.nontrivial()
    f = (2, 5, 0xCB, b"\x3c")
    for filler in (b"\x00" * SPAN, b"\xfd" * SPAN, mt.frame(*f) * 60):
        sink = Sink()
        gw = Gateway(sink)
        gw.data_received(g)
        gw.data_received(filler)
        del sink.frames[:]
        frames = [(3, 1, 2, b"\xfe\x00\xfe"), f, (2, 4, 0x81, bytes(range(250)))]
        for x in frames:
            gw.data_received(mt.frame(*x))
        check(sink.frames == frames, "after %s and %d bytes %r were handed up", g.hex(),
              len(filler), sink.frames)


MSG = mt.cmd("AF", "incomingMsg")


def running(d):
    """The same on a running application: requests and messages work afterwards."""
    rounds = []
    for _ in range(d.int(1, 3)):
        g = garbage(d)
        s, _ = stretch(d)
        asking = d.bool(0.4)
        rounds.append((g, s, asking))
        d.show("garbage %s%s", g.hex(), " into an answer" if asking else "")
        if 0xFE in g:
            d.nontrivial()
    v = mt.gen_payload(d, MSG.request, max_payload=40)
    v["srcaddr"] = 0x1234
    v["srcendpoint"] = v["srcendpoint"] or 1

    async def main(loop, world):
        app = await stack.started_app(world)
        ncp = world.ncp
        dev = stack.add_device(app, b"\x05" * 8, 0x1234)
        ncp.splitter = d.chunks
        for g, s, asking in rounds:
            if asking:  # its answer arrives in the middle of the garbage
                ncp.hook = lambda req: (ncp.send(g), [(1e-3, ncp.status(req)[1])])[1]
                try:
                    await app.request(dev, 260, 6, 1, 1, 9, b"abc")
                except asyncio.TimeoutError:
                    d.label("answer lost in the garbage")
                ncp.hook = None
            else:
                ncp.send(g)
            await asyncio.sleep(0.1)
            ncp.send(s)
            await asyncio.sleep(0.1)
            del app.received[:]
            ncp.send(common.areq(MSG, v))
            t = loop.t
            res = await app.request(dev, 260, 6, 1, 1, 9, b"abc")
            check(int(res[0]) == 0 and loop.t - t < 0.1, "the next request took %.1f s "
                  "and gave %r", loop.t - t, res)
            got = [m.row for m in app.received]
            want = [(0x1234, v["clusterid"], v["srcendpoint"], v["dstendpoint"], v["data"])]
            check(got == want, "zigpy received %r, expected %r", got, want)
        errors = stack.loop_errors(loop)
        check(not errors, "errors escaped into the event loop: %r", errors)

    stack.scenario(main)


PARTS = [
    Part("every false length", each_length,
         cases=[[n, k] for n in range(256) for k in (0, 1, 2, 7)]),
    Part("streams", streams, quick=2500, thorough=100000),
    Part("running application", running, quick=400, thorough=20000),
]
