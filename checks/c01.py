"""C01: every valid frame is delivered exactly once, in order, under any chunking."""
import random

from harness import mt
from harness.engine import Part, check
from harness.vloop import Clock
from zigpy_cc.uart import Gateway

RULE = ("A case is a list of valid MT frames (type, subsystem, command id and 0..250 "
        "payload bytes generated) concatenated and cut into generated reads; it is "
        "non-trivial when some frame is split across reads, or one read ends one frame "
        "and begins another. Distinct: by the full choice sequence.")
ASSUMES = ["Frames carry at most 250 payload bytes (the MT limit)."]
SUBSYSTEMS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21]


class Sink:
    def __init__(self):
        self.frames = []

    def data_received(self, frame):
        self.frames.append((int(frame.command_type), int(frame.subsystem),
                            int(frame.command_id), bytes(frame.data)))

    def connection_lost(self):
        pass


def gen_frame(d, big=0.15):
    n = d.int(0, 250) if d.bool(big) else d.int(0, 12)
    return (d.int(0, 3), d.choice(SUBSYSTEMS), d.u8(), d.bytes(n, n))


def feed(frames, reads, gaps=()):
    """Feed the reads; after each, exactly the completed frames were delivered."""
    now = [5000.0]
    with Clock(lambda: now[0]):
        _feed(frames, reads, gaps, now)


def _feed(frames, reads, gaps, now):
    sink = Sink()
    gw = Gateway(sink)
    ends, pos = [], 0
    for f in frames:
        pos += len(mt.frame(*f))
        ends.append(pos)
    seen = 0
    for i, r in enumerate(reads):
        now[0] += gaps[i] if i < len(gaps) else 1e-4
        gw.data_received(r)
        seen += len(r)
        due = sum(1 for e in ends if e <= seen)
        check(sink.frames == frames[:due],
              "after %d bytes the frames handed up were %r, expected the first %d of %r",
              seen, sink.frames, due, frames)


def stream(d):
    frames = [gen_frame(d) for _ in range(d.int(1, 8))]
    if len(frames) > 1 and d.bool(0.2):
        # the coordinator repeats itself
        for _ in range(d.int(1, 3)):
            frames.insert(d.int(0, len(frames)), d.choice(frames))
        d.label("repeated frame")
    raw = b"".join(mt.frame(*f) for f in frames)
    reads = d.chunks(raw)
    gaps = [d.choice((0.0, 1e-3, 0.05, 0.5, 2.0, 60.0, 1e5)) for _ in reads[:40]] \
        if d.bool(0.3) else []
    if any(g > 1 for g in gaps):
        d.label("pauses between reads")
    for f in frames:
        d.show("frame type=%d subsystem=%d id=0x%02x payload[%d]=%s", f[0], f[1], f[2],
               len(f[3]), f[3][:24].hex())
    d.show("reads of %s bytes", [len(r) for r in reads][:30])
    if len(reads) > 1:
        d.nontrivial("frame split across reads")
    elif len(frames) > 1:
        d.nontrivial("several frames in one read")
    if any(not f[3] for f in frames):
        d.label("zero-length payload")
    if any(len(f[3]) > 200 for f in frames):
        d.label("payload over 200 bytes")
    if any(b"\xfe" in f[3] for f in frames):
        d.label("start byte inside payload")
    feed(frames, reads, gaps)


def long(d):
    """Thousands of frames through one connection."""
    n = d.choice((300, 1000, 3000))
    pool = [gen_frame(d, 0.05) for _ in range(d.int(1, 12))]
    order = random.Random(d.u16())
    frames = [order.choice(pool) for i in range(n)]
    raw = b"".join(mt.frame(*f) for f in frames)
    size = d.choice((1, 7, 64, 255, 256, 4096, len(raw)))
    d.show("%d frames, %d bytes, %d bytes a read", n, len(raw), size)
    d.nontrivial("long stream")
    sink = Sink()
    gw = Gateway(sink)
    for i in range(0, len(raw), size):
        gw.data_received(raw[i : i + size])
    check(len(sink.frames) == n, "%d of %d frames handed up", len(sink.frames), n)
    check(sink.frames == frames, "the frames handed up are not those sent")


def lengths(d, n):
    """Every payload length, between two other frames, whole / split / bytewise."""
    body = bytes([0xFE if (i + n) % 5 == 0 else (i * 7 + n) & 0xFF for i in range(n)])
    frames = [(3, 1, 2, b""), (d.int(0, 3), 5, d.u8(), body), (2, 5, 0xCB, b"\x00")]
    raw = b"".join(mt.frame(*f) for f in frames)
    d.show("payload length %d", n)
    d.nontrivial()
    feed(frames, [raw])
    feed(frames, [raw[i : i + 1] for i in range(len(raw))])
    for cut in (4, 5, 6, 9, 10, n + 8, n + 9, n + 10, n + 11):
        if 0 < cut < len(raw):
            feed(frames, [raw[:cut], raw[cut:]])


def splits(d, case):
    """A short stream of four frames, cut at every pair of positions."""
    a, b = case
    frames = [(3, 1, 1, b"\x59\x06"), (3, 7, 9, b""), (2, 5, 0xC0, b"\xfe"),
              (2, 4, 0x80, b"\x00\x01\xfe")]
    raw = b"".join(mt.frame(*f) for f in frames)
    d.show("cuts at %d and %d of %d", a, b, len(raw))
    d.nontrivial()
    feed(frames, [r for r in (raw[:a], raw[a:b], raw[b:]) if r])


N = 5 * 4 + 6
PARTS = [
    Part("every payload length", lengths, cases=list(range(0, 251))),
    Part("every pair of cuts", splits,
         cases=[[a, b] for a in range(0, N + 1) for b in range(a, N + 1)]),
    Part("long streams", long, quick=25, thorough=600),
    Part("random streams", stream, quick=6000, thorough=150000),
]
