"""C02: corrupted frames are never acted on; noise between frames is harmless."""
from harness import mt
from harness.engine import Part, check
from zigpy_cc.uart import Gateway

from .c01 import Sink, gen_frame

RULE = ("A case is a stream of valid frames, frames with altered bytes (command, payload "
        "or checksum, so that the XOR check fails) and runs of non-start noise bytes, cut "
        "into generated reads; non-trivial when it contains a corrupted frame or noise "
        "followed by a valid frame. Distinct: by the full choice sequence.")
ASSUMES = ["A corrupted length byte or start byte is outside the property: the protocol "
           "has no way to find the next frame boundary then."]


def corrupt(d, raw):
    """Alter bytes after the length byte; the checksum must no longer match."""
    out = bytearray(raw)
    where = [d.int(2, len(raw) - 1) for _ in range(d.int(1, 3))]
    for i in where:
        out[i] ^= d.int(1, 255)
    fcs = 0
    for b in out[1:]:
        fcs ^= b
    if fcs == 0:  # the alterations cancelled out
        out[-1] ^= d.int(1, 255)
    return bytes(out)


def run(items, reads_of, d):
    sink = Sink()
    gw = Gateway(sink)
    raw, expected = b"", []
    for kind, data, f in items:
        raw += data
        if kind == "good":
            expected.append((len(raw), f))
    seen = 0
    for r in reads_of(raw):
        gw.data_received(r)
        seen += len(r)
        due = [f for e, f in expected if e <= seen]
        check(sink.frames == due, "after %d bytes %r were handed up, expected %r",
              seen, sink.frames, due)


def streams(d):
    items = []
    for _ in range(d.int(1, 8)):
        kind = ("good", "bad", "noise")[d.weighted(4, 3, 3)]
        if kind == "noise":
            n = d.int(1, 12)
            data = bytes([b if b != 0xFE else 0xEF
                          for b in d.bytes(n, n)])
            items.append((kind, data, None))
        else:
            f = gen_frame(d)
            raw = mt.frame(*f)
            items.append((kind, raw if kind == "good" else corrupt(d, raw), f))
    kinds = [k for k, _, _ in items]
    for k, data, _ in items:
        d.show("%s %s", k, data[:30].hex())
    for i, k in enumerate(kinds):
        if k == "bad" and "good" in kinds[i + 1:]:
            d.nontrivial("corrupted frame before a valid one")
        if k == "noise" and "good" in kinds[i + 1:]:
            d.nontrivial("noise before a valid frame")
        if k == "noise" and i and kinds[i - 1] == "bad":
            d.label("noise right after a corrupted frame")
    run(items, d.chunks, d)


FRAMES = [(3, 1, 2, b"\x02\x00\x02\x06\x03\x90\x154\x01\x02\x01\x00\x00\x00"),
          (2, 5, 0xC0, b"\x09"), (1, 1, 1, b"")]


def every_bit(d, case):
    """Every single-bit and every single-byte-value fault of three frames."""
    which, pos, mask = case
    f = FRAMES[which]
    raw = bytearray(mt.frame(*f))
    raw[pos] ^= mask
    follow = (2, 5, 0xCB, b"\x3c")
    d.show("frame %s byte %d xor 0x%02x", mt.frame(*f).hex(), pos, mask)
    d.nontrivial()
    items = [("bad", bytes(raw), f), ("good", mt.frame(*follow), follow)]
    run(items, lambda r: [r], d)
    run(items, lambda r: [r[: len(raw)], r[len(raw):]], d)


def every_noise(d, b):
    """Every noise byte value, alone and repeated, before and between frames."""
    d.show("noise byte 0x%02x", b)
    d.nontrivial()
    f = FRAMES[0]
    for n in (1, 2, 7):
        items = [("noise", bytes([b]) * n, None), ("good", mt.frame(*f), f),
                 ("noise", bytes([b]) * n, None), ("good", mt.frame(*FRAMES[2]), FRAMES[2])]
        run(items, lambda r: [r], d)
        run(items, lambda r: [r[i : i + 1] for i in range(len(r))], d)


PARTS = [
    Part("every byte fault", every_bit, cases=[
        [w, p, m] for w, f in enumerate(FRAMES) for p in range(2, len(f[3]) + 5)
        for m in range(1, 256)]),
    Part("every noise byte", every_noise, cases=[b for b in range(256) if b != 0xFE]),
    Part("random streams", streams, quick=8000, thorough=200000),
]
