"""C04: every outgoing command has exactly the bytes the MT protocol defines."""
import asyncio

import zigpy.types as zt
from harness import mt, stack
from harness.engine import Part, Violation, check
from zigpy_cc.types import Subsystem
from zigpy_cc.zpi_object import ZpiObject

RULE = ("A case is one command of the 235-entry reference table with generated parameter "
        "values (boundaries, lists and buffers of generated size); non-trivial when it has "
        "at least one parameter. Distinct: by the full choice sequence.")
ASSUMES = ["harness/mt_spec.txt is the reference command table; for commands the library "
           "itself uses it was checked against TI's MT API document, for the rest it "
           "freezes the pinned tree's table."]
SENDABLE = [c for c in mt.COMMANDS if c.type in (mt.SREQ, mt.AREQ)]
# indications are only ever received; SREQ and host AREQ commands are sent
HOST = [c for c in SENDABLE if not (c.type == mt.AREQ and c.id >= 0x80
                                    and c.name != "syncReq")]
UNSENDABLE_TYPES = mt.UNSUPPORTED


def as_arg(d, typ, v):
    """The forms callers pass a value in."""
    if typ == "IEEEADDR":
        k = d.weighted(3, 1)
        return zt.EUI64(v) if k == 0 else int.from_bytes(v, "little")
    if typ in ("BUFFER",) and d.bool(0.2):
        return bytearray(v)
    return v


def gen(d, c, room=250):
    values = {}
    left = room - sum(mt.FIXED.get(t, 0) for _, t in c.request)
    for i, (name, typ) in enumerate(c.request):
        if typ in mt.ITEM:
            n = d.int(0, max(left, 0) // mt.ITEM[typ]) if d.bool(0.2) else \
                d.int(0, min(16, max(left, 0) // mt.ITEM[typ]))
            left -= n * mt.ITEM[typ]
            values[name] = mt.gen_value(d, typ, n)
            prev = c.request[i - 1] if i else None
            if prev and prev[1] in mt.INTS:
                values[prev[0]] = n
        else:
            values[name] = mt.gen_value(d, typ)
    return values


def expected(c, values):
    return mt.frame(c.type, c.ss, c.id, mt.encode(c.request, values))


def encode(c, payload, as_enum):
    obj = ZpiObject.from_command(Subsystem(c.ss) if as_enum else c.ss, c.name, payload)
    return bytes(obj.to_unpi_frame().to_buffer())


def one(d, c, values):
    payload = {n: as_arg(d, t, values[n]) for n, t in c.request}
    d.show("%s %s", c, {k: v for k, v in mt.norm(values).items()})
    if c.request:
        d.nontrivial()
    want, got = expected(c, values), encode(c, payload, d.bool(0.3))
    check(got == want, "%s encoded as %s, MT defines %s (%r)", c, got.hex(), want.hex(),
          values)


def random_values(d):
    c = d.choice(HOST)
    d.label("subsystem " + c.ss_name)
    one(d, c, gen(d, c))


def extremes(d, case):
    """Every command with all-zero, all-maximal, and one-hot parameter values."""
    ss, name, mode = case
    c = mt.cmd(ss, name)
    values = {}
    for i, (n, typ) in enumerate(c.request):
        size = mt.FIXED.get(typ)
        hot = mode == "max" or mode == "hot%d" % i
        if typ in mt.INTS:
            values[n] = (1 << 8 * size) - 1 if hot else 0
        elif typ == "INT8":
            values[n] = -1 if hot else 0
        elif size:
            values[n] = (b"\xff" if hot else b"\x00") * size
        elif typ == "LIST_UINT16":
            values[n] = [0xFFFF, 1, 0x0100] if hot else []
        elif typ == "LIST_UINT8":
            values[n] = [255, 1, 0] if hot else []
        else:
            values[n] = b"\xff\x00\xfe" if hot else b""
    one(d, c, values)


def out_of_range(d):
    """One parameter does not fit: refused, and nothing reaches the port."""
    c = d.choice([c for c in HOST if any(t in mt.INTS for _, t in c.request)])
    values = gen(d, c)
    name, typ = d.choice([p for p in c.request if p[1] in mt.INTS])
    top = 1 << 8 * mt.FIXED[typ]
    values[name] = (top, top + 1, -1, top * 256, top + d.int(0, 1 << 40),
                    -d.int(1, top))[d.int(0, 5)]
    d.show("%s %s=%d", c, name, values[name])
    d.nontrivial(typ)
    through_port(d, c, values, refuse=True)


def misfits(c):
    return [(i, n, t) for i, (n, t) in enumerate(c.request)
            if t in mt.ITEM and t.startswith("LIST_UINT") or t in ("INT8", "IEEEADDR")
            or t.startswith("BUFFER") and t in mt.FIXED]


def misfit(d):
    """One buffer, address, list item or signed value does not fit: refused as well."""
    c = d.choice([c for c in HOST if misfits(c)])
    values = gen(d, c)
    i, name, typ = d.choice(misfits(c))
    if typ in mt.ITEM:
        top = 1 << 8 * mt.ITEM[typ]
        items = values[name] = list(values[name])[:8] or [0]
        items[d.int(0, len(items) - 1)] = d.choice((top, -1, top + d.int(0, 1 << 20)))
        if i and c.request[i - 1][1] in mt.INTS:
            values[c.request[i - 1][0]] = len(items)
    elif typ == "INT8":
        values[name] = d.choice((128, -129, 255, d.int(128, 1 << 20), -d.int(129, 1 << 20)))
    elif typ == "IEEEADDR" and d.bool():
        values[name] = d.choice((1 << 64, -1, (1 << 64) + d.int(0, 1 << 70)))
    else:
        size = mt.FIXED[typ]
        values[name] = bytes(d.choice([n for n in range(0, size + 4) if n != size]))
    d.show("%s %s=%r", c, name, values[name])
    d.nontrivial(typ)
    through_port(d, c, values, refuse=True, raw=name)


def through_port(d, c, values, refuse=False, raw=None):
    payload = {n: values[n] if n == raw else as_arg(d, t, values[n]) for n, t in c.request}

    async def main(loop, world):
        api = await stack.new_api()
        before = len(world.port.bytes_out)
        world.ncp.hook = lambda req: [world.ncp.status(req)] \
            if req.typ == mt.SREQ and req.cmd else "drop"
        task = asyncio.ensure_future(api.request(c.ss, c.name, payload))
        await asyncio.sleep(0.5)
        out = world.port.bytes_out[before:]
        if refuse:
            check(task.done() and task.exception() is not None,
                  "%s with an out-of-range %r was accepted", c, values)
            check(out == b"", "refused command still wrote %s", out.hex())
        else:
            check(out == expected(c, values), "%s wrote %s to the port, MT defines %s",
                  c, out.hex(), expected(c, values).hex())
        task.cancel()
        api.close()

    stack.scenario(main)


def port_bytes(d):
    c = d.choice(HOST)
    values = gen(d, c)
    d.show("%s %s", c, mt.norm(values))
    d.nontrivial()
    through_port(d, c, values)


def too_long(d):
    """A payload that cannot be announced in one length byte is refused."""
    c = mt.cmd(*d.choice([("UTIL", "testLoopback"), ("AF", "dataStore"),
                          ("SYS", "osalNvWriteExt"), ("MAC", "setReq")]))
    values = gen(d, c)
    name = [n for n, t in c.request if t == "BUFFER"][-1]
    values[name] = b"\x5a" * d.int(256, 600)
    d.show("%s with a %d byte buffer", c, len(values[name]))
    d.nontrivial()
    through_port(d, c, values, refuse=True)


PARTS = [
    Part("every command, extreme values", extremes, cases=[
        [c.ss_name, c.name, m] for c in HOST
        for m in ["min", "max"] + ["hot%d" % i for i in range(len(c.request))]]),
    Part("random values", random_values, quick=12000, thorough=400000),
    Part("bytes on the port", port_bytes, quick=1200, thorough=20000),
    Part("out of range values", out_of_range, quick=1200, thorough=20000),
    Part("misfitting buffers, lists and addresses", misfit, quick=1000, thorough=20000),
    Part("oversized payload", too_long, quick=60, thorough=1000),
]
