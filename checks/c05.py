"""C05: every incoming message decodes to exactly the values on the wire."""
from harness import mt, stack
from harness.engine import Part, check
from zigpy_cc.uart import UnpiFrame
from zigpy_cc.zpi_object import ZpiObject

RULE = ("A case is one response or indication of the reference table with generated field "
        "values, encoded by the reference codec; non-trivial when it has at least one "
        "field. Distinct: by the full choice sequence.")
ASSUMES = ["Layouts whose variable-length field has no preceding length (MT testLoopback "
           "response, msgCbIncoming) and the four list types the library does not support "
           "are outside the property.",
           "Address-mode fields carry defined values (0,1,2,3,15)."]


def receivable():
    out = []
    for c in mt.COMMANDS:
        for typ in (mt.AREQ, mt.SRSP, mt.SREQ, mt.POLL):
            if typ == mt.SRSP:
                ok = c.response is not None and mt.decodable(c.response)
            elif typ == mt.AREQ:
                ok = c.type == mt.AREQ and mt.decodable(c.request)
            else:
                ok = c.type == mt.SREQ and mt.decodable(c.request)
            if ok:
                out.append((c, typ))
    return out


ALL = receivable()
INBOUND = [(c, t) for c, t in ALL if t in (mt.AREQ, mt.SRSP)]


def strip(v):
    """Drop reserved bits, which carry no field."""
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if not k.startswith("reserved")}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def compare(c, typ, data, values, obj):
    got = mt.norm(obj.payload)
    want = mt.norm(strip(values))
    check(obj.command == c.name and int(obj.subsystem) == c.ss
          and int(obj.command_type) == typ,
          "%s type %d decoded as %r %r %r", c, typ, obj.command_type, obj.subsystem,
          obj.command)
    if got != want:
        bad = {k: (got.get(k), want.get(k)) for k in set(got) | set(want)
               if got.get(k) != want.get(k)}
        check(False, "%s type %d payload %s: decoded/transmitted differ: %r", c, typ,
              data.hex(), bad)


def decode(c, typ, values):
    data = mt.encode(mt.layout(c, typ), values)
    obj = ZpiObject.from_unpi_frame(UnpiFrame(typ, c.ss, c.id, data))
    compare(c, typ, data, values, obj)


def random_values(d):
    c, typ = d.choice(INBOUND if d.bool(0.9) else ALL)
    params = mt.layout(c, typ)
    values = mt.gen_payload(d, params, reserved=True)
    d.show("%s type=%d %r", c, typ, values)
    if params:
        d.nontrivial(("POLL", "SREQ", "AREQ", "SRSP")[typ])
    for n, t in params:
        if t in mt.ITEM:
            d.label("with %s" % t)
            if len(values[n]) == 0:
                d.label("empty list or buffer")
            if len(values[n]) * mt.ITEM[t] > 150:
                d.label("long list or buffer")
    decode(c, typ, values)


def extremes(d, case):
    ss, name, typ, mode = case
    c = mt.cmd(ss, name)
    params = mt.layout(c, typ)
    values = {}
    for i, (n, t) in enumerate(params):
        nxt = params[i + 1][1] if i + 1 < len(params) else None
        hot = mode == "max" or mode == "hot%d" % i
        if nxt in mt.ITEM and t in mt.INTS:
            values[n] = 3 if mode != "min" else 0
        elif n.endswith("addrmode"):
            values[n] = 15 if hot else 0
        elif t in mt.INTS:
            values[n] = (1 << 8 * mt.FIXED[t]) - 1 if hot else 0
        elif t == "INT8":
            values[n] = -1 if hot else 0
        elif t in mt.FIXED:
            values[n] = bytes(range(1, mt.FIXED[t] + 1)) if hot else b"\x00" * mt.FIXED[t]
        else:
            k = values[params[i - 1][0]]
            if t == "BUFFER":
                values[n] = bytes([0xFE, 0x00, 0xA5][:k])
            elif t == "LIST_UINT8":
                values[n] = [255, 0, 1][:k]
            elif t == "LIST_UINT16":
                values[n] = [0xFFFF, 0x0100, 0x0001][:k]
            else:
                values[n] = [mt.gen_neighbor(d, True) for _ in range(k)]
    d.show("%s type %d %s", c, typ, mode)
    if params:
        d.nontrivial()
    decode(c, typ, values)


def via_request(d):
    """The same through the port: a request returns exactly what was transmitted."""
    c, _ = d.choice([x for x in INBOUND if x[1] == mt.SRSP and x[0].type == mt.SREQ])
    values = mt.gen_payload(d, c.response, reserved=True)
    if any(n == "status" for n, _ in c.response):
        values["status"] = 0
    args = {}
    for n, t in c.request:
        args[n] = b"" if t == "BUFFER" else [] if t in mt.ITEM else \
            mt.gen_value(d, t)
    raw = mt.frame(mt.SRSP, c.ss, c.id, mt.encode(c.response, values))
    d.show("%s answered %r", c, values)
    d.nontrivial()

    async def main(loop, world):
        api = await stack.new_api()
        world.ncp.hook = lambda req: [(0.01, raw)] if req.cmd is c else "drop"
        world.ncp.splitter = d.chunks
        obj = await api.request(c.ss, c.name, args)
        compare(c, mt.SRSP, raw[4:-1], values, obj)
        api.close()

    stack.scenario(main)


PARTS = [
    Part("every message, extreme values", extremes, cases=[
        [c.ss_name, c.name, t, m] for c, t in INBOUND
        for m in ["min", "max"] + ["hot%d" % i for i in range(len(mt.layout(c, t)))]]),
    Part("random values", random_values, quick=15000, thorough=500000),
    Part("responses through the port", via_request, quick=1000, thorough=20000),
]
