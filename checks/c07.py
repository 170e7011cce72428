"""C07: decoding and re-encoding a message reproduces its bytes."""
from harness import mt
from harness.engine import Part, check
from zigpy_cc.uart import UnpiFrame
from zigpy_cc.zpi_object import ZpiObject

from .c05 import ALL, INBOUND, strip

RULE = ("A case is one message with generated field values, decoded and encoded again by "
        "the library (round trip); non-trivial when the payload is not empty. Distinct: "
        "by the full choice sequence.")
ASSUMES = ["As C05 for the layouts in scope."]


def trip(d, c, typ, values):
    params = mt.layout(c, typ)
    data = mt.encode(params, values)
    clean = mt.encode(params, strip(values))
    obj = ZpiObject.from_unpi_frame(UnpiFrame(typ, c.ss, c.id, data))
    frame = obj.to_unpi_frame()
    d.show("%s type %d payload %s", c, typ, data[:60].hex())
    if data:
        d.nontrivial()
    check(bytes(frame.data) == clean, "%s type %d: received %s, re-encoded %s", c, typ,
          data.hex(), bytes(frame.data).hex())
    raw = bytes(frame.to_buffer())
    check(raw == mt.frame(typ, c.ss, c.id, clean), "%s type %d: re-framed as %s", c, typ,
          raw.hex())


def random_values(d):
    c, typ = d.choice(INBOUND if d.bool(0.9) else ALL)
    trip(d, c, typ, mt.gen_payload(d, mt.layout(c, typ), reserved=d.bool(0.5)))


def lqi(d):
    c = mt.cmd("ZDO", "mgmtLqiRsp")
    d.label("neighbour table")
    trip(d, c, mt.AREQ, mt.gen_payload(d, c.request, reserved=True))


def neighbour_bits(d, case):
    """Every value of the two packed bytes of a neighbour table entry."""
    which, byte = case
    c = mt.cmd("ZDO", "mgmtLqiRsp")
    n = mt.gen_neighbor(d)
    if which == 0:
        n.update(deviceType=byte & 3, rxOnWhenIdle=byte >> 2 & 3,
                 relationship=byte >> 4 & 7, reserved1=byte >> 7)
    else:
        n.update(permitJoin=byte & 3, reserved2=byte >> 2)
    trip(d, c, mt.AREQ, {"srcaddr": 1, "status": 0, "neighbortableentries": 1,
                         "startindex": 0, "neighborlqilistcount": 1,
                         "neighborlqilist": [n]})


def each(d, case):
    ss, name, typ, k = case
    c = mt.cmd(ss, name)
    trip(d, c, typ, mt.gen_payload(d, mt.layout(c, typ)))


PARTS = [
    Part("every message", each, cases=[
        [c.ss_name, c.name, t, k] for c, t in ALL for k in range(3)]),
    Part("neighbour table bits", neighbour_bits,
         cases=[[w, b] for w in (0, 1) for b in range(256)]),
    Part("random values", random_values, quick=12000, thorough=400000),
    Part("neighbour tables", lqi, quick=1500, thorough=40000),
]
