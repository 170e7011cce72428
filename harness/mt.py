"""Independent reference codec for the TI MT serial protocol (no zigpy_cc code).

Frame:  0xFE | LEN | CMD0 = type<<5 | subsystem | CMD1 | payload[LEN] | FCS
FCS is the XOR of everything between SOF and FCS.  Integers are little-endian.
"""
import os

POLL, SREQ, AREQ, SRSP = 0, 1, 2, 3
SYS, MAC, NWK, AF, ZDO, SAPI, UTIL, DEBUG, APP = range(1, 10)
APP_CNF, GREENPOWER = 15, 21

TYPES = {"POLL": POLL, "SREQ": SREQ, "AREQ": AREQ, "SRSP": SRSP}


class Cmd:
    __slots__ = ("ss_name", "ss", "name", "id", "type", "request", "response")

    def __repr__(self):
        return "%s.%s" % (self.ss_name, self.name)


def _params(text):
    if text == "-":
        return None
    text = text[1:-1]
    if not text:
        return []
    return [tuple(p.split(":")) for p in text.split(",")]


def _load():
    by_name, by_id, out = {}, {}, []
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mt_spec.txt")
    with open(path) as f:
        for line in f:
            if line.startswith("#"):
                continue
            ss_name, ss, name, cid, typ, req, rsp = line.split()
            c = Cmd()
            c.ss_name, c.ss, c.name, c.id = ss_name, int(ss), name, int(cid, 16)
            c.type, c.request, c.response = TYPES[typ], _params(req), _params(rsp)
            by_name[ss_name, name] = c
            by_id[c.ss, c.id] = c
            out.append(c)
    return by_name, by_id, out


BY_NAME, BY_ID, COMMANDS = _load()
SUBSYSTEMS = sorted({c.ss for c in COMMANDS})

FIXED = {"UINT8": 1, "UINT16": 2, "UINT32": 4, "IEEEADDR": 8, "INT8": 1,
         "BUFFER8": 8, "BUFFER16": 16, "BUFFER18": 18, "BUFFER32": 32,
         "BUFFER42": 42, "BUFFER100": 100}
UNSUPPORTED = {"LIST_ASSOC_DEV", "LIST_ROUTING_TABLE", "LIST_BIND_TABLE",
               "LIST_NETWORK"}
ITEM = {"BUFFER": 1, "LIST_UINT8": 1, "LIST_UINT16": 2, "LIST_NEIGHBOR_LQI": 22}
INTS = {"UINT8", "UINT16", "UINT32"}


def cmd(ss_name, name):
    return BY_NAME[ss_name, name]


def frame(typ, ss, cid, payload=b""):
    body = bytes([len(payload), typ << 5 | ss, cid]) + bytes(payload)
    fcs = 0
    for b in body:
        fcs ^= b
    return b"\xfe" + body + bytes([fcs])


def layout(c, typ):
    """The parameter list that a frame of this type carries, or None."""
    return c.response if typ == SRSP else c.request


def encode_value(typ, v):
    if typ in INTS or typ == "INT8":
        return int(v).to_bytes(FIXED[typ], "little", signed=typ == "INT8")
    if typ == "IEEEADDR" or typ.startswith("BUFFER"):
        return bytes(v)
    if typ == "LIST_UINT8":
        return b"".join(int(x).to_bytes(1, "little") for x in v)
    if typ == "LIST_UINT16":
        return b"".join(int(x).to_bytes(2, "little") for x in v)
    if typ == "LIST_NEIGHBOR_LQI":
        return b"".join(encode_neighbor(x) for x in v)
    raise ValueError(typ)


def encode_neighbor(n):
    return (
        n["extPanId"] + n["extAddr"] + n["nwkAddr"].to_bytes(2, "little")
        + bytes([n["deviceType"] | n["rxOnWhenIdle"] << 2 | n["relationship"] << 4
                 | n.get("reserved1", 0) << 7,
                 n["permitJoin"] | n.get("reserved2", 0) << 2, n["depth"], n["lqi"]])
    )


def encode(params, values):
    return b"".join(encode_value(t, values[n]) for n, t in params)


def build(ss_name, name, typ=None, **values):
    """A complete frame, from the reference table."""
    c = BY_NAME[ss_name, name]
    typ = c.type if typ is None else typ
    return frame(typ, c.ss, c.id, encode(layout(c, typ), values))


class Short(Exception):
    pass


def decode(params, data):
    """Reference decoder: name -> value; raises Short when the payload ends early."""
    pos, out, last = 0, {}, None

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise Short()
        r = data[pos : pos + n]
        pos += n
        return r

    for name, typ in params:
        if typ in INTS:
            v = int.from_bytes(take(FIXED[typ]), "little")
        elif typ == "INT8":
            v = int.from_bytes(take(1), "little", signed=True)
        elif typ in FIXED:
            v = take(FIXED[typ])
        elif typ == "BUFFER":
            v = take(last)
        elif typ == "LIST_UINT8":
            v = list(take(last))
        elif typ == "LIST_UINT16":
            v = [int.from_bytes(take(2), "little") for _ in range(last)]
        elif typ == "LIST_NEIGHBOR_LQI":
            v = []
            for _ in range(last):
                r = take(22)
                v.append({
                    "extPanId": r[0:8], "extAddr": r[8:16],
                    "nwkAddr": int.from_bytes(r[16:18], "little"),
                    "deviceType": r[18] & 3, "rxOnWhenIdle": r[18] >> 2 & 3,
                    "relationship": r[18] >> 4 & 7, "permitJoin": r[19] & 3,
                    "depth": r[20], "lqi": r[21]})
        else:
            raise ValueError(typ)
        out[name] = v
        last = v
    return out


def decodable(params):
    """True when every field's length is defined by what precedes it."""
    if params is None:
        return False
    prev = None
    for name, typ in params:
        if typ in UNSUPPORTED:
            return False
        if typ in ITEM:
            if prev is None or prev[1] not in INTS:
                return False
            n = prev[0].lower()
            if not (n.endswith(("len", "length", "count", "maxlength"))
                    or n.startswith(("num", "len", "appnum"))
                    or n in ("groups", "relaycount", "payloadlen", "msglen")):
                return False
        prev = (name, typ)
    return True


class Stream:
    """Reference deframer for the bytes the host writes."""

    def __init__(self, on_frame, on_other):
        self.buf = b""
        self.on_frame = on_frame
        self.on_other = on_other

    def feed(self, data):
        self.buf += bytes(data)
        while self.buf:
            if self.buf[0] != 0xFE:
                self.on_other(self.buf[0])
                self.buf = self.buf[1:]
                continue
            if len(self.buf) < 5 or len(self.buf) < self.buf[1] + 5:
                return
            n = self.buf[1] + 5
            raw, self.buf = self.buf[:n], self.buf[n:]
            fcs = 0
            for b in raw[1:-1]:
                fcs ^= b
            self.on_frame(raw, fcs == raw[-1])


def norm(v):
    """Plain ints / bytes / lists, whatever wrapper types carry them."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if hasattr(v, "serialize"):
        return v.serialize()
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def gen_value(d, typ, length=None):
    """A value of a parameter type, in plain form."""
    if typ in INTS:
        return d.int(0, (1 << 8 * FIXED[typ]) - 1)
    if typ == "INT8":
        return d.int(0, 255) - 128
    if typ == "IEEEADDR":
        return d.eui()
    if typ in FIXED:
        return d.bytes(FIXED[typ], FIXED[typ])
    if typ == "BUFFER":
        return d.bytes(length, length)
    if typ == "LIST_UINT8":
        return [d.u8() for _ in range(length)]
    if typ == "LIST_UINT16":
        return [d.u16() for _ in range(length)]
    if typ == "LIST_NEIGHBOR_LQI":
        return [gen_neighbor(d) for _ in range(length)]
    raise ValueError(typ)


def gen_neighbor(d, reserved=False):
    n = {"extPanId": d.eui(), "extAddr": d.eui(), "nwkAddr": d.u16(),
         "deviceType": d.int(0, 3), "rxOnWhenIdle": d.int(0, 3),
         "relationship": d.int(0, 7), "permitJoin": d.int(0, 3),
         "depth": d.u8(), "lqi": d.u8()}
    if reserved:
        n["reserved1"] = d.int(0, 1)
        n["reserved2"] = d.int(0, 63)
    return n


ADDR_MODES = (0, 1, 2, 3, 15)


def gen_payload(d, params, max_payload=250, reserved=False):
    """Values for a decodable parameter list; counts agree with what follows."""
    values = {}
    fixed = sum(FIXED.get(t, 0) for _, t in params)
    room = max_payload - fixed
    for i, (name, typ) in enumerate(params):
        nxt = params[i + 1] if i + 1 < len(params) else None
        if typ in INTS and nxt and nxt[1] in ITEM:
            size = ITEM[nxt[1]]
            hi = min(max(room, 0) // size, (1 << 8 * FIXED[typ]) - 1)
            n = d.int(0, hi) if d.bool(0.3) else d.int(0, min(hi, 12))
            room -= n * size
            values[name] = n
        elif name.endswith("addrmode") and typ == "UINT8":
            values[name] = d.choice(ADDR_MODES)
        elif typ in ITEM:
            n = values[params[i - 1][0]]
            if typ == "LIST_NEIGHBOR_LQI":
                values[name] = [gen_neighbor(d, reserved) for _ in range(n)]
            else:
                values[name] = gen_value(d, typ, n)
        else:
            values[name] = gen_value(d, typ)
    return values
