"""Generators shared by the checks that talk to the API over the simulated port."""
from harness import mt

# commands the host can issue synchronously, with a self-describing answer
SREQS = [c for c in mt.COMMANDS if c.type == mt.SREQ and c.response is not None
         and mt.decodable(c.response)
         and not any(t in mt.UNSUPPORTED for _, t in c.request)]
AREQS = [c for c in mt.COMMANDS if c.type == mt.AREQ and mt.decodable(c.request)]
RESETS = (("SYS", "resetReq"), ("SAPI", "systemReset"))


def gen_args(d, c, longest=16):
    """In-range arguments for a request; counts agree with what follows."""
    values = {}
    left = 250 - sum(mt.FIXED.get(t, 0) for _, t in c.request)
    for i, (name, typ) in enumerate(c.request):
        if typ in mt.ITEM:
            n = d.int(0, min(longest, max(left, 0) // mt.ITEM[typ]))
            left -= n * mt.ITEM[typ]
            values[name] = mt.gen_value(d, typ, n)
            if i and c.request[i - 1][1] in mt.INTS:
                values[c.request[i - 1][0]] = n
        else:
            values[name] = mt.gen_value(d, typ)
    return values


def gen_answer(d, c, status=None, longest=60):
    values = mt.gen_payload(d, c.response, max_payload=longest)
    if status is not None and "status" in values:
        values["status"] = status
    return values


def srsp(c, values):
    return mt.frame(mt.SRSP, c.ss, c.id, mt.encode(c.response, values))


def areq(c, values):
    return mt.frame(mt.AREQ, c.ss, c.id, mt.encode(c.request, values))


def gen_areq(d, avoid=(), longest=60):
    """An indication: (command, values, frame)."""
    c = d.choice(AREQS)
    while (c.ss_name, c.name) in avoid:
        c = AREQS[(AREQS.index(c) + 1) % len(AREQS)]
    values = mt.gen_payload(d, c.request, max_payload=longest)
    return c, values, areq(c, values)


def gen_foreign_srsp(d, avoid):
    """A synchronous response to some other command than those in `avoid`."""
    c = d.choice(SREQS)
    while c in avoid:
        c = SREQS[(SREQS.index(c) + 1) % len(SREQS)]
    values = gen_answer(d, c)
    return c, values, srsp(c, values)


def gen_crossed(d, c):
    """A message of command `c` under a type the coordinator never gives it."""
    if c.type == mt.AREQ:
        typ, layout = d.choice((mt.SRSP, mt.SREQ, 0)), c.request
    else:
        typ, layout = d.choice((mt.AREQ, mt.AREQ, mt.SREQ, 0)), c.request
        if c.response is not None and d.bool(0.3):
            layout = c.response
    if not mt.decodable(layout):
        layout = ()
    return mt.frame(typ, c.ss, c.id, mt.encode(
        layout, mt.gen_payload(d, layout, max_payload=60)))


def gen_status(d):
    return d.choice((0, 0, 0, 1, 2, 9, 0xB8, 0xE9, 0xCD, 255)) if d.bool(0.7) else d.u8()


def gen_confirms(d):
    """What the coordinator learns of the data it transmits, in turn; None: nothing."""
    if d.bool(0.4):
        return None
    return [(d.choice((0.0005, 0.02, 0.3, 7.0)), d.choice(
        (0, 0, 0xE9, 0xCD, 0xF0, 0xA7, 0xD0, d.u8()))) for _ in range(d.int(1, 6))]
