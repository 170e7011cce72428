"""C46: a message whose handling fails harms nothing but itself."""
import asyncio

import zigpy.exceptions
from harness.engine import Part, check

from . import common
from .c35 import gen_life, run
from .c38 import gen_noise

TECHNIQUE = ("metamorphic property-based testing: the same history with handlers that work "
             "and with handlers that raise")
RULE = ("A case is the history of an application (as in C35: startup, requests of all kinds, "
        "some of them repeated, replies, messages, announcements, silent adapters, loss of "
        "the port, shutdown), several frames sharing a read, played once with handlers that "
        "accept every message and once with handlers that raise on some of them, chosen by "
        "number, cluster or transaction, or on every one, and on joins; bytes written, "
        "messages handed over and results, with their times, must be the same and nothing "
        "may escape; non-trivial when a handler raised. Distinct: by the full choice "
        "sequence.")
ASSUMES = ["An announcement whose join handler raises need not be handed over itself."]
ERRORS = (KeyError, ValueError, AttributeError, TypeError, IndexError, AssertionError,
          OSError, RuntimeError, asyncio.TimeoutError, zigpy.exceptions.DeliveryError,
          NotImplementedError, StopIteration, UnicodeError, Exception)
ANNOUNCE = 0x0013


def gen_upset(d, raised):
    k = d.weighted(3, 3, 2, 2)
    n = d.int(1, 4)
    first = d.int(0, 3)
    error = d.choice(ERRORS)
    count = [0]

    def upset(msg):
        count[0] += 1
        if k == 0:
            hit = True
        elif k == 1:
            hit = (count[0] + first) % n == 0
        elif k == 2:  # handlers of ZDO replies alone, or of all the others
            hit = (msg.cluster >= 0x8000) == (n > 2)
        else:
            hit = msg.data[:1] == bytes([(0, 1, 7, 255)[first]])
        if hit:
            raised.append(msg.cluster)
            raise error("the handler says no")

    d.show("%s on %s", error.__name__,
           ("every message", "one message in %d" % n,
            "ZDO replies" if n > 2 else "all but ZDO replies", "one transaction")[k])
    return upset


def same(d):
    life = gen_life(d, 0)
    steps, out = life["steps"], []
    for i, (t, s) in enumerate(steps):
        out.append((t, s))
        if s[0] == "zdo" and d.bool(0.6):
            for _ in range(d.int(1, 2)):
                tsn = (s[4] + d.int(0, 2)) & 0xFF
                out.append((d.choice((0.0, 0.001, 0.02)), s[:4] + (tsn,)))
                d.show("repeated: %d", tsn)
        elif s[0] == "send" and d.bool(0.5):
            raws = [s[2]]
            for _ in range(d.int(1, 3)):
                others = [x[2] for _, x in steps if x[0] == "send"]
                raws.insert(d.int(0, len(raws)),
                            d.choice(others) if d.bool(0.6) else gen_noise(d))
            out[-1] = (t, ("send", "several", b"".join(raws)))
            d.show("%d frames in one read", len(raws))
    life["steps"] = out
    raised = []
    upset = gen_upset(d, raised)
    joins = d.bool(0.3)
    error = d.choice(ERRORS)

    def upset_join(nwk):
        raised.append("join")
        raise error("the join handler says no")

    errors = [], []
    fine = run({0: life}, errors[0])[0]
    hurt = run({0: dict(life, **{"upset": upset, "upset join": upset_join if joins
                                 else None})}, errors[1])[0]
    for x in raised[:6]:
        d.label("join" if x == "join" else "ZDO reply" if x >= 0x8000 else "message")
    if raised:
        d.nontrivial()

    def rows(trace):
        return [(r[0], [m for m in r[1] if m[2] != ANNOUNCE]) if r[0] == "received" and joins
                else r for r in trace]

    for a, b in zip(rows(fine), rows(hurt)):
        check(a == b, "with handlers that work %r, with raising ones %r", a, b)
    check(len(fine) == len(hurt), "with handlers that work %r, with raising ones %r", fine,
          hurt)
    check(len(errors[0]) >= len(errors[1]), "errors escaped into the event loop: %r",
          errors[1])


PARTS = [Part("histories", same, quick=300, thorough=15000)]
