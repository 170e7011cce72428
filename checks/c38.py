"""C38: logging at any level changes nothing and never fails."""
import contextlib
import logging

from harness import mt
from harness.engine import Part, check

from . import common
from .c03 import bad_frame
from .c35 import gen_life, run

TECHNIQUE = "metamorphic property-based testing: the same history with and without logging"
RULE = ("A case is the history of an application (as in C35: startup, requests of all kinds, "
        "replies, messages, silent adapters, loss of the port, shutdown) with damaged and "
        "uninterpretable frames, noise and unsolicited frames of every kind added, played "
        "without logging and at a generated level with every record formatted; bytes "
        "written, messages and results, with their times, must be the same and every record "
        "must be formattable; non-trivial when records were logged. Distinct: by the full "
        "choice sequence.")
ASSUMES = ["What the records say is not looked at."]
LEVELS = (logging.DEBUG, logging.DEBUG, logging.DEBUG, logging.INFO, logging.WARNING,
          logging.ERROR)


class Formatting(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records, self.failed = 0, []
        self.formatter = logging.Formatter("%(asctime)s %(name)s %(message)s")

    def handle(self, record):
        self.records += 1
        try:
            self.formatter.format(record)
        except Exception as e:
            self.failed.append("%s:%d %r %r" % (record.filename, record.lineno,
                                                record.msg, e))
        return record


@contextlib.contextmanager
def logged(level):
    log = logging.getLogger("zigpy_cc")
    saved = (logging.root.manager.disable, log.level, log.propagate, log.handlers[:])
    handler = Formatting()
    log.handlers[:] = [handler]
    log.propagate = False
    log.setLevel(level)
    logging.disable(logging.NOTSET)
    try:
        yield handler
    finally:
        logging.disable(saved[0])
        log.setLevel(saved[1])
        log.propagate = saved[2]
        log.handlers[:] = saved[3]


def gen_noise(d):
    k = d.weighted(3, 3, 2, 2, 1)
    if k == 0:
        return bad_frame(d, d.int(0, 7))
    if k == 1:
        return common.gen_areq(d)[2]
    if k == 2:
        raw = bytearray(mt.frame(d.int(0, 7), d.int(0, 31), d.u8(), d.bytes(0, 20)))
        raw[d.int(1, len(raw) - 1)] ^= d.int(0, 255)
        return bytes(raw)
    if k == 3:
        return common.gen_foreign_srsp(d, ())[2]
    return d.bytes(1, 12)


def same(d):
    life = gen_life(d, 0)
    for _ in range(d.int(0, 8)):
        life["steps"].insert(d.int(0, len(life["steps"])),
                             (d.choice((0.0, 0.0, 0.1, 1.0)), ("send", "noise", gen_noise(d))))
    level = d.choice(LEVELS)
    d.show("%s; %s", logging.getLevelName(level),
           "; ".join(s[2].hex() for _, s in life["steps"] if s[:2] == ("send", "noise")))
    quiet = run({0: life})[0]
    with logged(level) as handler:
        loud = run({0: life})[0]
    d.label(logging.getLevelName(level))
    if handler.records:
        d.nontrivial()
    check(not handler.failed, "a log record cannot be formatted: %s", handler.failed[:1])
    for a, b in zip(quiet, loud):
        check(a == b, "without logging %r, with it %r", a, b)
    check(len(quiet) == len(loud), "without logging %r, with it %r", quiet, loud)


PARTS = [Part("histories", same, quick=300, thorough=15000)]
