"""C40: unusable device settings are refused, usable ones kept and completed."""
import copy
import os
import tempfile

import voluptuous as vol

from harness import stack
from harness.engine import Part, check
from zigpy_cc.api import API
from zigpy_cc.config import CONFIG_SCHEMA, SCHEMA_DEVICE
from zigpy_cc.zigbee.application import ControllerApplication

TECHNIQUE = "property-based testing of configuration validation against a reference predicate"
RULE = ("A case is a device configuration whose path, baud rate and flow control are usable, "
        "unusable or left out, possibly with unknown settings, given to each place that "
        "accepts one (device schema, application schema, application, probe); non-trivial "
        "always. Distinct: by the full choice sequence.")
PATHS = ("/dev/null", "/dev/zero", "/", "auto", "/dev/null")
BAD_PATHS = ("/no/such/port", "Auto", "AUTO", "auto ", "", "/dev/null/x", "autos", " auto",
             "/dev/nul", None, [], {})
BAUDS = (115200, 1, 9600, 921600, 3000000)
BAD_BAUDS = ("115200", 115200.0, None, [], [115200], {}, "", b"9600", 9600.5)
FLOWS = ("hardware", "software", None)
BAD_FLOWS = ("Hardware", "rtscts", "xonxoff", "", 0, 1, True, False, "none", "hard", "both",
             "hardware ", ("hardware",), b"software", 3.5)
EXTRA = ("port", "baud", "flow", "speed", "timeout", "flow-control", "PATH", "Path", "")


def gen_conf(d):
    conf, good = {}, True
    k = d.weighted(12, 4, 1)
    if k == 0:
        conf["path"] = d.choice(PATHS)
    elif k == 1:
        conf["path"], good = d.choice(BAD_PATHS), False
    else:
        good = False
    k = d.weighted(4, 4, 2)
    if k == 1:
        conf["baudrate"] = d.choice(BAUDS) if d.bool(0.6) else d.int(1, 10**7)
    elif k == 2:
        conf["baudrate"], good = d.choice(BAD_BAUDS), False
    k = d.weighted(4, 4, 2)
    if k == 1:
        conf["flow_control"] = d.choice(FLOWS)
    elif k == 2:
        conf["flow_control"], good = d.choice(BAD_FLOWS), False
    if d.bool(0.1):
        conf[d.choice(EXTRA)], good = d.choice((1, "x", None)), False
    return conf, good


def attempt(fn):
    try:
        return fn(), None
    except vol.Invalid as e:
        return None, e


def settings(d):
    conf, good = gen_conf(d)
    d.show("%r: %s", conf, "usable" if good else "unusable")
    d.label("usable" if good else "unusable")
    d.nontrivial()
    tmp = None
    if good and d.bool(0.1):
        tmp = conf["path"] = tempfile.mkdtemp()
    try:
        judge(d, conf, good)
        if tmp:
            os.rmdir(tmp)
            judge(d, conf, False)  # unplugged meanwhile
    finally:
        if tmp and os.path.isdir(tmp):
            os.rmdir(tmp)


def judge(d, conf, good):
    want = dict({"baudrate": 115200, "flow_control": None}, **conf)
    before = copy.deepcopy(conf)
    for where, fn, pick in (
            ("the device schema", lambda: SCHEMA_DEVICE(conf), lambda r: r),
            ("the application's device schema",
             lambda: ControllerApplication.SCHEMA_DEVICE(conf), lambda r: r),
            ("the configuration schema", lambda: CONFIG_SCHEMA({"device": conf}),
             lambda r: r["device"]),
            ("the application's schema",
             lambda: ControllerApplication.SCHEMA({"device": conf}),
             lambda r: r["device"])):
        res, error = attempt(fn)
        check((error is None) == good, "%s: %r %s", where, conf,
              "is refused: %s" % error if error else "is accepted")
        check(conf == before, "%s changed its argument to %r", where, conf)
        if good:
            check(dict(pick(res)) == want, "%s made %r of %r", where, pick(res), conf)
            check(dict(pick(fn())) == want and dict(SCHEMA_DEVICE(pick(res))) == want,
                  "%s: validating again changes %r", where, pick(res))
    if not good:
        async def main(loop, world):
            _, error = attempt(lambda: stack.App(stack.app_config(conf)))
            try:
                await API.probe(conf)
                refused = False
            except (vol.Invalid, KeyError):
                refused = True
            check(refused, "probing accepts %r", conf)
            check(not world.opens, "opened %r with %r", world.opens, conf)

        stack.scenario(main)


PARTS = [Part("settings", settings, quick=3000, thorough=100000)]
