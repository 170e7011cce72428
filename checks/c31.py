"""C31: explicit network settings are honoured, unset ones get fixed defaults."""
import itertools

from harness import sim, stack
from harness.engine import Part, check

from . import net

TECHNIQUE = "property-based testing over network configurations, observed at the adapter"
RULE = ("A case is a firmware generation and a configuration (every subset of the four "
        "settings swept with boundary values, random subsets and values in every accepted "
        "notation), written to a new adapter by a real startup; non-trivial when at least "
        "one setting is given. Distinct: by subset and values.")
ASSUMES = ["The PAN ID 0xFFFF is not configured (it means 'random' to the adapter)."]
PANS = (0x0000, 0x0001, 0x00FF, 0x0100, 0x1A62, 0x3FFF, 0xFFFE)
EXTS = (b"\x00" * 8, b"\xff" * 8, bytes(range(8)), b"\xdd" * 7 + b"\xdc")
KEYS = (b"\x00" * 16, b"\xff" * 16, bytes(range(16)), b"\x01" + b"\x00" * 15)
MASKS = (1 << 11, 1 << 26, 0x07FFF800, 0, (1 << 15) | (1 << 26))


def run(d, product, conf, want):
    d.show("product %d, %r", product, conf)

    async def main(loop, world):
        for _ in range(2):
            world.ncp = ncp = sim.Ncp(product)
            ncp.world = world
            app = stack.make_app(network=conf)
            await app.startup(True)
            bad = net.complete(ncp, want)
            check(not bad, "%s", "; ".join(bad))
            for k, nvid in net.ITEMS.items():
                values = [v for i, _, v in ncp.nv_write_log if i == nvid]
                check(values and all(v == want[k] for v in values),
                      "%s written as %r, configured %s", k, values, want[k].hex())
            await app.shutdown()

    stack.scenario(main)


def subsets(d, case):
    which, product, variant = case
    conf, want = {}, dict(net.DEFAULT)
    if which & 1:
        pan = PANS[variant % len(PANS)]
        conf["pan_id"] = pan
        want["pan"] = pan.to_bytes(2, "little")
    if which & 2:
        want["extpan"] = EXTS[variant % len(EXTS)]
        conf["extended_pan_id"] = ":".join("%02X" % b for b in reversed(want["extpan"]))
    if which & 4:
        want["key"] = KEYS[variant % len(KEYS)]
        conf["key"] = list(want["key"])
    if which & 8:
        mask = MASKS[variant % len(MASKS)]
        conf["channels"] = [c for c in range(11, 27) if mask >> c & 1]
        want["channels"] = (mask or 1 << 11).to_bytes(4, "little")
    if which:
        d.nontrivial("%d of 4 settings given" % bin(which).count("1"))
    run(d, product, conf, want)


def configurations(d):
    conf, want = net.gen_conf(d, d.choice((0.2, 0.5, 1.0)))
    for k in ("pan_id", "extended_pan_id", "key"):
        if k not in conf and d.bool(0.2):
            conf[k] = None  # explicitly unset
    if conf:
        d.nontrivial()
    run(d, d.choice(net.PRODUCTS), conf, want)


PARTS = [
    Part("every subset", subsets, cases=lambda tier: [list(c) for c in itertools.product(
        range(16), net.PRODUCTS, range(2 if tier == "quick" else 7))]),
    Part("configurations", configurations, quick=250, thorough=20000),
]
