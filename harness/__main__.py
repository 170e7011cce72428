"""python harness C01 [quick|thorough] | python harness C01 --replay FILE"""
import importlib
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") not in (HERE,)]
sys.path.insert(0, VERIF)
from harness import engine  # noqa: E402

sys.path.insert(0, engine.REPO)
os.chdir("/")


def main(argv):
    import warnings

    warnings.simplefilter("ignore")
    if os.environ.get("VERIF_DEBUG"):
        logging.basicConfig(level=logging.DEBUG)
    else:
        logging.disable(logging.CRITICAL)
    import zigpy_cc

    if os.path.realpath(zigpy_cc.__file__) != os.path.realpath(
        engine.REPO + "/zigpy_cc/__init__.py"
    ):
        print("zigpy_cc imported from %s" % zigpy_cc.__file__, file=sys.stderr)
        return 2
    pid = argv[0]
    module = importlib.import_module("checks." + pid.lower())
    if len(argv) > 2 and argv[1] == "--replay":
        return engine.replay(pid, module, os.path.join(VERIF, argv[2]))
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        print("usage: check ID [quick|thorough | --replay FILE]", file=sys.stderr)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return engine.run_check(pid, module, tier, seed)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
