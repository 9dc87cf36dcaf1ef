"""Runs single cases of one property; one JSON line in, one JSON line out."""
import faulthandler
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    prop, stage, tier, seed = sys.argv[1:5]
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    faulthandler.enable()
    import mon as monmod

    mod = importlib.import_module("props." + prop.lower())
    if not getattr(mod, "NO_IMPORT", False):
        import gdspy

        if not os.path.abspath(gdspy.__file__).startswith(stage + os.sep):
            raise RuntimeError("gdspy imported from " + gdspy.__file__)
        gdspy.library.use_current_library = False
    warnings.simplefilter("ignore")
    import numpy

    numpy.seterr(all="ignore")
    out.write(json.dumps({"ready": 1}) + "\n")
    out.flush()
    for line in sys.stdin:
        task = json.loads(line)
        m = monmod.Mon()
        rng = random.Random("%s:%s:%s:%s" % (seed, prop, task["kind"], task["index"]))
        numpy.random.seed(rng.randrange(2 ** 31))
        t0 = time.process_time()
        err = None
        try:
            mod.run_case(task["kind"], task["index"], rng, m)
        except monmod.Stop:
            pass
        except Exception as e:  # noqa
            text = traceback.format_exc()
            if monmod.from_gdspy(e, stage):
                m.violate(
                    "no-unexpected-exception",
                    "%s: %s" % (type(e).__name__, e),
                    traceback=text[-1800:],
                )
            elif isinstance(e, (monmod.HarnessError, MemoryError)) or (isinstance(e, OSError) and not isinstance(e, FileNotFoundError)):
                err = text
            else:
                # The oracle could not read what gdspy returned (never seen on a
                # correct tree, whatever the seed).
                m.violate("result-is-usable", "%s: %s" % (type(e).__name__, e), traceback=text[-1800:])
        res = m.result()
        res["cpu"] = time.process_time() - t0
        res["error"] = err
        out.write(json.dumps(res) + "\n")
        out.flush()


main()
