"""The monitor object handed to every workload: it counts the observations each
oracle made and records violations."""
import hashlib
import json
import os
import sys
import traceback


class Stop(Exception):
    """Ends the current case (after a violation that makes going on useless)."""


class HarnessError(Exception):
    pass


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if x is None or isinstance(x, (bool, int, str)):
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, bytes):
        return x[:400].hex()
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if hasattr(x, "tolist"):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)[:400]


class Mon(object):
    def __init__(self):
        self.checks = {}
        self.counts = {}
        self.states = set()
        self.samples = []
        self.violations = []
        self.skips = {}
        self.context = {}

    # -- observations
    def check(self, cond, clause, msg="", **detail):
        self.checks[clause] = self.checks.get(clause, 0) + 1
        if not cond:
            self.violate(clause, msg, **detail)
        return bool(cond)

    def seen(self, clause, n=1):
        self.checks[clause] = self.checks.get(clause, 0) + n

    def violate(self, clause, msg="", **detail):
        if len(self.violations) < 8:
            d = dict(self.context)
            d.update(detail)
            self.violations.append({"clause": clause, "msg": str(msg)[:1500], "detail": jsonable(d)})

    def require(self, cond, clause, msg="", **detail):
        if not self.check(cond, clause, msg, **detail):
            raise Stop()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def ctx(self, **kw):
        self.context.update(kw)

    def result(self):
        return {
            "checks": self.checks,
            "counts": self.counts,
            "states": sorted(self.states),
            "samples": self.samples,
            "violations": self.violations,
            "skips": self.skips,
        }


def from_gdspy(exc, stage):
    """True if the exception was raised while code of gdspy was running (and not
    in a callback of the harness that gdspy had called)."""
    tb = exc.__traceback__
    frames = []
    while tb is not None:
        frames.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    pkg = os.path.join(stage, "gdspy") + os.sep
    inside = [i for i, f in enumerate(frames) if f.startswith(pkg)]
    if not inside:
        return False
    harness = os.path.dirname(os.path.abspath(__file__)) + os.sep
    return not any(f.startswith(harness) for f in frames[inside[-1] + 1 :])
