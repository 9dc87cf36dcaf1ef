"""C24: memory safety of the native geometry code, under sanitizers, with
misbehaving arguments, allocation faults, reference counting and leak monitors."""
import ctypes
import gc
import math
import sys

import gdspy
import numpy as np
from gdspy import clipper

import gen
import geom

RULE = (
    "Calls of the compiled functions clip, offset, inside and _chop, and of the public operations on top of them, in builds with "
    "AddressSanitizer, UndefinedBehaviorSanitizer (with float-cast-overflow) and libstdc++ assertions. hostile: nested "
    "sequences of every type (lists, tuples, arrays of several dtypes, sequences with failing, lying, shrinking or recursive "
    "methods, numbers with failing __float__) with a fault at a random position; extreme: valid types with empty, degenerate, "
    "repeated, self-crossing, full-range, non-finite data; valid: large realistic operands; pymem: the n-th allocation of "
    "the interpreter fails, for every n up to a bound; leak: the same call, succeeding and failing, repeated, "
    "watching the blocks of Python's and of the C allocator. Each call is followed by a comparison of the reference count of every "
    "object reachable from the arguments. Distinct by function, kind of data, fault, position and outcome."
)
ASSUMPTIONS = [
    "The interpreter and numpy are not instrumented: their accesses are seen through the allocator only.",
    "Exhaustion of the C++ allocator within the vendored Clipper core is not injected (that core is not exception safe).",
    "LeakSanitizer needs ptrace: leaks are measured by the growth of the allocators over repeated calls instead.",
]
VARIANTS = ["asan", "plain"]
KIND_VARIANT = {"hostile": "asan", "extreme": "asan", "valid": "asan", "api": "asan", "pymem": "asan", "leak": "plain", "length": "plain"}
REQUIRED = ["call-ends-normally", "reference-counts", "result-shape", "no-leak", "fault-survived"]
CPU_LIMIT = 200


def cases(tier):
    k = 1 if tier == "quick" else 20
    return [
        ("hostile", 240 * k),
        ("extreme", 300 * k),
        ("valid", 16 * k),
        ("api", 150 * k),
        ("pymem", 24 * k),
        ("leak", 80 * k),
        ("length", 1),
    ]


# -- misbehaving objects -----------------------------------------------------
class Boom(Exception):
    pass


class Num(object):
    """A number with a __float__ of its own."""

    def __init__(self, v, how=None):
        self.v, self.how = v, how

    def __float__(self):
        if self.how == "raise":
            raise Boom("float")
        if self.how == "string":
            return "x"
        if callable(self.how):
            self.how()
        return float(self.v)


class Index(object):
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return int(self.v)


class Seq(object):
    """A sequence that misbehaves at one position."""

    def __init__(self, items, how=None, at=0, length=None):
        self.items, self.how, self.at, self.length = items, how, at, length

    def __len__(self):
        if self.how == "len-raise":
            raise Boom("len")
        if self.how == "len-type":
            return 2.5
        if self.how == "len-negative":
            return -1
        return len(self.items) if self.length is None else self.length

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise TypeError("index")
        if i == self.at:
            if self.how == "item-raise":
                raise Boom("item")
            if self.how == "clear":
                r = self.items[i]
                del self.items[:]
                return r
            if self.how == "grow":
                self.items.extend(self.items[:50])
            if self.how == "collect":
                gc.collect()
            if self.how == "reenter":
                clipper.clip([[(0, 0), (1, 0), (0, 1)]], [], "or", 1000.0)
        return self.items[i]


class SubList(list):
    def __len__(self):
        return list.__len__(self) + 3


class OnlyLen(object):
    def __len__(self):
        return 3


FAULTS = (
    "none-polygon int-polygon str-polygon dict-polygon set-polygon generator-polygon none-point int-point short-point empty-point str-point "
    "str-coordinate none-coordinate complex-coordinate float-raise float-string float-mutate list-coordinate bool-coordinate bigint "
    "len-raise len-type len-negative item-raise clear grow collect reenter longer shorter sublist only-len nan inf zerodim onedim "
    "threedim object-array string-array complex-array int-array reversed-array empty-array readonly-array bytes"
).split()


def fresh(v):
    """A float object nobody else refers to."""
    return float(repr(v))


def rnd_polygon(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 3, 4, 5, 8, 20]) if n is None else n
    return [(fresh(rng.randint(-90, 90) / 9.0), fresh(rng.randint(-90, 90) / 9.0)) for _ in range(n)]


def rnd_set(rng, least=0):
    return [rnd_polygon(rng) for _ in range(max(least, rng.choice([0, 1, 1, 2, 3, 6])))]


def wrap_points(rng, p):
    """The same polygon in another type."""
    k = rng.randrange(6)
    if k == 0:
        return list(p)
    if k == 1:
        return tuple(list(q) for q in p)
    if k == 2:
        return np.array(p, dtype=float).reshape(len(p), 2)
    if k == 3:
        return np.array(p, dtype=np.float32).reshape(len(p), 2)
    if k == 4:
        return Seq([Seq(list(q), at=-1) for q in p], at=-1)
    return [np.array(q) for q in p]


def faulty(rng, fault, n=5):
    """A polygon with the given fault at a random position."""
    p = [list(q) for q in rnd_polygon(rng, n)]
    at = rng.randrange(n)
    c = rng.randrange(2)
    if fault.endswith("-polygon"):
        return {
            "none": None,
            "int": 10 ** 6 + 7,
            "str": "abcdef",
            "dict": {0: p[0], 1: p[1]},
            "set": {1, 2},
            "generator": (q for q in p),
        }[fault[:-8]], at
    if fault == "none-point":
        p[at] = None
    elif fault == "int-point":
        p[at] = 10 ** 7 + at
    elif fault == "short-point":
        p[at] = [p[at][0]]
    elif fault == "empty-point":
        p[at] = []
    elif fault == "str-point":
        p[at] = "ab"
    elif fault == "str-coordinate":
        p[at][c] = "x"
    elif fault == "none-coordinate":
        p[at][c] = None
    elif fault == "complex-coordinate":
        p[at][c] = 1 + 2j
    elif fault == "list-coordinate":
        p[at][c] = [1]
    elif fault == "bool-coordinate":
        p[at][c] = True
    elif fault == "bigint":
        p[at][c] = rng.choice([10 ** 400, 10 ** 30, -(10 ** 18), Index(7), Index(10 ** 25)])
    elif fault == "float-raise":
        p[at][c] = Num(1, "raise")
    elif fault == "float-string":
        p[at][c] = Num(1, "string")
    elif fault == "float-mutate":
        p[at][c] = Num(1, lambda: p.clear())
    elif fault in ("len-raise", "len-type", "len-negative", "item-raise", "clear", "grow", "collect", "reenter"):
        if rng.random() < 0.3 and fault not in ("len-raise", "len-type", "len-negative"):
            p[at] = Seq(p[at], fault, rng.randrange(2))
        else:
            p = Seq(p, fault, at)
    elif fault == "longer":
        p = Seq(p, length=n + rng.choice([1, 100, 5000]), at=-1)
    elif fault == "shorter":
        p = Seq(p, length=rng.randrange(n), at=-1)
    elif fault == "sublist":
        p = SubList(p)
    elif fault == "only-len":
        p[at] = OnlyLen()
    elif fault == "nan":
        p[at][c] = float("nan")
    elif fault == "inf":
        p[at][c] = rng.choice([1, -1]) * float("inf")
    elif fault == "zerodim":
        p = np.array(3.5)
    elif fault == "onedim":
        p = np.arange(6.0)
    elif fault == "threedim":
        p = np.zeros((3, 2, 2))
    elif fault == "object-array":
        q = np.empty((n, 2), dtype=object)
        for i in range(n):
            q[i] = p[i]
        q[at, c] = rng.choice([None, "x", Num(2)])
        p = q
    elif fault == "string-array":
        p = np.array([["1", "2"], ["3", "4"], ["5", "7"]])
    elif fault == "complex-array":
        p = np.array(p) * (1 + 1j)
    elif fault == "int-array":
        p = np.array(p).astype(rng.choice([np.int8, np.int64, np.uint32]))
    elif fault == "reversed-array":
        p = np.array(p)[::-1]
    elif fault == "empty-array":
        p = rng.choice([np.zeros((0, 2)), np.zeros((3, 0)), np.zeros((0,))])
    elif fault == "readonly-array":
        p = np.array(p)
        p.setflags(write=False)
    elif fault == "bytes":
        p = rng.choice([b"abcdef", bytearray(b"abc"), memoryview(b"abc")])
    else:
        raise AssertionError(fault)
    return p, at


# -- monitors -----------------------------------------------------------------
def reachable(obj, out, depth=0):
    """Objects whose reference counts are compared (by identity, without copies)."""
    if depth > 6 or any(obj is o for o in out):
        return
    if isinstance(obj, (type(None), bool)) or isinstance(obj, type):
        return
    out.append(obj)
    if isinstance(obj, (list, tuple)):
        for i in range(list.__len__(obj) if isinstance(obj, list) else tuple.__len__(obj)):
            reachable(list.__getitem__(obj, i) if isinstance(obj, list) else obj[i], out, depth + 1)
    elif isinstance(obj, Seq):
        reachable(obj.items, out, depth + 1)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            reachable(v, out, depth + 1)
    elif isinstance(obj, np.ndarray) and obj.dtype == object and obj.ndim:
        for v in obj.flat:
            reachable(v, out, depth + 1)


def counts(objs):
    return [sys.getrefcount(o) for o in objs]


def call(f, args):
    """(result, name of the exception): never keeps the exception alive."""
    try:
        return f(*args), None
    except Exception as e:  # noqa
        name = type(e).__name__
        e.__traceback__ = None
        return None, name


def shape_ok(name, r, args):
    """Well-formed results."""

    def polys(x):
        return type(x) is tuple and all(
            type(p) is tuple
            and len(p) > 0
            and all(type(q) is tuple and len(q) == 2 and type(q[0]) is float and type(q[1]) is float and math.isfinite(q[0]) and math.isfinite(q[1]) for q in p)
            for p in x
        )

    if name in ("clip", "offset"):
        return polys(r)
    if name == "inside":
        return type(r) is tuple and all(type(b) is bool for b in r)
    return type(r) is tuple and all(polys(x) for x in r)


FUNCS = {"clip": clipper.clip, "offset": clipper.offset, "inside": clipper.inside, "chop": clipper._chop}


def arguments(rng, name, a, b, scaling=1000.0):
    if name == "clip":
        return [a, b, rng.choice(["or", "and", "xor", "not"]), scaling]
    if name == "offset":
        return [a, rng.choice([-1, 1]) * rng.uniform(0, 3), rng.choice(["miter", "bevel", "round"]), rng.choice([2, 3, 40, 0.5]), scaling, rng.randrange(2)]
    if name == "inside":
        return [a, b, rng.choice([-1, 0, 1]), scaling]
    raise AssertionError(name)


def monitored(m, name, args, tag, *state):
    objs = []
    reachable(args, objs)
    before = counts(objs)
    held = [o for o in objs if isinstance(o, Seq) and o.how in ("clear", "grow")]
    mutating = held or any(isinstance(o, Num) and callable(o.how) for o in objs)
    r, exc = call(FUNCS[name], args)
    after = counts(objs)
    m.check(exc != "SystemError", "call-ends-normally", "the function returned with an inconsistent error state", function=name, fault=tag)
    # Without `args` being changed by the arguments themselves all counts must be as before.
    if not mutating:
        bad = [(type(o).__name__, x, y) for o, x, y in zip(objs, before, after) if x != y]
        m.check(not bad, "reference-counts", "objects gained or lost references: (type, before, after)", bad=bad[:6], function=name, fault=tag, exception=exc)
    if exc is None:
        m.check(shape_ok(name, r, args), "result-shape", "the result is not what the function documents", function=name, fault=tag, result=repr(r)[:300])
    m.state(name, tag, exc, *state)
    m.count(name + (":" + exc if exc else ":ok"))
    return r, exc


# -- workloads ----------------------------------------------------------------
def hostile(rng, m):
    for _ in range(25):
        name = rng.choice(["clip", "offset", "inside", "chop"])
        fault = rng.choice(FAULTS)
        p, at = faulty(rng, fault)
        if name == "chop":
            pos = [fresh(rng.uniform(-10, 10)) for _ in range(rng.choice([0, 1, 3]))]
            if rng.random() < 0.6:
                args = [p, pos, rng.choice([0, 1, 5]), 1000.0]
            else:
                where = "positions"
                if fault.endswith("polygon") or fault in ("zerodim", "only-len", "sublist", "onedim", "threedim", "empty-array", "bytes", "string-array") or isinstance(p, Seq):
                    pos = p
                else:
                    bad = rng.choice([None, "x", Num(1, "raise"), Num(1, "string"), float("nan"), float("inf"), 1e300, [1], Num(3), 10 ** 400])
                    pos.insert(rng.randrange(len(pos) + 1), bad)
                args = [rnd_polygon(rng), pos, rng.choice([0, 1]), 1000.0]
                fault += "-position"
        else:
            good, other = rnd_set(rng), rnd_set(rng)
            k = rng.randrange(len(good) + 1)
            lv = rng.random()
            if lv < 0.65:
                good.insert(k, p)
            elif isinstance(p, Seq):
                p.items = [rnd_polygon(rng) for _ in p.items]
                good = p
            else:
                good = p
            if rng.random() < 0.3:
                good = rng.choice([tuple, lambda x: Seq(list(x), at=-1)])(good) if isinstance(good, list) and not isinstance(good, SubList) else good
            a, b = (good, other) if rng.random() < 0.6 else (other, good)
            if name == "offset":
                a = good
            args = arguments(rng, name, a, b)
        if rng.random() < 0.08:
            k = rng.randrange(len(args))
            args[k] = rng.choice([None, "or", 3, 2.5, [], float("nan"), 1e308, -1, b"x", 10 ** 30])
            if name == "offset" and k == 1 and args[k] == 1e308:
                args[k] = 5.0
            fault += "-arg%d" % k
        if rng.random() < 0.03:
            args = args[:-1]
        monitored(m, name, args, fault, at)


def extreme_value(rng, big):
    k = rng.randrange(10)
    if k < 3:
        return rng.choice([-1, 1]) * big * rng.random()
    if k < 5:
        return rng.choice([-1, 1]) * big
    if k < 7:
        return float(rng.randint(-3, 3))
    if k == 7:
        return 0.0
    if k == 8:
        return rng.choice([-0.0, 1e-300, 5e-324, 0.5, -0.5, 2.0 ** 30, 2.0 ** 31, -(2.0 ** 31), 2.0 ** 53, -(2.0 ** 62), 2.0 ** 63])
    return rng.choice([-1, 1]) * 10.0 ** rng.uniform(-3, 25)


def extreme(rng, m):
    for _ in range(20):
        big = rng.choice([5.0, 3e4, 1.07e9, 2.2e9, 4e9, 3e10, 1e15, 4.6e18, 4.611686018427387e18, 1e19, 1e300])
        kind = rng.choice(["random", "repeated", "collinear", "spike", "figure8", "identical", "grid", "huge-rect", "empty", "nan"])

        def poly():
            n = rng.choice([1, 2, 3, 4, 5, 9, 30])
            if kind == "random" or kind == "nan":
                p = [(extreme_value(rng, big), extreme_value(rng, big)) for _ in range(n)]
                if kind == "nan":
                    p[rng.randrange(n)] = (rng.choice([float("nan"), float("inf"), -float("inf")]), 0.0)
                return p
            if kind == "repeated":
                p = []
                for _ in range(n):
                    p += [(extreme_value(rng, big), extreme_value(rng, big))] * rng.choice([1, 2, 5])
                return p
            if kind == "collinear":
                dx, dy = rng.randint(-3, 3), rng.randint(-3, 3)
                return [(t * dx * big / 100, t * dy * big / 100) for t in (rng.randint(-30, 30) for _ in range(n))]
            if kind == "spike":
                return [(0.0, 0.0), (big, 0.0), (big, big), (big, 0.0), (0.0, 0.0), (rng.uniform(-big, big), big)]
            if kind == "figure8":
                return [(-big, -big), (big, big), (big, -big), (-big, big)]
            if kind == "identical":
                return [(7.0, 7.0)] * n
            if kind == "grid":
                return [(float(rng.randint(-4, 4)), float(rng.randint(-4, 4))) for _ in range(n)]
            if kind == "huge-rect":
                b = big * rng.choice([1, 0.5])
                return [(-b, -b), (b, -b), (b, b), (-b, b)]
            return []

        a = [poly() for _ in range(rng.choice([0, 1, 2, 4]))]
        b = [poly() for _ in range(rng.choice([0, 1, 2]))]
        scaling = rng.choice([1.0, 1.0, 1000.0, 1e-3, -1.0, 0.0, 1e300, float("nan"), float("inf")] if rng.random() < 0.4 else [1.0])
        name = rng.choice(["clip", "offset", "inside", "chop"])
        if name == "chop":
            pos = sorted(extreme_value(rng, big) for _ in range(rng.choice([0, 1, 2, 5])))
            args = [a[0] if a else [], pos, rng.randrange(2), scaling]
        else:
            args = arguments(rng, name, a, b, scaling)
            if name == "offset":
                join = args[2]
                args[3] = rng.choice([2.0, 3.0, 0.0, -1.0, 30.0, float("nan"), float("inf")]) if join != "round" else rng.choice([1.0, 2.0, 5.0, 64.0, 0.0, -2.0, float("nan")])
                args[1] = rng.choice([-1, 1]) * rng.choice([0.0, 1.0, big * 1e-3, big])
                if join == "round":
                    args[1] = max(-1e7, min(args[1], 1e12))
                    if args[1] < 0 or not (0.5 < args[3] < 100):
                        args[1] = max(-1e6, min(args[1], 1e6))
                    args[4] = 1.0
                if rng.random() < 0.05:
                    args[1] = rng.choice([float("nan"), float("inf"), -float("inf"), 1e308]) if join != "round" else float("nan")
        # a shape may be refused by a Python exception, but not be answered with infinite coordinates
        objs_scaling_ok = math.isfinite(scaling) and scaling != 0 and abs(scaling) < 1e20
        r, exc = call_counted(m, name, args, kind, big, objs_scaling_ok)
        if name == "inside" and exc is None and all(len(p) == 0 for p in b):
            n_ok = len(r) == (len(a[0]) if args[2] == 0 and a else 0 if args[2] == 0 else len(a))
            m.check(n_ok, "result-shape", "wrong number of answers", args=args, got=r)
            for g, v in zip(a, r):
                if len(g):
                    m.check(v is False, "nothing-inside-nothing", "a point is inside of no polygon", args=args, got=r)


def call_counted(m, name, args, kind, big, finite):
    objs = []
    reachable(args, objs)
    before = counts(objs)
    r, exc = call(FUNCS[name], args)
    after = counts(objs)
    m.check(exc != "SystemError", "call-ends-normally", "the function returned with an inconsistent error state", function=name, args=repr(args)[:800])
    m.check(before == after, "reference-counts", "objects gained or lost references", function=name, args=repr(args)[:800], exception=exc)
    if exc is None and finite:
        m.check(shape_ok(name, r, args), "result-shape", "the result is not what the function documents", function=name, args=repr(args)[:800], result=repr(r)[:300])
    m.state(name, kind, big, exc)
    m.count(name + (":" + exc if exc else ":ok"))
    return r, exc


def valid(rng, m):
    """Large realistic operands through the public operations."""
    s = 10.0 ** rng.uniform(-1, 4)
    n = rng.choice([5, 20, 60])
    a = gen.polygons(rng, n, s=s)
    b = gen.polygons(rng, rng.choice([1, n]), s=s)
    precision = s * rng.choice([1e-3, 1e-6])
    for op in ("or", "and", "xor", "not"):
        r = gdspy.boolean(a, b, op, precision=precision, max_points=rng.choice([0, 5, 199]))
        m.check(r is None or all(len(p) >= 3 and np.isfinite(p).all() for p in r.polygons), "result-shape", "unusable polygons", op=op)
    for join, tol in (("miter", 2), ("bevel", 2), ("round", rng.choice([1, 8, 30]))):
        for d in (0.05 * s, -0.05 * s):
            r = gdspy.offset(a, d, join, tolerance=tol, precision=precision, join_first=rng.random() < 0.5, max_points=rng.choice([0, 60, 199]))
            m.check(r is None or all(len(p) >= 3 and np.isfinite(p).all() for p in r.polygons), "result-shape", "unusable polygons", join=join)
    pts = [(rng.uniform(-2 * s, 2 * s), rng.uniform(-2 * s, 2 * s)) for _ in range(500)]
    r = gdspy.inside(pts, a, precision=precision)
    m.check(len(r) == 500 and all(type(x) is bool for x in r), "result-shape", "inside")
    groups = [pts[i : i + 7] for i in range(0, 490, 7)]
    for sc in ("any", "all"):
        r = gdspy.inside(groups, a, sc, precision=precision)
        m.check(len(r) == len(groups), "result-shape", "inside groups")
    cuts = sorted(rng.uniform(-s, s) for _ in range(rng.choice([1, 10, 60])))
    r = gdspy.slice(a, cuts, rng.randrange(2), precision=precision)
    m.check(len(r) == len(cuts) + 1, "result-shape", "slice")
    c = gdspy.PolygonSet(a).fracture(rng.choice([4, 5, 9]), precision=precision)
    m.check(all(len(p) >= 3 for p in c.polygons), "result-shape", "fracture")
    m.seen("call-ends-normally", 18)
    m.state("valid", n, int(math.log10(s)))
    m.count("valid operations", 18)


def api(rng, m):
    """Hostile operands through the public operations: any exception but SystemError."""
    for _ in range(12):
        fault = rng.choice(FAULTS)
        p, at = faulty(rng, fault)
        good = [gdspy.Rectangle((0, 0), (2, 2)), [(0, 0), (3, 0), (0, 3)], gdspy.Polygon([(1, 1), (4, 1), (1, 5)])][: rng.choice([0, 1, 3])]
        ops = good + [p]
        rng.shuffle(ops)
        f = rng.choice(["boolean", "boolean2", "offset", "inside", "inside-points", "slice", "slice-positions", "fracture", "empty"])
        calls = {
            "boolean": lambda: gdspy.boolean(ops, good, rng.choice(["or", "and", "xor", "not"])),
            "boolean2": lambda: gdspy.boolean(good, ops, rng.choice(["or", "and", "xor", "not", "bad"])),
            "offset": lambda: gdspy.offset(ops, rng.uniform(-1, 1), rng.choice(["miter", "round", "bevel", "bad"]), tolerance=rng.choice([2, 10])),
            "inside": lambda: gdspy.inside([(1, 1), (2.5, 0.5)], ops),
            "inside-points": lambda: gdspy.inside(rng.choice([p, [p, p], [[(0, 0)], p]]), good, rng.choice(["any", "all"])),
            "slice": lambda: gdspy.slice(ops, [0.5, 1.5], rng.randrange(2)),
            "slice-positions": lambda: gdspy.slice(good, rng.choice([p, [p], [1, float("nan")], [float("inf")], [None], [[1]], []]), rng.randrange(2)),
            "fracture": lambda: gdspy.PolygonSet([p]).fracture(5),
            "empty": lambda: (
                gdspy.inside([(1, 1)], []),
                gdspy.inside([[(1, 1)], [(2, 2)]], None, rng.choice(["any", "all"])),
                gdspy.boolean([], [], "or"),
                gdspy.offset([], 1),
                gdspy.slice([], 1, 0),
            ),
        }
        r, exc = call(calls[f], [])
        m.check(exc != "SystemError", "call-ends-normally", "a public operation returned with an inconsistent error state", function=f, fault=fault)
        if f == "empty":
            m.check(exc is None and r[0] == (False,) and r[1] == (False, False) and r[2] is None and r[3] is None, "nothing-inside-nothing", "empty operands", got=repr(r), exception=exc)
        m.state("api", f, fault, exc)
        m.count("api:" + (exc or "ok"))


def small_args(rng, name):
    a = [[(0.0, 0.0), (9.0, 0.0), (9.0, 9.0), (0.0, 9.0)], [(3.0, 3.0), (5.0, 2.5), (6.0, 6.0)], [(20.0, 0.0), (23.0, 0.0), (20.0, 4.0)]]
    b = [[(2.0, 2.0), (7.0, 2.0), (7.0, 7.0), (2.0, 7.0)], [(8.0, -1.0), (22.0, -1.0), (21.0, 12.0)]]
    a = [[(fresh(x), fresh(y)) for x, y in p] for p in a]
    if name == "chop":
        return [a[0], [2.0, 4.0, 7.0], rng.randrange(2), 1000.0]
    args = arguments(rng, name, a, b)
    if name == "offset":
        args[1] = rng.choice([-0.7, 1.3])
        args[3] = rng.choice([2, 8])
    if name == "clip":
        args[2] = rng.choice(["not", "xor", "or", "and"])
    return args


def pymem(rng, m):
    """The n-th allocation of the interpreter fails while the function runs."""
    import _testcapi

    name = rng.choice(["clip", "offset", "inside", "chop"])
    args = small_args(rng, name)
    f = FUNCS[name]
    want, _ = call(f, args)
    objs = []
    reachable(args, objs)
    before = counts(objs)
    failures = 0
    for n in range(1, 90):
        exc = r = None
        _testcapi.set_nomemory(n, n + 1)
        try:
            r = f(*args)
        except MemoryError:
            exc = "MemoryError"
        except SystemError:
            exc = "SystemError"
        except Exception:  # noqa
            exc = "other"
        finally:
            _testcapi.remove_mem_hooks()
        m.seen("fault-survived")
        if exc:
            failures += 1
            m.check(exc == "MemoryError", "call-ends-normally", "failed allocation not reported as such", function=name, n=n, exception=exc)
        else:
            m.check(r == want, "result-shape", "wrong result after an allocation failed", function=name, n=n)
    r = exc = None
    m.check(counts(objs) == before, "reference-counts", "references lost or gained when allocations fail", function=name)
    m.count("failed Python allocations", failures)
    m.state("pymem", name, repr(args[2])[:8], failures)


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def leak(rng, m):
    """Growth of the allocators over repeated calls."""
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo
    name = rng.choice(["clip", "offset", "inside", "chop", "inside", "chop"])
    fault = rng.choice([None, None] + [f for f in FAULTS if f not in ("clear", "grow", "generator-polygon", "float-mutate", "collect")])
    if fault is None:
        args = small_args(rng, name)
    else:
        p, at = faulty(rng, fault)
        if name == "chop":
            args = [p, [0.0, 1.0], 0, 1000.0] if rng.random() < 0.5 else [rnd_polygon(rng, 5), [0.5, 1.0, rng.choice([None, "x", float("nan"), 1e300, Num(1, "raise")])], 0, 1000.0]
        else:
            args = arguments(rng, name, rnd_set(rng, 1) + [p] + rnd_set(rng), rnd_set(rng, 1))
            if rng.random() < 0.4 and name != "offset":
                args[0], args[1] = args[1], args[0]
    f = FUNCS[name]

    def burst(n):
        for _ in range(n):
            try:
                f(*args)
            except Exception:  # noqa
                pass

    N = 200
    burst(50)
    worst = None
    for attempt in range(5):
        gc.collect()
        b0, u0 = sys.getallocatedblocks(), libc.mallinfo2()
        burst(N)
        gc.collect()
        b1, u1 = sys.getallocatedblocks(), libc.mallinfo2()
        grow = (b1 - b0, u1.uordblks + u1.hblkhd - u0.uordblks - u0.hblkhd)
        if grow[0] < N // 4 and grow[1] < 8 * N:
            worst = None
            break
        worst = grow
    m.check(worst is None, "no-leak", "memory grows with every call: (blocks, bytes) per %d calls" % N, grow=worst, function=name, fault=fault, args=repr(args)[:400])
    _, exc = call(f, args)
    m.count("calls watched for leaks", 50 + N)
    m.state("leak", name, fault, exc)


def length(rng, m):
    """Lengths that cannot be allocated."""
    for n in (2 ** 62, 2 ** 50, 2 ** 45):
        huge = Seq([(0.0, 0.0)], length=n, at=-1)
        for name, args in (
            ("clip", [huge, [], "or", 1.0]),
            ("clip", [[huge], [], "or", 1.0]),
            ("clip", [[], [[(0, 0)], huge], "or", 1.0]),
            ("offset", [huge, 1.0, "miter", 2.0, 1.0, 1]),
            ("inside", [[huge], [], 1, 1.0]),
            ("inside", [[], huge, 1, 1.0]),
            ("chop", [huge, [], 0, 1.0]),
            ("chop", [[(0, 0), (1, 0), (0, 1)], huge, 0, 1.0]),
        ):
            objs = []
            reachable(args, objs)
            before = counts(objs)
            r, exc = call(FUNCS[name], args)
            m.check(exc == "MemoryError", "call-ends-normally", "an impossible length is not refused", function=name, exception=exc)
            m.check(counts(objs) == before, "reference-counts", "references lost or gained", function=name)
            m.state("length", name, n)


def run_case(kind, index, rng, m):
    globals()[kind](rng, m)
