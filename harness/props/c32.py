"""C32: equal values of other types give equal results."""
import copy
import io
import re
import warnings

import gdspy
import numpy as np

import gds
import snap
from props import c31

RULE = (
    "Random calls of the documented interface (constructors, path sections, curves, operations, transformations, queries) are made with the same values in other types: numbers as Python or numpy integers and floats, points and lists of points as "
    "tuples, lists, integer or float arrays, complex numbers in curves. The objects, results and bytes written must be the same to rounding. "
    "Programs of several calls on one object (made of integers, then moved, scaled, continued, filleted, cut, written) are compared step by step in the same way. Distinct by function, types used and size of the result."
)
ASSUMPTIONS = ["Where the documentation says list (layers, widths of paths), a list is given; array-like arguments take any of the types."]
REQUIRED = ["same-values", "same-program", "same-bytes"]
CPU_LIMIT = 90

POINT = {"point1", "point2", "center", "position", "initial_point", "p1", "p2", "origin", "spacing", "translation", "end_point", "length", "turn", "array_trans", "radius"}
POINTS = {"points", "polygons"}
NUMBERS = {"size", "angle", "width", "distance", "scalex", "scaley", "scale", "x", "y", "rotation", "magnification", "radius", "inner_radius", "final_width", "final_distance", "axis_offset", "length", "initial_angle", "final_angle",
           "columns", "rows", "dx", "dy", "position", "number_of_points", "max_points", "layer", "datatype", "texttype", "offset", "u", "points_per_2pi", "curl_start", "curl_end", "t_in", "t_out", "scaling", "precision", "tolerance",
           "number_of_paths", "depth", "unit", "bend_radius"}
INTEGERS = {"columns", "rows", "number_of_points", "max_points", "layer", "datatype", "texttype", "points_per_2pi", "number_of_paths", "depth"}


def cases(tier):
    k = 5 if tier == "quick" else 110
    return [("call", 400 * k), ("program", 150 * k)]


def plain(x):
    """Fingerprints without the kind of container."""
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == "array":
            return plain(x[2])
        if len(x) == 3 and x[0] == "id":
            return x[2]
        if len(x) and isinstance(x[0], str) and x[0].startswith("(") and "np.int" in x[0]:
            x = [re.sub(r"np\.int\d+\((-?\d+)\)", r"\1", x[0])] + list(x[1:])
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)) or x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, (int, float, np.number)):
        return float(x)
    return x


def rounded(x):
    """Values of about one or more become whole numbers."""
    if isinstance(x, dict):
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(rounded(v) for v in x)
    if isinstance(x, np.ndarray):
        return np.round(x)
    if isinstance(x, float) and abs(x) > 0.75:
        return float(round(x))
    return x


def number(rng, x, whole=False):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return x
    kinds = [np.float64, float] if not whole else []
    if float(x) == int(x):
        kinds += [int, np.int64, np.int32, int]
    return rng.choice(kinds)(x)


def point(rng, p):
    k = rng.choice(["tuple", "list", "array", "mixed"])
    p = [number(rng, float(v)) for v in p] if k == "mixed" else [float(v) for v in p]
    if k in ("tuple", "mixed"):
        return tuple(p)
    if k == "list":
        return [int(v) if v == int(v) and rng.random() < 0.5 else v for v in p]
    if all(v == int(v) for v in p) and rng.random() < 0.7:
        return np.array(p, dtype=rng.choice([np.int64, np.int32]))
    return np.array(p)


def points(rng, l):
    k = rng.choice(["list", "list", "tuple", "array", "array"])
    if k == "list":
        return [point(rng, p) for p in l]
    if k == "tuple":
        return tuple(point(rng, p) for p in l)
    a = np.array([[float(v) for v in p] for p in l])
    if np.all(a == np.round(a)) and rng.random() < 0.7:
        a = a.astype(rng.choice([np.int64, np.int32]))
    if rng.random() < 0.2:
        a = np.asfortranarray(a)
    elif rng.random() < 0.2:
        a = np.repeat(a, 2, axis=0)[::2]
    return a


def depth(x):
    n = 0
    while isinstance(x, (list, tuple, np.ndarray)) and len(x):
        x = x[0]
        n += 1
    return n


def other(rng, name, fn, x):
    d = depth(x)
    if callable(x) or isinstance(x, (str, bytes, bool, dict)) or x is None:
        return x
    if name in ("operand1", "operand2") or (name == "polygons" and d == 3):
        return [points(rng, p) for p in x] if depth(x) == 3 else x
    if name in POINTS and d == 3:
        return [points(rng, p) for p in x] if rng.random() < 0.7 else x
    if name in POINTS and d == 2:
        return points(rng, x)
    if name in POINT and d == 1 and fn not in ("slice", "transform"):
        return point(rng, x)
    if name in NUMBERS and d == 0:
        return number(rng, x, name in INTEGERS)
    return x


def kind_of(x):
    if isinstance(x, (list, tuple)) and len(x):
        return type(x).__name__ + "/" + kind_of(x[0])
    if isinstance(x, np.ndarray):
        return "array " + str(x.dtype)
    return type(x).__name__


ENTRIES = [e for e in c31.ENTRIES if e not in (c31.e_library, c31.e_hash, c31.e_svg)]


def run_case(kind, index, rng, m):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["case_" + kind](rng, m, index)


def case_call(rng, m, index):
    name, call, req, alt = ENTRIES[index % len(ENTRIES)](rng)
    given = dict(req)
    for n, d in c31.DOC[name]:
        if d is not c31.R and n not in req and rng.random() < 0.4 and (n in alt or n in c31.COMMON):
            given[n] = (alt.get(n) or c31.COMMON[n])(rng)
    if rng.random() < 0.8:
        given = {n: rounded(v) for n, v in given.items()}
    a = c31.attempt(call, (), given)
    for _ in range(2):
        new = {n: other(rng, n, name, copy.deepcopy(v)) for n, v in given.items()}
        kinds = {n: kind_of(v) for n, v in new.items() if kind_of(v) != kind_of(given[n])}
        m.ctx(function=name, types=kinds)
        b = c31.attempt(call, (), new)
        d = c31.close(plain(a), plain(b), 1e-7)
        m.check(d is None, "same-values", "%s %s: %s" % (name, kinds, d))
        m.state(name, tuple(sorted(kinds.items())), len(repr(a)))
    if isinstance(a, list) and a[:1] == ["refused"]:
        m.count("refused " + name)


# -- programs

def whole(rng, a=9):
    return float(rng.randrange(-a, a + 1))


def case_program(rng, m, index):
    """The same steps on an object of floats and on one of other types."""
    k = ["set", "polygon", "curve", "flex", "robust", "path", "label", "ref", "array"][index % 9]
    steps = globals()["p_" + k](rng)
    objs = [None, None]
    log = []
    for i, (f, args) in enumerate(steps):
        new = {n: other(rng, n, k, copy.deepcopy(v)) for n, v in args.items()}
        log.append((i, {n: kind_of(v) for n, v in new.items()}))
        m.ctx(program=k, step=i, log=log)
        out = []
        for j, x in enumerate((copy.deepcopy(args), new)):
            try:
                r = f(objs[j], **x)
            except (ValueError, TypeError, RuntimeError) as e:
                out.append(["refused", type(e).__name__, str(e) if j else ""])
                continue
            if r is not None:
                objs[j] = r
            out.append(look(objs[j]))
        d = c31.close(plain(out[0]), plain(out[1]), 1e-6)
        if not m.check(d is None, "same-program", "%s, step %d %s: %s" % (k, i, log[-1][1], d)):
            return
        m.state(k, i, tuple(sorted(log[-1][1].items())), len(repr(out[0])))
    out = []
    if not any(o is None or isinstance(o, gdspy.Curve) for o in objs):
        for o in objs:
            c = gdspy.Cell("a", exclude_from_current=True)
            c.add(o)
            f = io.BytesIO()
            c.to_gds(f, 1000, timestamp=c31.TIME)
            out.append(f.getvalue())
        m.check(len(out[0]) == len(out[1]) and near(out[0], out[1]), "same-bytes", "%s is written differently: %r and %r" % (k, out[0][:200], out[1][:200]))


def near(a, b):
    """Records equal, coordinates to one unit."""
    ra, rb = list(gds.records(a)), list(gds.records(b))
    if len(ra) != len(rb):
        return False
    for (t, x), (u, y) in zip([(r[0], r[2]) for r in ra], [(r[0], r[2]) for r in rb]):
        if t != u or len(x) != len(y):
            return False
        if x != y:
            if t == 0x10:
                p, q = np.frombuffer(x, ">i4"), np.frombuffer(y, ">i4")
                if np.abs(p.astype(float) - q).max() > 1:
                    return False
            else:
                return False
    return True


def look(o):
    if isinstance(o, gdspy.Curve):
        return snap.snap(o.get_points())
    if isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)):
        return [snap.snap(o), snap.snap(o.get_polygons())]
    if isinstance(o, (gdspy.CellReference, gdspy.CellArray)):
        return c31.everything(o)[:1] + [snap.attrs(o, type(o).__name__)]
    if isinstance(o, gdspy.PolygonSet):
        return [snap.snap(o), o.area(), snap.snap(o.get_bounding_box())]
    return snap.snap(o)


def apply(name):
    def f(o, **kw):
        r = getattr(o, name)(**kw)
        return None
    return f


def moves(rng, names):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        n = rng.choice(names)
        c = {"center": (whole(rng), whole(rng))} if rng.random() < 0.5 else {}
        if n == "translate":
            out.append((apply(n), {"dx": whole(rng), "dy": whole(rng)}))
        elif n == "rotate":
            out.append((apply(n), dict(c, angle=rng.choice([1.0, 2.0, 0.5]))))
        elif n == "scale":
            out.append((apply(n), dict(c, scalex=rng.choice([2.0, -3.0, 0.5]), **({"scaley": rng.choice([1.0, 2.0, 0.5])} if rng.random() < 0.5 else {}))))
        elif n == "pscale":
            out.append((apply("scale"), dict(c, scale=rng.choice([2.0, 3.0, 0.5]))))
        elif n == "mirror":
            out.append((apply(n), {"p1": (whole(rng), 3.0), "p2": (whole(rng), -4.0)}))
        elif n == "fillet":
            out.append((apply(n), {"radius": rng.choice([1.0, 2.0]), "points_per_2pi": rng.choice([16, 64])}))
        elif n == "fracture":
            out.append((apply(n), {"max_points": rng.choice([5, 20])}))
    return out


SETMOVES = ["translate", "rotate", "scale", "mirror", "fillet", "fracture"]


def intpoly(rng):
    return [(float(round(x)), float(round(y))) for x, y in c31.npoly(rng, rng.choice([3, 4, 6, 12]), 20)]


def p_set(rng):
    return [(lambda o, **kw: gdspy.PolygonSet(**kw), {"polygons": [intpoly(rng) for _ in range(rng.choice([1, 2]))], "layer": 3})] + moves(rng, SETMOVES)


def p_polygon(rng):
    if rng.random() < 0.3:
        return [(lambda o, **kw: gdspy.Rectangle(**kw), {"point1": (whole(rng), -10.0), "point2": (12.0, whole(rng))})] + moves(rng, SETMOVES)
    return [(lambda o, **kw: gdspy.Polygon(**kw), {"points": intpoly(rng), "datatype": 3})] + moves(rng, SETMOVES)


def p_path(rng):
    steps = [(lambda o, **kw: gdspy.Path(**kw), {"width": rng.choice([1.0, 2.0]), "initial_point": (whole(rng), whole(rng)), "number_of_paths": rng.choice([1, 2]), "distance": 3.0})]
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            steps.append((apply("segment"), {"length": rng.choice([3.0, 7.0]), "direction": rng.choice(["+x", "-y", 1.0]), "final_width": rng.choice([1.0, 2.0])}))
        elif rng.random() < 0.5:
            steps.append((apply("turn"), {"radius": rng.choice([9.0, 11.0]), "angle": rng.choice(["l", 1.0, -2.0])}))
        else:
            steps.append((apply("bezier"), {"points": [(3.0, whole(rng)), (9.0, whole(rng))], "final_distance": 4.0}))
        if rng.random() < 0.3:
            steps += moves(rng, ["translate", "rotate", "mirror"])
    return steps


def p_curve(rng):
    z = rng.random() < 0.3
    p = lambda: (whole(rng), whole(rng))
    steps = [(lambda o, **kw: gdspy.Curve(**kw), {"x": whole(rng), "y": whole(rng)})]

    def put(name):
        def f(o, points, **kw):
            # complex numbers, pairs or coordinates one by one
            q = [v for x in points for v in ([x] if z and rng.random() < 0.5 else x)]
            q = [complex(*x) if hasattr(x, "__len__") else x for x in q]
            getattr(o, name)(*q)
        return f

    for _ in range(rng.choice([1, 2, 4])):
        k = rng.choice("LlCcSsQqTtarcbi")
        if k in "Ll":
            steps.append((put(k), {"points": [p(), p()]}))
        elif k in "CcSsQq":
            n = {"c": 3, "s": 2, "q": 2}[k.lower()]
            steps.append((put(k), {"points": [p() for _ in range(n)]}))
        elif k in "Tt":
            steps.append((put(k), {"points": [p()]}))
        elif k in "arc":
            steps.append((apply("arc"), {"radius": rng.choice([3.0, (3.0, 2.0)]), "initial_angle": rng.choice([0.0, 1.0]), "final_angle": rng.choice([2.0, 4.0])}))
        elif k == "i":
            steps.append((apply("i"), {"points": [(4.0, whole(rng)), (9.0, whole(rng))], "curl_start": 1.0}))
        else:
            steps.append((put(rng.choice("Bb")), {"points": [p(), p(), p(), p()]}))
    return steps


def sections(rng):
    steps = []
    for _ in range(rng.choice([0, 1, 2])):
        k = rng.choice(["segment", "turn", "arc", "bezier", "smooth"])
        steps.append((apply(k), {
            "segment": {"end_point": (40.0 + whole(rng), whole(rng)), "relative": rng.random() < 0.5, "width": rng.choice([1.0, 2.0])},
            "turn": {"radius": 12.0, "angle": rng.choice([1.0, -2.0, "r"])}, "arc": {"radius": 12.0, "initial_angle": 1.0, "final_angle": rng.choice([2.0, 3.0]), "offset": rng.choice([0.0, 1.0])},
            "bezier": {"points": [(11.0, whole(rng)), (22.0, whole(rng))]}, "smooth": {"points": [(11.0, whole(rng)), (22.0, whole(rng))], "curl_start": 1.0, "t_in": 1.0}}[k]))
    return steps


def p_flex(rng):
    pts = [(0.0, whole(rng)), (20.0, whole(rng)), (35.0, whole(rng))]
    n = rng.choice([1, 2])
    a = {"points": pts, "width": rng.choice([1.0, 2.0]) if n == 1 else [1.0, 2.0], "corners": rng.choice(["natural", "miter", "bevel", "round", "circular bend"]), "ends": rng.choice(["flush", "round", "extended"]), "layer": 2}
    if n == 2:
        a["offset"] = 3.0
    if a["corners"] == "circular bend":
        a["bend_radius"] = 2.0
    if rng.random() < 0.3:
        a["gdsii_path"] = True
    return [(lambda o, **kw: gdspy.FlexPath(**kw), a)] + sections(rng) + moves(rng, ["translate", "rotate", "pscale"])


def p_robust(rng):
    n = rng.choice([1, 2])
    a = {"initial_point": (whole(rng), whole(rng)), "width": rng.choice([1.0, 2.0]) if n == 1 else [1.0, 2.0], "ends": rng.choice(["flush", "round", "extended"])}
    if n == 2:
        a["offset"] = 3.0
    if rng.random() < 0.3:
        a["gdsii_path"] = True
    return [(lambda o, **kw: gdspy.RobustPath(**kw).segment((30, 5)), a)] + sections(rng) + moves(rng, ["translate", "rotate", "pscale"])


def p_label(rng):
    return [(lambda o, **kw: gdspy.Label("x", **kw), {"position": (whole(rng), whole(rng)), "rotation": rng.choice([90.0, 30.0]), "magnification": 2.0, "layer": 3})] + moves(rng, ["translate"])


def p_ref(rng):
    make = c31.tree(rng)
    return [(lambda o, **kw: gdspy.CellReference(make()[2], **kw), {"origin": (whole(rng), whole(rng)), "rotation": rng.choice([90.0, 30.0]), "magnification": 2.0})] + moves(rng, ["translate"])


def p_array(rng):
    make = c31.tree(rng)
    return [(lambda o, **kw: gdspy.CellArray(make()[2], **kw), {"columns": 2, "rows": 3, "spacing": (30.0, 40.0), "origin": (whole(rng), whole(rng)), "rotation": rng.choice([90.0, 30.0]), "magnification": 2.0})] + moves(rng, ["translate"])
