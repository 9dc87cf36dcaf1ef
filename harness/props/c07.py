"""C07: boolean operations, point by point."""
import json
import math
import os

import gdspy
import numpy as np

import gen
import geom
import operands

RULE = (
    "Two operands of 1-6 generated polygons each (rectangles, stars, combs, spirals, key-hole frames, lattice polygons with "
    "coincident edges, nested frames, coordinates up to 1e5 units, given as arrays, lists, polygon sets, paths or references) "
    "go through or/and/xor/not. A case is non-trivial when the operands' bounding boxes overlap and the result's region "
    "differs from both; distinct by operation, operand types, and size of the result."
)
ASSUMPTIONS = [
    "Operand polygons are weakly simple (no self-crossing), as GDSII requires.",
    "Points closer than 4 grid units to an edge of an operand or of the result are not judged.",
]

OPS = {
    "or": lambda a, b: a | b,
    "and": lambda a, b: a & b,
    "xor": lambda a, b: a ^ b,
    "not": lambda a, b: a & ~b,
}


# Inputs for which the library is known to be wrong (KNOWN_FINDINGS.txt).
KNOWN = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "c07_known.json")))


def cases(tier):
    k = 1 if tier == "quick" else 25
    return [
        ("random", 220 * k),
        ("lattice", 220 * k),
        ("octilinear", 100 * k),
        ("nested", 80 * k),
        ("scale", 120 * k),
        ("operands", 120 * k),
        ("empty", 60 * k),
        ("selfoverlap", 60 * k),
        ("dense", 16 * k),
        ("many", 40 * (k if k == 1 else 100)),
        ("known", len(KNOWN)),
    ]


def lattice_poly(rng, n, shapes):
    """Octilinear polygon on the integers: all the intersections are on the grid."""
    k = rng.choice(shapes)
    x, y = rng.randint(-n, n), rng.randint(-n, n)
    u, v = rng.randint(1, n), rng.randint(1, n)
    if k == "rect":
        p = [(x, y), (x + u, y), (x + u, y + v), (x, y + v)]
    elif k == "diamond":
        p = [(x, y), (x + u, y + u), (x + u - v, y + u + v), (x - v, y + v)]
    elif k == "tri":
        p = [(x, y), (x + u, y), (x, y + u)]
        if rng.random() < 0.5:
            p = [(x, y), (x + 2 * u, y), (x + u, y + u)]
    elif k == "stairs":
        p = gen.stairs(rng, 40.0)
        p = [(round(a / 40.0 * n), round(b / 40.0 * n)) for a, b in p]
        if geom.crossings(p) or abs(geom.signed_area(p)) < 0.5 or spike(np.array(p, dtype=float)):
            p = [(x, y), (x + u, y), (x + u, y + v), (x, y + v)]
    else:
        p = [(x + u, y), (x + u + v, y), (x + 2 * u + v, y + u), (x + 2 * u + v, y + u + v), (x + u + v, y + 2 * u + v), (x + u, y + 2 * u + v), (x, y + u + v), (x, y + u)]
    p = np.array(p, dtype=float) * rng.choice([(1, 1), (1, -1), (-1, 1), (-1, -1)])
    return np.roll(p[:: rng.choice([1, -1])], rng.randrange(len(p)), 0)


def spike(p):
    """True if a vertex lies on another edge (possible overlap) or edges fold back."""
    a, b = p, np.roll(p, -1, 0)
    for i in range(len(p)):
        for j in range(len(p)):
            if j == i or (j + 1) % len(p) == i:
                continue
            if geom.dist_to_segments(a[j : j + 1], b[j : j + 1], p[i : i + 1])[0] < 1e-9:
                return True
    return False


def judge(m, rng, A, B, op, precision, result, tag, n_random=80):
    """The point-by-point oracle."""
    margin = 4 * precision
    if result is None:
        R = []
    else:
        m.require(isinstance(result, gdspy.PolygonSet), "result-type", "boolean gave %r" % type(result))
        R = result.polygons
    allp = [p for p in list(A) + list(B) + list(R) if len(p)]
    pts = geom.sample_points(rng, allp, margin, n_random)
    ina, inb = geom.contains(A, pts), geom.contains(B, pts)
    want = OPS[op](ina, inb)
    got = geom.cover_count(R, pts)
    sig = known(result) if tag.split()[0] in TOUCHING else {}
    bad = np.flatnonzero((got > 0) != want)
    m.seen("pointwise", len(pts))
    if len(bad):
        i = bad[0]
        m.violate(
            "pointwise",
            "%s (%s): point %s is %s the result, but %s operand 1 and %s operand 2"
            % (op, tag, pts[i].tolist(), "in" if got[i] else "outside", "in" if ina[i] else "outside", "in" if inb[i] else "outside"),
            A=A, B=B, op=op, precision=precision, result=R, wrong=len(bad), of=len(pts), **sig
        )
    over = np.flatnonzero(got > 1)
    m.seen("disjoint", len(pts))
    if len(over):
        m.violate("disjoint", "%s (%s): result polygons overlap at %s" % (op, tag, pts[over[0]].tolist()), A=A, B=B, op=op, precision=precision, result=R, **sig)
    return pts, want, got


def total_area(ps):
    return 0.0 if ps is None else sum(abs(geom.signed_area(p)) for p in ps.polygons)


def cells(A, B, op):
    """Unit cells of the result, for operands on the integer lattice."""
    lo, hi = geom.bbox(list(A) + list(B))
    x, y = np.meshgrid(np.arange(math.floor(lo[0]), math.ceil(hi[0])) + 0.5, np.arange(math.floor(lo[1]), math.ceil(hi[1])) + 0.5)
    c = np.stack([x.ravel(), y.ravel()], 1)
    return int(np.sum(OPS[op](geom.contains(A, c), geom.contains(B, c))))


def known(*results):
    """The signature of a known finding, if one of the results is a polygon that
    winds both ways (lobes of opposite orientation joined at a vertex)."""
    for r in results:
        for p in [] if r is None else r.polygons:
            lo, hi = geom.bbox([p])
            g = np.random.RandomState(1).random_sample((2000, 2)) * (hi - lo) + lo
            w = geom.winding(p, g)
            if (w > 0).any() and (w < 0).any():
                return {"sig": "touching-lobes-region"}
    return {}


def areas(m, A, B, precision, res, tag):
    """Inclusion-exclusion between the four results."""
    if tag == "lattice":
        # The cells of the lattice give exact areas.
        for k, r in res.items():
            want = cells(A, B, k)
            got = 0 if r is None else sum(cells([p], [], "or") for p in r.polygons)
            m.check(want == got, "lattice-cells", "%s covers %d unit cells instead of %d" % (k, got, want), A=A, B=B, **known(r))
    per = sum(geom.perimeter(p) for p in list(A) + list(B)) + 1e-12
    nv = sum(len(p) for p in list(A) + list(B)) + sum(len(p) for r in res.values() if r is not None for p in r.polygons)
    tol = 2.0 * precision * per + 50 * precision * precision * nv + 1e-9 * sum(abs(geom.signed_area(p)) for p in list(A) + list(B))
    a = {k: total_area(v) for k, v in res.items()}
    na, nb = gdspy.boolean(A, B, "not", precision), gdspy.boolean(B, A, "not", precision)
    sig = known(na, nb, *res.values()) if tag in TOUCHING else {}
    m.check(abs(a["or"] - a["and"] - a["xor"]) <= tol, "area-or=and+xor", "%s: %s (tolerance %g)" % (tag, a, tol), A=A, B=B, **sig)
    ra, rb = total_area(na), total_area(nb)
    m.check(abs(a["xor"] - ra - rb) <= tol, "area-xor=a-b+b-a", "%s: xor %g, differences %g and %g (tolerance %g)" % (tag, a["xor"], ra, rb, tol), A=A, B=B, **sig)
    if len(A) == 1 and len(B) == 1:
        s = abs(geom.signed_area(A[0])) + abs(geom.signed_area(B[0]))
        m.check(abs(a["or"] + a["and"] - s) <= tol, "area-or+and=a+b", "%s: %s, operands %g (tolerance %g)" % (tag, a, s, tol), A=A, B=B, **sig)


TOUCHING = ("lattice", "octilinear")  # operands that share vertices and edges


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def meet(a, b, c, d):
    """Whether segments (on the integers) have a point in common."""
    o = [(x > 0) - (x < 0) for x in (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b))]
    if o[0] * o[1] > 0 or o[2] * o[3] > 0:
        return False
    if not any(o):
        return all(max(min(a[i], b[i]), min(c[i], d[i])) <= min(max(a[i], b[i]), max(c[i], d[i])) for i in (0, 1))
    return True


def simple(p):
    n = len(p)
    if n < 3 or len(set(p)) < n or any(orient(p[i - 2], p[i - 1], p[i]) == 0 for i in range(n)):
        return False
    return not any(meet(p[i], p[i + 1], p[j], p[(j + 1) % n]) for i in range(n) for j in range(i + 2, n) if (j + 1) % n != i)


def small(rng, g, form):
    """A simple polygon with few vertices on a small grid."""
    while True:
        x, y = rng.randrange(g), rng.randrange(g)
        if form == 0:
            u, v = x + rng.randrange(1, 4), y + rng.randrange(1, 4)
            return [(x, y), (u, y), (u, v), (x, v)]
        if form == 1:
            p = [(rng.randrange(g), rng.randrange(g)) for _ in range(rng.randrange(3, 8))]
        else:
            p = []
            for i in range(rng.randrange(2, 6)):
                p.append((x, y))
                x = rng.randrange(g)
                p.append((x, y))
                y = rng.randrange(g)
        if simple(p):
            return p


def many(rng, m, listed=None):
    """Many operations among small polygons that share coordinates, vertices and edges."""
    precision = 1e-3
    for _ in range(1 if listed else 50):
        g, form = rng.choice([3, 4, 6, 10]), rng.randrange(4)
        A, B = [[small(rng, g, form if form < 3 else rng.randrange(3)) for _ in range(rng.randrange(1, 6))] for _ in range(2)]
        op = rng.choice(sorted(OPS))
        if listed:
            A, B, op = listed["A"], listed["B"], listed["op"]
        m.ctx(A=A, B=B, op=op)
        r = gdspy.boolean(A, B, op, precision, rng.choice([199, 0]))
        R = [] if r is None else r.polygons
        lo, hi = geom.bbox(A + B)
        pts = lo - 0.3 + np.random.random_sample((250, 2)) * (hi - lo + 0.6)
        want = OPS[op](geom.contains(A, pts), geom.contains(B, pts))
        got = geom.cover_count(R, pts)
        m.seen("pointwise", len(pts))
        bad = np.flatnonzero((got > 0) != want)
        bad = bad[geom.dist_to_edges(A + B + list(R), pts[bad]) > 4 * precision] if len(bad) else bad
        over = np.flatnonzero(got > 1)
        over = over[geom.dist_to_edges(list(R), pts[over]) > 4 * precision] if len(over) else over
        sig = known(r)
        if len(bad) and not sig and len(bad) == len(over) and (bad == over).all() and not want[bad].any() and (got[bad] == 2).all():
            sig = {"sig": "hole-as-polygon"}
        for b, clause, what in ((bad, "pointwise", "is wrong"), (over, "disjoint", "is in several polygons")):
            if len(b):
                m.violate(clause, "%s: point %s %s" % (op, pts[b[0]].tolist(), what), result=R, wrong=len(b), of=len(pts), **sig)
        if want.any() and not want.all():
            m.state("many", op, g, form, len(A), len(B), sum(len(p) for p in R))


def run_case(kind, index, rng, m):
    if kind == "many":
        return many(rng, m)
    precision = 1e-3
    tag = kind
    if kind == "random":
        A = gen.polygons(rng, rng.choice([1, 1, 2, 3, 5]), s=10.0)
        B = gen.polygons(rng, rng.choice([1, 1, 2, 4]), s=10.0)
        precision = rng.choice([1e-3, 1e-3, 1e-4, 1e-2])
    elif kind == "lattice":
        # coincident edges and shared vertices
        n = rng.choice([2, 3, 5, 8])
        shapes = ["rect", "rect", "rect", "stairs"]
        A = [lattice_poly(rng, n, shapes) for _ in range(rng.choice([1, 2, 3, 6]))]
        B = [lattice_poly(rng, n, shapes) for _ in range(rng.choice([1, 2, 3, 6]))]
        precision = rng.choice([1e-3, 1e-2])
    elif kind == "octilinear":
        n = rng.choice([2, 3, 5, 8])
        shapes = ["rect", "diamond", "tri", "stairs", "octagon"]
        A = [lattice_poly(rng, n, shapes) for _ in range(rng.choice([1, 1, 2]))]
        B = [lattice_poly(rng, n, shapes)]
    elif kind == "nested":
        A, B = [], []
        c = np.array([rng.uniform(-50, 50), rng.uniform(-50, 50)])
        r = 10.0
        levels = rng.choice([2, 3, 5])
        shape = rng.choice([3, 4, 6, 24])
        ph = rng.uniform(0, 6)
        for i in range(levels):
            t = ph + 2 * math.pi * np.arange(shape) / shape
            p = c + r * np.stack([np.cos(t), np.sin(t)], 1)
            (A if i % 2 == 0 else B).append(p)
            r *= rng.uniform(0.2, 0.42)
        if rng.random() < 0.5:  # several holes side by side, some sharing a coordinate
            A = [np.array([(0, 0), (20, 0), (20, 12), (0, 12)], dtype=float) + np.round(c)]
            B = []
            for i in range(rng.choice([1, 2, 3, 6])):
                w, h = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
                x, y = rng.randint(0, 17), rng.randint(0, 9)
                if rng.random() < 0.5:
                    q = np.array([(x, y), (x + w, y), (x + w, y + h), (x, y + h)], dtype=float)
                else:
                    q = np.array([(x, y + h / 2.0), (x + w / 2.0, y), (x + w, y + h / 2.0), (x + w / 2.0, y + h)])
                B.append(q + np.round(c))
    elif kind == "scale":
        s, precision = rng.choice([(1e3, 1e-3), (1e5, 1e-3), (1e-3, 1e-7), (10.0, 1e-6), (1e-2, 1e-5), (4e3, 1e-6), (1e4, 1e-2)])
        A = gen.polygons(rng, rng.choice([1, 2]), s=s)
        B = gen.polygons(rng, rng.choice([1, 2]), s=s)
        tag = "size %g precision %g" % (s, precision)
    elif kind in ("operands", "empty"):
        return other(kind, index, rng, m)
    elif kind == "selfoverlap":
        # overlapping polygons within one operand
        base = gen.polygon(rng, s=6.0, kinds=["rect", "stairs", "comb", "spiral", "keyhole"])
        A = [base, base + 0.0, gen.polygon(rng, s=6.0)]
        B = [gen.polygon(rng, s=6.0)]
        if rng.random() < 0.5:
            B.append(base[::-1].copy())
    elif kind == "known":
        w = KNOWN[index]
        if w["sig"] == "hole-as-polygon":
            return many(rng, m, w)
        A, B = [np.array(p) for p in w["A"]], [np.array(p) for p in w["B"]]
        precision = w["precision"]
        m.ctx(sig=w["sig"])
    else:  # dense
        A = [gen.circle(rng, 8.0) for _ in range(10)]
        A = [np.array(p) for p in A]
        B = gen.polygons(rng, 10, s=8.0)
    m.ctx(kind=kind)
    res = {}
    for op in ("or", "and", "xor", "not"):
        mp = 0 if kind == "known" else rng.choice([199, 199, 0, 5, 20])
        lay, dt = gen.layer(rng), gen.datatype(rng)
        f = gdspy.fast_boolean if index % 7 == 3 else gdspy.boolean  # the old name
        r = f(A, B, op, precision, mp, lay, dt)
        pts, want, got = judge(m, rng, A, B, op, precision, r, "%s max_points=%d" % (tag, mp))
        res[op] = r
        if r is not None:
            m.check(list(r.layers) == [lay] * len(r.polygons), "layer", "layers %r, asked for %d" % (r.layers, lay))
            m.check(list(r.datatypes) == [dt] * len(r.polygons), "datatype", "datatypes %r, asked for %d" % (r.datatypes, dt))
            if mp > 4:
                m.check(max(len(p) for p in r.polygons) <= mp, "max-points", "a polygon has %d points (limit %d)" % (max(len(p) for p in r.polygons), mp))
        if want.any() and not want.all():
            m.state(kind, op, len(A), len(B), 0 if r is None else sum(len(p) for p in r.polygons))
    areas(m, A, B, precision, res, tag)
    m.sample({"A": [p.tolist() for p in A][:2], "B": [p.tolist() for p in B][:2]})


def other(kind, index, rng, m):
    precision = 1e-3
    if kind == "operands":
        a, A, ta = operands.make(rng, 6.0)
        b, B, tb = operands.make(rng, 6.0)
        for op in OPS:
            r = gdspy.boolean(a, b, op, precision)
            judge(m, rng, A, B, op, precision, r, "operands %s, %s" % (ta, tb))
            m.state(kind, op, ta, tb)
        return
    # one operand (or both) empty
    a, A, ta = operands.make(rng, 6.0)
    e = operands.empty(rng)
    which = index % 3
    for op in OPS:
        if which == 0:
            args, X, Y = (a, e), A, []
        elif which == 1:
            args, X, Y = (e, a), [], A
        else:
            args, X, Y = (e, operands.empty(rng)), [], []
        r = gdspy.boolean(args[0], args[1], op, precision)
        m.state(kind, op, which, ta, type(e).__name__)
        if r is None and not X and not Y:
            m.seen("empty")
            continue
        if not A and which != 2:
            continue
        judge(m, rng, X, Y, op, precision, r, "empty operand, %s" % ["second", "first", "both"][which])
