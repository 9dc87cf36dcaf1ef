"""C16: transformations of polygon sets."""
import copy
import math

import gdspy
import numpy as np

import geom
import hier
import libgen

RULE = (
    "Polygon sets of every class (generic, polygon, rectangle, round, text, path, L1 path, polyline path; integer and float points, mixed "
    "layers) go through random sequences of translation, rotation, scaling (uniform, anisotropic, negative) and mirroring about random "
    "centres and lines; after every step each vertex, layer, datatype, property, the areas and the bounding box are compared with the "
    "composed affine map. Paths are also continued after the transformation and compared with the transformed continuation. Non-trivial: "
    "at least one step is not the identity; distinct by class, steps and shape."
)
ASSUMPTIONS = [
    "The direction of paths is compared for similarities with positive scale only (documented: scaling leaves it).",
    "Self-intersecting polygons have the area of the shoelace formula.",
]
REQUIRED = ["vertices", "attributes", "area", "bounding-box", "path-state", "continued"]


def cases(tier):
    k = 40 if tier == "quick" else 600
    return [("chain", 200 * k), ("continue", 60 * k)]


def shape(rng, c):
    s = c.s
    k = rng.choice(["set", "set", "polygon", "int", "rect", "round", "ring", "text", "path", "l1", "poly", "lib"])
    lay, dt = hier.lay(rng), hier.lay(rng)
    if k == "lib":
        o = hier.polyset(rng, c)
    elif k == "set":
        n = rng.choice([1, 1, 2, 5])
        o = gdspy.PolygonSet([[c.pt(rng) for _ in range(rng.choice([3, 4, 7]))] for _ in range(n)], lay, dt)
        o.layers = [hier.lay(rng) for _ in range(n)]
        o.datatypes = [hier.lay(rng) for _ in range(n)]
    elif k == "polygon":
        o = gdspy.Polygon([c.pt(rng) for _ in range(rng.choice([3, 5, 12]))], lay, dt)
    elif k == "int":
        pts = [(rng.randrange(-50, 50), rng.randrange(-50, 50)) for _ in range(5)]
        o = gdspy.PolygonSet([np.array(pts)], lay, dt) if rng.random() < 0.5 else gdspy.Polygon(np.array(pts), lay, dt)
    elif k == "rect":
        o = gdspy.Rectangle(c.pt(rng), c.pt(rng), lay, dt)
    elif k == "round":
        o = gdspy.Round(c.pt(rng), rng.choice([0.3 * s, (0.3 * s, 0.5 * s)]), tolerance=0.02 * s, layer=lay, datatype=dt)
    elif k == "ring":
        o = gdspy.Round(c.pt(rng), 0.6 * s, 0.2 * s, rng.uniform(0, 1), rng.uniform(2, 5), tolerance=0.01 * s, max_points=rng.choice([20, 199]), layer=lay, datatype=dt)
    elif k == "text":
        o = gdspy.Text(rng.choice(["A", "g8", "X y"]), 0.5 * s, c.pt(rng), rng.random() < 0.7, rng.choice([0, 0.5]), lay, dt)
    elif k == "path":
        o = path(rng, c)
    elif k == "l1":
        n = rng.choice([0, 1, 3])
        o = gdspy.L1Path(c.pt(rng), rng.choice(["+x", "-x", "+y", "-y"]), 0.05 * s, [s * rng.uniform(0.3, 1) for _ in range(n + 1)], [rng.choice([1, -1]) for _ in range(n)], rng.choice([1, 2]), 0.1 * s, layer=lay, datatype=dt)
    else:
        o = gdspy.PolyPath(libgen.polyline(rng, c, 4), 0.05 * s, layer=lay, datatype=dt)
    if rng.random() < 0.4:
        o.properties = {1: "a", 20: "long value"}
    return o, k


def path(rng, c, n=None):
    s = c.s
    o = gdspy.Path(0.06 * s, c.pt(rng), n or rng.choice([1, 1, 2, 3]), 0.15 * s)
    o.segment(s * rng.uniform(0.3, 1), rng.choice(["+x", "-y", "+y", "-x", rng.uniform(-3, 3)]), layer=hier.lay(rng))
    for _ in range(rng.choice([0, 1, 2])):
        extend(rng, o, s, 1, 1, rng.randrange(4))
    return o


def extend(rng, o, s, f, sign, k, v=None):
    """One more section; f scales it and sign turns it."""
    v = v or [rng.uniform(0.3, 1), rng.uniform(0.2, 2.5) * rng.choice([1, -1]), rng.uniform(0.5, 1.5)]
    if k == 0:
        o.segment(f * s * v[0], layer=3)
    elif k == 1:
        o.turn(f * s * (0.4 + v[0]), sign * v[1], tolerance=f * 0.01 * s, layer=3)
    elif k == 2:
        o.segment(f * s * v[0], final_width=f * 0.06 * s * v[2], final_distance=f * 0.15 * s * v[2], layer=3)
    else:
        o.segment(f * s * v[0], final_width=f * 0.06 * s * v[2], layer=3)
    return v


def step(rng, o, c, similar=False):
    """Apply one operation; returns (description, map)."""
    s = c.s
    k = rng.choice(["translate", "rotate", "scale", "mirror"])
    ctr = rng.choice([None, c.pt(rng), list(c.pt(rng)), np.array(c.pt(rng))])
    cc = (0, 0) if ctr is None else ctr
    kw = {} if ctr is None else {"center": ctr}
    if k == "translate":
        d = rng.choice([c.pt(rng), c.pt(rng), (0, s), (-s, 0), (7, -3), (0, 0), (1e-4 * s, 0), (-3e-7 * s, 2e-5 * s), (40 * s, -s)])
        r = o.translate(*d)
        mp = geom.a_translate(*d)
        v = d
    elif k == "rotate":
        v = rng.choice([math.pi / 2, -math.pi / 2, math.pi, rng.uniform(-7, 7), rng.uniform(-7, 7), 0.0, rng.uniform(-100, 100), 1e-4, -1e-7, math.pi / 4, 0.75 * math.pi, math.pi / 6, 2 * math.pi, math.pi + 1e-5])
        r = o.rotate(v, **kw)
        mp = geom.a_about(geom.a_rotate(v), cc)
    elif k == "scale":
        v = rng.choice([2, 0.5, rng.uniform(0.3, 3), rng.uniform(0.3, 3), 1, 1.0001, 0.01, 20.0])
        if not similar:
            v = rng.choice([(v,), (-v,), (v, rng.uniform(0.3, 2)), (-v, 1), (1, -v), (v, v)])
        else:
            v = (v,)
        r = o.scale(*v, **kw)
        mp = geom.a_about(geom.a_scale(*v), cc)
    else:
        p1, p2 = c.pt(rng), c.pt(rng)
        if rng.random() < 0.3:
            p2 = (p1[0], p1[1] + s) if rng.random() < 0.5 else (p1[0] - s, p1[1])
        elif rng.random() < 0.4:
            # two points that are close together, or far away
            f = 10 ** rng.uniform(-7, 3)
            p2 = (p1[0] + f * rng.uniform(-s, s), p1[1] + f * rng.uniform(-s, s))
        if rng.random() < 0.3:
            r = o.mirror(p1)
            p2 = (0, 0)
        else:
            r = o.mirror(p1, p2)
        mp = geom.a_mirror(p1, p2)
        v = (p1, p2)
    return k, v, ctr, mp, r


def run_case(kind, index, rng, m):
    c = hier.C(rng.choice([1.0, 30.0, 1000.0]))
    if kind == "continue":
        return go_on(rng, m, c)
    o, k = shape(rng, c)
    pts = [np.array(p, dtype=float) for p in o.polygons]
    lays, dts, props = list(o.layers), list(o.datatypes), dict(o.properties)
    keep = [np.array(p) for p in o.polygons]
    arrays = list(o.polygons)
    state = (o.x, o.y) if isinstance(o, (gdspy.Path, gdspy.L1Path)) else None
    w = o.w if isinstance(o, gdspy.Path) else None
    total = geom.aff()
    similar = True
    steps = []
    dirv = None
    if state is not None:
        d = o.direction
        a = {"+x": 0, "+y": 0.5, "-x": 1, "-y": -0.5}[d] * math.pi if isinstance(d, str) else d
        dirv = np.array((math.cos(a), math.sin(a)))
    for _ in range(rng.choice([1, 1, 2, 4, 7])):
        op, v, ctr, mp, r = step(rng, o, c)
        steps.append((op, v, ctr))
        m.ctx(shape=k, start=[p[:5] for p in pts[:2]], steps=steps)
        total = mp @ total
        span = max([c.s] + [float(np.abs(p).max()) for p in pts if len(p)] + [float(np.abs(total).max()) * c.s])
        tol = 1e-9 * span * len(steps) * max(1.0, np.abs(total[:2, :2]).max())
        m.check(r is o, "returns-itself", "%s returned %r" % (op, type(r)))
        want = [geom.apply(total, p) for p in pts]
        ok = len(o.polygons) == len(want) and all(geom.close_polys(a, b, tol) for a, b in zip(o.polygons, want))
        m.check(ok, "vertices", "%s%s: vertices differ from the affine map" % (op, (v,)), got=[np.asarray(p)[:5] for p in o.polygons[:2]], want=[p[:5] for p in want[:2]])
        m.check(list(o.layers) == lays and list(o.datatypes) == dts and o.properties == props, "attributes", "layers, datatypes or properties changed by %s" % op)
        if state is not None:
            q = geom.apply(total, [state])[0]
            m.check(abs(o.x - q[0]) <= tol and abs(o.y - q[1]) <= tol, "path-state", "%s: position (%r, %r), expected %s" % (op, o.x, o.y, q))
            if op == "scale":
                similar = False
                w = None if w is None else w * v[0]
            if w is not None:
                m.check(abs(abs(o.w) - abs(w)) <= tol, "path-state", "%s: half-width %r, expected %r" % (op, o.w, w))
            if similar:
                e = total[:2, :2] @ dirv
                d = o.direction
                a = {"+x": 0, "+y": 0.5, "-x": 1, "-y": -0.5}[d] * math.pi if isinstance(d, str) else d
                m.check(abs(math.cos(a) - e[0]) < 1e-7 and abs(math.sin(a) - e[1]) < 1e-7, "path-state", "%s: direction %r, expected %s" % (op, d, e))
    m.state(k, [x[0] for x in steps], len(pts), len(pts[0]) if pts else 0)
    m.sample(dict(shape=k, steps=[x[:2] for x in steps]))
    for a, b in zip(arrays, keep):
        m.check(np.array_equal(a, b), "input-arrays", "the arrays the set had before were changed in place")
    # areas
    det = abs(np.linalg.det(total[:2, :2]))
    per, tot = {}, 0.0
    for p, l, d in zip(pts, lays, dts):
        a = abs(geom.signed_area(p)) * det
        per[(l, d)] = per.get((l, d), 0) + a
        tot += a
    g, by = o.area(), o.area(True)
    at = 1e-7 * tot + tol * span * 10
    m.check(abs(g - tot) <= at, "area", "area() %r, expected %r" % (g, tot))
    m.check(set(by) == set(per) and all(abs(by[x] - per[x]) <= at for x in per), "area", "area(True) %r, expected %r" % (by, per))
    b = o.get_bounding_box()
    if pts:
        lo, hi = geom.bbox([geom.apply(total, p) for p in pts])
        m.check(b is not None and np.shape(b) == (2, 2) and np.abs(b[0] - lo).max() <= tol and np.abs(b[1] - hi).max() <= tol, "bounding-box", "box %s, expected %s %s" % (b, lo, hi))
    else:
        m.check(b is None, "bounding-box", "box of an empty set is %s" % (b,))


def go_on(rng, m, c):
    """The continuation of a transformed path is the transformed continuation."""
    n = rng.choice([1, 1, 2, 3])
    a = path(rng, c, n)
    b = copy.deepcopy(a)
    total, f, sign, steps = geom.aff(), 1.0, 1, []
    for _ in range(rng.choice([1, 1, 2, 4])):
        op, v, ctr, mp, _ = step(rng, a, c, similar=True)
        steps.append((op, v, ctr))
        total = mp @ total
        f *= abs(np.linalg.det(mp[:2, :2])) ** 0.5
        sign *= 1 if np.linalg.det(mp[:2, :2]) > 0 else -1
    m.ctx(steps=steps, n=n)
    secs = []
    na, nb = len(a.polygons), len(b.polygons)
    for _ in range(rng.choice([1, 2])):
        k = rng.randrange(3)
        v = extend(rng, b, c.s, 1, 1, k)
        extend(rng, a, c.s, f, sign, k, v)
        secs.append((k, v))
    m.ctx(sections=secs)
    m.state([x[0] for x in steps], n, [x[0] for x in secs])
    got, want = a.polygons[na:], [geom.apply(total, p) for p in b.polygons[nb:]]
    span = max([c.s] + [float(np.abs(p).max()) for p in got + want])
    tol = 1e-7 * span
    if not m.check(len(got) == len(want), "continued", "%d new polygons, expected %d" % (len(got), len(want))):
        return
    bad = geom.match_multiset(got, want, lambda p, q: geom.same_shape(p, q, tol))
    m.check(bad is None, "continued", "sections added after the transformation differ from the transformed ones", bad=repr(bad)[:600])
    q = geom.apply(total, [(b.x, b.y)])[0]
    m.check(abs(a.x - q[0]) <= tol and abs(a.y - q[1]) <= tol, "continued", "end at (%r, %r), expected %s" % (a.x, a.y, q))
    m.check(abs(a.length - f * b.length) <= 1e-7 * span * 10, "continued", "length %r, expected %r" % (a.length, f * b.length))
    m.check(abs(a.w - f * b.w) <= tol and abs(a.distance - f * b.distance) <= tol, "continued", "half-width %r or distance %r, expected %r, %r" % (a.w, a.distance, f * b.w, f * b.distance))
