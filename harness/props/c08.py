"""C08: offset, against the distance to the operand."""
import math

import gdspy
import numpy as np

import gen
import geom
import operands

RULE = (
    "Generated simple polygons (one, several disjoint, several overlapping, or one cut in adjacent slabs) are offset outwards and "
    "inwards with every join, several tolerances and precisions. Every judged point is compared with its distance to the "
    "operand. Non-trivial: the result is not empty and differs from the operand; distinct by join, sign, ratio of distance to "
    "size, number of result vertices."
)
ASSUMPTIONS = [
    "Miter and bevel joins may extend beyond the distance near vertices (up to the miter limit, resp. sqrt(2) times); that zone is not judged.",
    "Points closer than 4 grid units to the decision boundary are not judged.",
]
CPU_LIMIT = 40


def cases(tier):
    k = 1 if tier == "quick" else 25
    return [("single", 260 * k), ("several", 100 * k), ("overlap", 80 * k), ("slabs", 100 * k), ("operands", 60 * k), ("vanish", 40 * k), ("scale", 80 * k)]


def field(rng, polys, d, n=120):
    """Points around the boundary, at distances near |d|."""
    g = gen.npr(rng)
    a, b = geom.edges(polys)
    v = b - a
    l = np.hypot(v[:, 0], v[:, 1])
    a, v, l = a[l > 0], v[l > 0], l[l > 0]
    nrm = np.stack([-v[:, 1], v[:, 0]], 1) / l[:, None]
    pts = []
    for f in (0.0, 0.3, 0.8, 0.95, 0.99, 1.01, 1.05, 1.2, 1.45, 1.6, 2.1, 3.2):
        i = g.randint(len(a), size=max(10, n // 6))
        m = a[i] + g.random_sample((len(i), 1)) * v[i]
        pts += [m + f * abs(d) * nrm[i], m - f * abs(d) * nrm[i]]
        i = g.randint(len(a), size=max(10, n // 8))
        t = g.random_sample(len(i)) * 2 * math.pi
        pts.append(a[i] + f * abs(d) * np.stack([np.cos(t), np.sin(t)], 1))
    lo, hi = geom.bbox(polys)
    e = 2.5 * abs(d) + 0.1 * (hi - lo)
    pts.append(lo - e + (hi - lo + 2 * e) * g.random_sample((n, 2)))
    return np.concatenate(pts)


def judge(m, rng, polys, d, join, tol, precision, result, tag, union=None):
    """polys: the polygons offset each on its own; union: their union, if it is offset as one."""
    R = [] if result is None else result.polygons
    src = polys if union is None else union
    pts = field(rng, src, d)
    margin = 4 * precision
    a = abs(d)
    k = {"round": 1.0, "bevel": math.sqrt(2), "miter": max(2.0, tol)}[join]
    # a chord spans up to 1.5 steps: the arc is divided in a rounded number of steps
    inner = a * math.cos(1.5 * math.pi / tol) if join == "round" else a
    if d >= 0:
        dist = np.where(geom.contains(src, pts), 0.0, geom.dist_to_edges(src, pts))
        must = dist < inner - margin
        mustnt = dist > k * a + margin
        # inside for sure: well inside one polygon
    else:
        must = np.zeros(len(pts), dtype=bool)
        mustnt = np.ones(len(pts), dtype=bool)
        for p in src:
            inp = geom.contains([p], pts)
            dist = geom.dist_to_edges([p], pts)
            must |= inp & (dist > k * a + margin)
            mustnt &= ~inp & (dist > margin) | (dist < inner - margin) & (a > 2 * margin)
            # a point outside but hugging the boundary is outside as well
    edge_ok = geom.dist_to_edges(R, pts) > margin if len(R) else np.ones(len(pts), dtype=bool)
    must &= edge_ok
    mustnt &= edge_ok
    got = geom.cover_count(R, pts)
    m.seen("reaches-distance", int(must.sum()))
    m.seen("not-beyond-distance", int(mustnt.sum()))
    det = dict(polygons=polys, distance=d, join=join, tolerance=tol, precision=precision, result=R)
    bad = np.flatnonzero(must & (got == 0))
    if len(bad):
        m.violate("reaches-distance", "%s: %s is within the offset by %g (%s) but not in the result" % (tag, pts[bad[0]].tolist(), d, join), **det)
    bad = np.flatnonzero(mustnt & (got > 0))
    if len(bad):
        m.violate("not-beyond-distance", "%s: %s is out of the offset by %g (%s) but in the result" % (tag, pts[bad[0]].tolist(), d, join), **det)
    bad = np.flatnonzero((got > 1) & edge_ok)
    m.seen("disjoint", int(edge_ok.sum()))
    if len(bad):
        m.violate("disjoint", "%s: result polygons overlap at %s" % (tag, pts[bad[0]].tolist()), **det)
    return got


def spread(rng, n, s):
    out = []
    for i in range(n):
        p = gen.polygon(rng, s=s, kinds=KINDS)
        lo, hi = geom.bbox([p])
        c = np.array([(i % 3) * 6.0 * s, (i // 3) * 6.0 * s])
        out.append(p - (lo + hi) / 2 + c)
    return out


KINDS = ["rect", "star", "convex", "stairs", "comb", "spiral", "circle", "saw"]


def run_case(kind, index, rng, m):
    precision = rng.choice([1e-3, 1e-3, 1e-4])
    s = 10.0
    d = rng.choice([0.01, 0.05, 0.2, 0.5, 1.0, 3.0]) * rng.choice([1, 1, -1])
    union = None
    join_first = rng.random() < 0.3
    arg = None
    if kind == "single":
        polys = [gen.polygon(rng, s=s, kinds=KINDS)]
    elif kind == "several":
        polys = spread(rng, rng.choice([2, 3, 5]), s)
        d = math.copysign(min(abs(d), 1.0), d)
    elif kind == "overlap":
        polys = gen.polygons(rng, rng.choice([2, 3]), s=5.0, kinds=KINDS)
        d = abs(d)
        union = polys
    elif kind == "slabs":
        # a monotone polygon cut in adjacent slabs
        x = sorted(rng.sample(range(-20, 21), rng.choice([3, 4, 6])))
        y0, y1 = sorted((rng.uniform(-9, -1), rng.uniform(1, 9)))
        polys = [np.array([(a, y0), (b, y0), (b, y1), (a, y1)], dtype=float) for a, b in zip(x, x[1:])]
        if rng.random() < 0.5:
            polys = [p[:, ::-1].copy() for p in polys]
        whole = np.array([geom.bbox(polys)[i][j] for i, j in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 0), (0, 1), (0, 0), (1, 1))])
        lo, hi = geom.bbox(polys)
        whole = np.array([lo, (hi[0], lo[1]), hi, (lo[0], hi[1])])
        d = rng.choice([0.3, 0.6, 1.2]) * rng.choice([1, -1])
        join_first = rng.random() < 0.6
        if join_first or d > 0:
            union = [whole]
    elif kind == "operands":
        arg, polys, _ = operands.make(rng, 4.0)
        if any(geom.crossings(p) or repeated(p) for p in polys):
            polys = [gen.polygon(rng, s=4.0, kinds=KINDS)]
            arg = gdspy.PolygonSet(polys)
        d = abs(d)
        union = polys
    elif kind == "vanish":
        polys = [gen.polygon(rng, s=s, kinds=KINDS)]
        lo, hi = geom.bbox(polys)
        d = -0.51 * float(min(hi - lo)) - 0.01
    else:
        s, precision = rng.choice([(1e3, 1e-3), (1e5, 1e-2), (1e-3, 1e-7), (1.0, 1e-6)])
        polys = [gen.polygon(rng, s=s, kinds=KINDS)]
        d *= s / 10.0
    join = rng.choice(["miter", "bevel", "round"])
    tol = rng.choice([2, 3, 5]) if join == "miter" else rng.choice([16, 32, 64, 128])
    mp = rng.choice([199, 199, 0, 20])
    lay, dt = gen.layer(rng), gen.datatype(rng)
    r = gdspy.offset(polys if arg is None else arg, d, join=join, tolerance=tol, precision=precision, join_first=join_first, max_points=mp, layer=lay, datatype=dt)
    tag = "%s, join_first=%s" % (kind, join_first)
    judge(m, rng, polys, d, join, tol, precision, r, tag, union)
    if kind == "vanish":
        m.check(r is None, "vanishes", "nothing should be left after offset by %g" % d, polygons=polys, result=None if r is None else r.polygons)
    if r is not None:
        m.require(isinstance(r, gdspy.PolygonSet), "result-type", repr(type(r)))
        m.check(list(r.layers) == [lay] * len(r.polygons) and list(r.datatypes) == [dt] * len(r.polygons), "tags", "layers %r datatypes %r" % (r.layers, r.datatypes))
        if mp:
            m.check(max(len(p) for p in r.polygons) <= mp, "max-points", "%d points (limit %d)" % (max(len(p) for p in r.polygons), mp))
        m.state(kind, join, d > 0, join_first, round(math.log10(abs(d) / s), 1), sum(len(p) for p in r.polygons))
    # nothing to offset: as if the boundary were the decision
    if index % 10 == 0 and kind == "single":
        z = gdspy.offset(polys, 0, join=join, tolerance=tol, precision=precision)
        judge(m, rng, polys, 0.0, join, tol, precision, z, "distance 0")
        m.check(z is not None, "zero", "offset by 0 gave nothing", polygons=polys)
    m.sample({"polygons": [p.tolist() for p in polys][:1], "distance": d, "join": join})


def repeated(p):
    """Key-hole: a vertex visited twice that is not a plain repetition."""
    q = [tuple(np.round(v, 9)) for v in p]
    q = [v for i, v in enumerate(q) if v != q[i - 1]]
    return len(set(q)) != len(q)
