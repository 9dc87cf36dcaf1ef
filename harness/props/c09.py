"""C09: slice."""
import gdspy
import numpy as np

import gen
import geom
import operands

RULE = (
    "Generated operands are sliced on either axis at 1-6 positions (inside, outside and on the extremes of the polygons, repeated, "
    "unsorted). For every slab the number of result polygons over a point must be that of the operand. Non-trivial: at least two "
    "slabs are not empty; distinct by axis, number of cuts, pattern of empty slabs, operand types."
)
ASSUMPTIONS = ["Points closer than 4 grid units to an edge or cut are not judged."]


def cases(tier):
    k = 1 if tier == "quick" else 30
    return [("single", 300 * k), ("several", 150 * k), ("operands", 120 * k), ("scale", 80 * k), ("aligned", 120 * k)]


def run_case(kind, index, rng, m):
    precision = rng.choice([1e-3, 1e-3, 1e-2, 1e-5])
    arg = None
    s = 10.0
    if kind == "single":
        polys = [gen.polygon(rng)]
        arg = [polys[0]] if rng.random() < 0.5 else gdspy.Polygon(polys[0])
    elif kind == "several":
        polys = gen.polygons(rng, rng.choice([2, 3, 6]))
        arg = list(polys) if rng.random() < 0.5 else gdspy.PolygonSet(polys)
    elif kind == "operands":
        arg, polys, _ = operands.make(rng, 6.0)
    elif kind == "aligned":
        polys = gen.polygons(rng, rng.choice([1, 2]), kinds=["rect", "stairs", "comb", "saw", "spiral", "keyhole"], snap=0.25)
        arg = list(polys)
        precision = 1e-3
    else:
        s, precision = rng.choice([(1e4, 1e-3), (1e-3, 1e-7), (1e5, 1e-2), (4e3, 1e-6)])
        polys = [gen.polygon(rng, s=s)]
        arg = list(polys)
    axis = rng.randrange(2)
    lo, hi = geom.bbox(polys)
    c0, c1 = lo[axis], hi[axis]
    vals = np.concatenate(polys)[:, axis]
    pos = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        t = rng.random()
        if kind == "aligned" and t < 0.8:
            pos.append(float(vals[rng.randrange(len(vals))]))
        elif t < 0.75:
            pos.append(rng.uniform(c0, c1))
        elif t < 0.85:
            pos.append(float(vals[rng.randrange(len(vals))]))
        elif t < 0.95:
            pos.append(rng.choice([c0 - rng.uniform(0.01, 1) * s, c1 + rng.uniform(0.01, 1) * s]))
        else:
            pos.append(pos[-1] if pos else float(c0))
    scalar = len(pos) == 1 and rng.random() < 0.6
    lay = rng.choice([gen.layer(rng), [gen.layer(rng) for _ in range(rng.choice([1, 2, 3]))]])
    dt = rng.choice([gen.datatype(rng), [gen.datatype(rng) for _ in range(rng.choice([1, 2, 3]))]])
    given = pos[0] if scalar else list(pos)
    r = gdspy.slice(arg, given, axis, precision=precision, layer=lay, datatype=dt)
    m.check(scalar or given == pos, "positions-untouched", "the list of positions was changed")
    cuts = sorted(pos)
    m.require(len(r) == len(cuts) + 1, "one-set-per-slab", "%d sets for %d cuts" % (len(r), len(cuts)))
    margin = 4 * precision
    allp = list(polys) + [p for x in r if x is not None for p in x.polygons]
    pts = geom.sample_points(rng, allp, margin, 60)
    # points hugging the cuts
    g = gen.npr(rng)
    extra = lo + (hi - lo) * g.random_sample((20 * len(cuts), 2))
    extra[:, axis] = np.repeat(cuts, 20) + np.tile([1, -1], 10 * len(cuts)) * margin * (1.2 + 3 * g.random_sample(20 * len(cuts)))
    extra = extra[geom.dist_to_edges(allp, extra) > margin]
    pts = np.concatenate([pts, extra])
    pts = pts[np.min(np.abs(pts[:, axis][:, None] - np.array(cuts)[None, :]), 1) > margin]
    slab = np.searchsorted(cuts, pts[:, axis])
    want = geom.cover_count(polys, pts)
    for i, x in enumerate(r):
        R = [] if x is None else x.polygons
        got = geom.cover_count(R, pts)
        w = np.where(slab == i, want, 0)
        m.seen("slab-pointwise", len(pts))
        bad = np.flatnonzero(got != w)
        if len(bad):
            b = bad[0]
            m.violate(
                "slab-pointwise",
                "slab %d covers %s %d times instead of %d (point in slab %d, axis %d)" % (i, pts[b].tolist(), got[b], w[b], slab[b], axis),
                polygons=polys, positions=pos, axis=axis, precision=precision, result=R,
            )
        if x is not None:
            m.require(isinstance(x, gdspy.PolygonSet) and len(R) > 0, "result-type", repr(x))
            ll = lay if isinstance(lay, list) else [lay]
            dd = dt if isinstance(dt, list) else [dt]
            m.check(
                list(x.layers) == [ll[i % len(ll)]] * len(R) and list(x.datatypes) == [dd[i % len(dd)]] * len(R),
                "tags",
                "slab %d has layers %r and datatypes %r, asked for %r and %r" % (i, x.layers, x.datatypes, lay, dt),
            )
    a = sum(abs(geom.signed_area(p)) for p in polys)
    b = sum(abs(geom.signed_area(p)) for x in r if x is not None for p in x.polygons)
    tol = 2 * precision * (sum(geom.perimeter(p) for p in polys) + len(polys) * len(cuts) * float(max(hi - lo))) + 1e-9 * a
    if not any(geom.crossings(p) for p in polys):
        m.check(abs(a - b) <= tol, "area", "area %g became %g (tolerance %g)" % (a, b, tol), polygons=polys, positions=pos, axis=axis)
    empties = tuple(x is None for x in r)
    if empties.count(False) > 1:
        m.state(kind, axis, len(cuts), empties, type(arg).__name__, len(polys))
    m.sample({"polygons": [p.tolist() for p in polys][:1], "positions": pos, "axis": axis})
