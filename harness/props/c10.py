"""C10: inside."""
import gdspy
import numpy as np

import gen
import geom
import operands

RULE = (
    "Clouds of points around, in and hugging the edges of generated polygons are given to inside() as one list and as groups (any "
    "and all). Every judged answer is compared with an independent winding count. Non-trivial: the cloud has points in and out; "
    "distinct by shape of the query and number of polygons."
)
ASSUMPTIONS = ["Points closer than 4 grid units to an edge are not judged."]


def cases(tier):
    k = 1 if tier == "quick" else 40
    return [("points", 250 * k), ("groups", 250 * k), ("operands", 120 * k), ("scale", 80 * k)]


def run_case(kind, index, rng, m):
    precision = rng.choice([1e-3, 1e-3, 1e-2, 1e-5])
    s = 10.0
    if kind == "operands":
        arg, polys, tag = operands.make(rng, 6.0)
    else:
        if kind == "scale":
            s, precision = rng.choice([(1e4, 1e-3), (1e-3, 1e-7), (1e5, 1e-2), (4e3, 1e-6)])
        polys = gen.polygons(rng, rng.choice([1, 1, 2, 4, 8]), s=s)
        arg = rng.choice([list(polys), gdspy.PolygonSet(polys), [gdspy.Polygon(p) for p in polys]])
        tag = type(arg).__name__
    margin = 4 * precision
    pts = geom.sample_points(rng, polys, margin, 100)
    g = gen.npr(rng)
    lo, hi = geom.bbox(polys)
    far = np.stack([g.choice([-1, 1], 6), g.choice([-1, 1], 6)], 1) * (hi - lo) * 3 + (lo + hi) / 2
    # level with vertices of the polygons (hard for ray casting)
    v = np.concatenate(polys)
    lev = lo + (hi - lo) * g.random_sample((60, 2))
    i = g.randint(len(v), size=60)
    lev[:30, 1] = v[i[:30], 1]
    lev[30:, 0] = v[i[30:], 0]
    pts = np.concatenate([pts, far, lev])
    pts = pts[geom.dist_to_edges(polys, pts) > margin]
    g.shuffle(pts)
    want = geom.contains(polys, pts)
    if kind != "groups":
        given = rng.choice([pts, pts.tolist(), [tuple(p) for p in pts]])
        # short_circuit is only for groups
        r = gdspy.inside(given, arg, precision=precision)
        m.require(len(r) == len(pts), "one-answer-per-point", "%d answers for %d points" % (len(r), len(pts)))
        got = np.array([bool(x) for x in r])
        m.seen("point", len(pts))
        bad = np.flatnonzero(got != want)
        if len(bad):
            m.violate("point", "%s: inside says %s" % (pts[bad[0]].tolist(), got[bad[0]]), polygons=polys, precision=precision)
        if want.any() and not want.all():
            m.state(kind, tag, len(polys), len(pts))
    if kind in ("groups", "operands") and len(pts) > 3:
        groups, idx = [], []
        for _ in range(rng.choice([1, 2, 5, 12])):
            n = rng.choice([1, 1, 2, 3, 10])
            t = rng.random()
            pool = np.arange(len(pts))
            if t < 0.35 and want.any():
                pool = np.flatnonzero(want)
            elif t < 0.7 and not want.all():
                pool = np.flatnonzero(~want)
            k = [int(pool[rng.randrange(len(pool))]) for _ in range(n)]
            if rng.random() < 0.4:  # a single odd one among them
                k[rng.randrange(n)] = rng.randrange(len(pts))
            idx.append(k)
            groups.append(rng.choice([pts[k], pts[k].tolist()]))
        for mode, f in (("any", np.any), ("all", np.all)):
            r = gdspy.inside(groups, arg, short_circuit=mode, precision=precision)
            m.require(len(r) == len(groups), "one-answer-per-group", "%d answers for %d groups" % (len(r), len(groups)))
            for a, k in zip(r, idx):
                w = bool(f(want[k]))
                m.check(bool(a) == w, "group-" + mode, "group %s: inside says %s" % (pts[k].tolist(), a), polygons=polys, precision=precision)
            m.state(kind, mode, tag, len(polys), len(groups), sum(map(bool, r)))
    m.sample({"polygons": [p.tolist() for p in polys][:1], "points": pts[:3].tolist()})
