"""C11: fracture and max_points."""
import math

import gdspy
import numpy as np

import gen
import geom

RULE = (
    "Polygon sets with several layers and datatypes, from triangles to thousands of vertices (saw teeth and lattices included, whose "
    "vertices share coordinates), are fractured with limits from 5 up; the same limits are given to the constructors that take "
    "max_points. Non-trivial: at least one polygon had to be cut; distinct by limit, shape, number of pieces."
)
ASSUMPTIONS = ["Points closer than 4 grid units to an edge are not judged.", "Polygons of fewer than 4 grid units across are not generated."]
CPU_LIMIT = 30


def cases(tier):
    k = 1 if tier == "quick" else 25
    return [("random", 200 * k), ("hostile", 160 * k), ("big", 40 * k), ("constructors", 90 * k), ("limits", 40 * k)]


def hostile(rng):
    """Shapes whose vertices share few coordinates."""
    n = rng.choice([3, 5, 10, 40])
    t = rng.randrange(5)
    if t == 0:
        p = []
        for i in range(n):
            p += [(0, 2 * i), (0, 2 * i + 1), (1, 2 * i + 1.5)]
        p = p[:-1] + [(rng.choice([100, 1000]), n)]
    elif t == 1:  # comb with all the tips aligned
        p = [(0, 0)]
        for i in range(n):
            p += [(5, i), (0.5, i + 0.5)]
        p += [(5, n), (0, n)]
    elif t == 2:  # crenellation
        p = [(0, 0)]
        for i in range(n):
            p += [(2 * i, 1), (2 * i, 2), (2 * i + 1, 2), (2 * i + 1, 1)]
        p += [(2 * n, 1), (2 * n, 0)]
        p = p[0:1] + p[1:]
    elif t == 3:  # needle fan: many vertices on the same vertical line
        p = [(-50, 0)]
        for i in range(2 * n):
            p += [(0 if i % 2 else -1, i - n)]
        p = [p[0]] + p[1:]
    else:  # crosses and plus signs
        k = rng.choice([6, 12])
        p = []
        for i in range(4 * k):
            a = 2 * math.pi * i / (4 * k)
            r = 10 if (i // 2) % 2 else 4
            p.append((round(r * math.cos(a), 2), round(r * math.sin(a), 2)))
    p = np.array(p, dtype=float)
    if rng.random() < 0.5:
        p = p[:, ::-1]
    p = p * rng.choice([1.0, -1.0, 0.1, 3.7])
    return p


def wavy(rng, n):
    t = 2 * math.pi * np.arange(n) / n
    r = 10 + rng.uniform(0, 3) * np.cos(rng.choice([3, 7, 20]) * t)
    return np.stack([r * np.cos(t), r * np.sin(t)], 1) + [rng.uniform(-20, 20), rng.uniform(-20, 20)]


def judge(m, rng, before, after, limit, precision, tag, layers=None, n=60):
    """before: [(layer, datatype, polygon)], after: PolygonSet."""
    R = after.polygons
    m.require(len(after.layers) == len(R) and len(after.datatypes) == len(R), "aligned", "%d polygons, %d layers, %d datatypes" % (len(R), len(after.layers), len(after.datatypes)))
    if limit > 4:
        m.check(max([0] + [len(p) for p in R]) <= limit, "limit", "%s: a polygon has %d points, the limit is %d" % (tag, max([0] + [len(p) for p in R]), limit), polygons=[p for _, _, p in before])
    margin = 4 * precision
    allp = [p for _, _, p in before] + [np.asarray(p) for p in R]
    pts = geom.sample_points(rng, allp, margin, n, max_edges=150)
    specs = sorted(set((l, d) for l, d, _ in before) | set(zip(after.layers, after.datatypes)))
    for spec in specs:
        want = geom.cover_count([p for l, d, p in before if (l, d) == spec], pts)
        got = geom.cover_count([p for l, d, p in zip(after.layers, after.datatypes, R) if (l, d) == spec], pts)
        m.seen("region", len(pts))
        bad = np.flatnonzero(want != got)
        if len(bad):
            m.violate("region", "%s: spec %s covers %s %d times, %d before" % (tag, spec, pts[bad[0]].tolist(), got[bad[0]], want[bad[0]]),
                      polygons=[(l, d, p.tolist()) for l, d, p in before][:6], limit=limit, precision=precision)
    a = sum(abs(geom.signed_area(p)) for _, _, p in before)
    b = sum(abs(geom.signed_area(p)) for p in R)
    per = sum(geom.perimeter(p) for p in allp)
    m.check(abs(a - b) <= 2 * precision * per + 1e-9 * a, "area", "%s: area %g became %g" % (tag, a, b), polygons=[p for _, _, p in before][:3], limit=limit)
    return len(R)


def run_case(kind, index, rng, m):
    precision = rng.choice([1e-3, 1e-3, 1e-2, 1e-4])
    limit = rng.choice([5, 5, 6, 7, 8, 12, 20, 50, 199])
    m.ctx(limit=limit, precision=precision)
    if kind == "constructors":
        return constructors(index, rng, m)
    if kind == "limits":
        polys = [gen.polygon(rng) for _ in range(3)] + [wavy(rng, 300)]
        limit = rng.choice([0, 1, 4, -1])
        ps = gdspy.PolygonSet(polys, 5, 6)
        r = ps.fracture(limit, precision)
        m.check(len(ps.polygons) == 4 and all(np.array_equal(a, b) for a, b in zip(ps.polygons, polys)), "no-limit", "fracture(%d) changed the polygons" % limit)
        m.check(r is ps, "returns-self", "fracture returned %r" % r)
        return
    if kind == "random":
        polys = gen.polygons(rng, rng.choice([1, 2, 4]))
        limit = rng.choice([5, 6, 7, 8, 10, 20])
    elif kind == "hostile":
        polys = [hostile(rng) for _ in range(rng.choice([1, 2]))]
        limit = rng.choice([5, 5, 6, 7, 8, 12])
    else:
        polys = [wavy(rng, rng.choice([500, 2000, 9000])) for _ in range(rng.choice([1, 2]))]
        limit = rng.choice([20, 60, 199, 1000])
        precision = 1e-4
    if any(geom.crossings(p) for p in polys if len(p) < 400):
        m.skip("crossing")
        return
    tags = [(gen.layer(rng), gen.datatype(rng)) for _ in polys]
    if rng.random() < 0.3 or len(polys) == 1:
        tags = [tags[0]] * len(polys)
    ps = gdspy.PolygonSet(polys, 0, 0)
    ps.layers = [t[0] for t in tags]
    ps.datatypes = [t[1] for t in tags]
    before = [(t[0], t[1], p.copy()) for t, p in zip(tags, polys)]
    r = ps.fracture(limit, precision)
    m.check(r is ps, "returns-self", "fracture returned %r" % r)
    n = judge(m, rng, before, ps, limit, precision, kind)
    if max(len(p) for p in polys) > limit:
        m.state(kind, limit, n, [len(p) for p in polys], len(set(tags)))
        m.count("polygons cut")
    m.sample({"sizes": [len(p) for p in polys], "limit": limit, "pieces": n})


def constructors(index, rng, m):
    """The same limit reached through the other interfaces."""
    limit = rng.choice([5, 8, 20, 50])
    t = index % 7
    pr = 1e-3
    if t == 0:
        kw = dict(inner_radius=rng.choice([0, 0, 3.0]), number_of_points=400)
        if rng.random() < 0.5:
            kw.update(initial_angle=0.3, final_angle=0.3 + rng.uniform(0.5, 5))
        a = gdspy.Round((rng.uniform(-5, 5), 1), 7.0, max_points=0, layer=3, datatype=9, **kw)
        r = gdspy.Round(tuple(a.polygons[0][0] * 0), 7.0, max_points=limit, layer=3, datatype=9, **kw)
        a = gdspy.Round((0, 0), 7.0, max_points=0, layer=3, datatype=9, **kw)
        tag = "Round"
    elif t in (1, 2):
        pts = [(0, 0), (20, 0), (20, 10), (3, 12)]
        kw = dict(width=[1.0, 0.5], offset=[-1.0, 1.5], corners=rng.choice(["round", "natural"]), ends=rng.choice(["round", "flush"]), layer=[1, 2], datatype=[3, 4])
        a = gdspy.FlexPath(pts, max_points=0, **kw)
        r = gdspy.FlexPath(pts, max_points=limit, **kw)
        if t == 2:
            a, r = [gdspy.FlexPath(pts[:2], 2.0, ends="round", max_points=k, layer=1, datatype=3) for k in (0, limit)]
        tag = "FlexPath"
        g = r.get_polygons(True)
        for spec, want in a.get_polygons(True).items():
            m.check(max(len(p) for p in g[spec]) <= limit, "limit", "FlexPath.get_polygons gives %d points (limit %d)" % (max(len(p) for p in g[spec]), limit))
        if rng.random() < 0.5:
            a = a.to_polygonset()
            r = r.to_polygonset()
        else:
            a, r = from_dict(a.get_polygons(True)), from_dict(g)
    elif t == 3:
        def mk(k):
            p = gdspy.RobustPath((0, 0), [1.0, 0.5], [-1.0, 1.5], ends="round", layer=[1, 2], datatype=[3, 4], max_points=k)
            return p.segment((10, 0)).turn(6, "l").segment((-8, 3), 0.7, relative=True)
        a, r = mk(0), mk(limit)
        if rng.random() < 0.5:
            a, r = a.to_polygonset(), r.to_polygonset()
        else:
            a, r = from_dict(a.get_polygons(True)), from_dict(r.get_polygons(True))
        tag = "RobustPath"
    elif t == 4:
        pts = gen.polygon(rng, kinds=["rect", "stairs", "comb"], decorate=False)
        a = gdspy.PolygonSet([pts], 4, 5).fillet(0.1, max_points=0, points_per_2pi=200)
        r = gdspy.PolygonSet([pts], 4, 5).fillet(0.1, max_points=limit, points_per_2pi=200)
        tag = "fillet"
    elif t == 5:
        def mk(k):
            p = gdspy.Path(1.0, (0, 0), number_of_paths=2, distance=2.0)
            p.segment(5, "+x", layer=[1, 2], datatype=[5, 6])
            if k is not None:
                p.turn(6, "l", number_of_points=300, max_points=k, layer=[1, 2], datatype=[5, 6])
                p.parametric(lambda u: (4 * u, 3 * u * u), number_of_evaluations=199, max_points=k, layer=[1, 2], datatype=[5, 6])
            return p
        a, r = mk(0), mk(limit)
        tag = "Path"
    else:
        c = gen.polygon(rng, kinds=["circle"], decorate=False)
        a = gdspy.offset([c], 1.0, join="round", tolerance=100, max_points=0)
        r = gdspy.offset([c], 1.0, join="round", tolerance=100, max_points=limit)
        tag = "offset"
    before = [(l, d, np.array(p)) for l, d, p in zip(a.layers, a.datatypes, a.polygons)]
    judge(m, rng, before, r, limit, pr, tag)
    m.state("constructors", tag, limit, len(r.polygons))


def from_dict(d):
    ps = gdspy.PolygonSet([])
    for (l, t), polys in d.items():
        for p in polys:
            ps.polygons.append(p)
            ps.layers.append(l)
            ps.datatypes.append(t)
    return ps
