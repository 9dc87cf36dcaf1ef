"""Operands of every type the geometric operations accept, with the polygons
(computed here) they stand for."""
import gdspy
import numpy as np

import gen
import geom


def single(rng, s):
    """(object, polygons, tag) for something accepted where polygons are."""
    t = rng.choice(["array", "list", "Polygon", "PolygonSet", "Rectangle", "FlexPath", "RobustPath", "CellReference", "CellArray"])
    if t == "array":
        p = gen.polygon(rng, s=s)
        return p, [p], t
    if t == "list":
        p = gen.polygon(rng, s=s)
        return [tuple(q) for q in p.tolist()], [p], t
    if t == "Polygon":
        p = gen.polygon(rng, s=s)
        return gdspy.Polygon(p, 3, 4), [p], t
    if t == "PolygonSet":
        ps = gen.polygons(rng, rng.choice([1, 2, 3]), s=s)
        return gdspy.PolygonSet(ps), ps, t
    if t == "Rectangle":
        x, y, w, h = [rng.uniform(-s, s) for _ in range(4)]
        if min(abs(w), abs(h)) < 0.1:
            w = h = 0.7 * s
        return gdspy.Rectangle((x, y), (x + w, y + h)), [np.array([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])], t
    if t in ("FlexPath", "RobustPath"):
        x, y, dx, dy = [rng.uniform(-s, s) for _ in range(4)]
        if np.hypot(dx, dy) < 0.3:
            dx = 0.5 * s
        w = rng.uniform(0.1, 0.3) * s
        l = np.hypot(dx, dy)
        n = np.array((-dy, dx)) / l * w / 2
        a, b = np.array((x, y)), np.array((x + dx, y + dy))
        want = [np.array([a + n, a - n, b - n, b + n])]
        if t == "FlexPath":
            return gdspy.FlexPath([(x, y), (x + dx, y + dy)], w), want, t
        return gdspy.RobustPath((x, y), w).segment((x + dx, y + dy)), want, t
    ps = gen.polygons(rng, rng.choice([1, 2]), s=s * 0.6)
    cell = gdspy.Cell("C%d" % rng.randrange(10 ** 6), exclude_from_current=True)
    for p in ps:
        cell.add(gdspy.Polygon(p))
    o = (rng.uniform(-s, s), rng.uniform(-s, s))
    rot = rng.choice([None, 90, 33.0, -120])
    mag = rng.choice([None, 0.5, 1.5])
    xr = rng.random() < 0.5
    if t == "CellReference":
        M = geom.a_ref(o, rot, mag, xr)
        return gdspy.CellReference(cell, o, rot, mag, xr), [geom.apply(M, p) for p in ps], t
    c, r = rng.choice([1, 2]), rng.choice([1, 3])
    sp = (rng.uniform(0.3, 1) * s, rng.uniform(0.3, 1) * s)
    want = []
    for i in range(c):
        for j in range(r):
            M = geom.a_ref(o, rot, mag, xr, (i * sp[0], j * sp[1]))
            want += [geom.apply(M, p) for p in ps]
    return gdspy.CellArray(cell, c, r, sp, o, rot, mag, xr), want, t


def make(rng, s):
    """(operand, polygons, tag): a single object or a list of them."""
    if rng.random() < 0.4:
        while True:
            o, ps, t = single(rng, s)
            if t not in ("array", "list"):
                return o, ps, t
    n = rng.choice([1, 2, 3, 4])
    objs, polys, tags = [], [], []
    for _ in range(n):
        o, ps, t = single(rng, s)
        objs.append(o)
        polys += ps
        tags.append(t)
    return objs, polys, "[" + ",".join(sorted(set(tags))) + "]"


def empty(rng):
    k = rng.randrange(4)
    if k == 0:
        return None
    if k == 1:
        return []
    if k == 2:
        return gdspy.PolygonSet([])
    return gdspy.CellReference(gdspy.Cell("E", exclude_from_current=True))
