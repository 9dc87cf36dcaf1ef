"""C12: hierarchy queries equal the naive expansion."""
import copy

import gdspy
import numpy as np

import geom
import hier

RULE = (
    "Random hierarchies (shared and nested cells, references and arrays with every transformation, references to missing cells) are "
    "queried at every level and depth, whole, by layer and datatype and for one pair, and compared with a recursive expansion of the "
    "public attributes; then they are flattened. Non-trivial: the expansion has more polygons than the cell itself; distinct by the "
    "shape of the hierarchy, depth and query."
)
ASSUMPTIONS = [
    "Shapes of paths in a cell are those of FlexPath/RobustPath.to_polygonset (judged by C18 and C19).",
    "Paths here have no asymmetric offsets (those are judged by C17).",
]
VARIANTS = ["plain"]
REQUIRED = ["polygons-all", "polygons-by-spec", "polygons-one-spec", "below-depth-box", "polygonsets", "paths", "area", "layers", "flatten-polygons"]


def cases(tier):
    k = 4 if tier == "quick" else 60
    return [("query", 160 * k), ("flatten", 120 * k), ("deep", 12 * k)]


def flat(d):
    return [(k, p) for k in d for p in d[k]]


def set_polys(ps):
    return [((l, d), np.array(p, dtype=float)) for p, l, d in zip(ps.polygons, ps.layers, ps.datatypes)]


def match(got, want, tol, m, clause, what, **kw):
    """Multisets of (key, polygon)."""
    msg = None
    if len(got) != len(want):
        msg = "%d polygons, expected %d" % (len(got), len(want))
    elif not all(a[0] == b[0] and geom.close_polys(a[1], b[1], tol) for a, b in zip(got, want)):
        bad = geom.match_multiset(got, want, lambda a, b: a[0] == b[0] and geom.same_shape(a[1], b[1], tol))
        if bad:
            msg = "differs from the expansion: %s" % ([None if x is None else (x[0], x[1][:6].tolist()) for x in bad],)
    return m.check(msg is None, clause, "%s: %s" % (what, msg), **kw)


def describe(cells):
    return [
        dict(name=c.name, polygons=len(c.polygons), paths=len(c.paths), labels=len(c.labels),
             refs=[dict(to=getattr(r.ref_cell, "name", r.ref_cell), origin=list(r.origin), rot=r.rotation, mag=r.magnification, x=r.x_reflection,
                        arr=[r.columns, r.rows, list(r.spacing)] if isinstance(r, gdspy.CellArray) else None) for r in c.references])
        for c in cells
    ]


def same_path(rng, p, q, want, tol, rtol):
    """q is a returned path, want the polygons expected of it."""
    if list(q.layers) != list(p.layers) or list(q.datatypes) != list(p.datatypes) or type(q) is not type(p) or q.properties != p.properties:
        return False
    ps = copy.deepcopy(q).to_polygonset()
    got = set_polys(ps)
    if len(got) == len(want) and geom.match_multiset(got, want, lambda a, b: a[0] == b[0] and geom.same_shape(a[1], b[1], tol)) is None:
        return True
    if rtol is None:
        return False
    a, b = [x for _, x in got], [x for _, x in want]
    ba, bb = geom.bbox(a), geom.bbox(b)
    if max(np.abs(ba[0] - bb[0]).max(), np.abs(ba[1] - bb[1]).max()) > rtol:
        return False
    pts = geom.sample_points(rng, b, rtol, 40, 60)
    return bool(np.all(geom.contains(a, pts) == geom.contains(b, pts)))


def check_paths(rng, m, ex, got, inst, tol, clause, what):
    want = []
    for mp, p in inst:
        mag = abs(np.linalg.det(mp)) ** 0.5
        rtol = None if isinstance(p, gdspy.FlexPath) else 4 * p.tolerance * max(1, mag)
        want.append((p, [(k, geom.apply(mp, q)) for k, q in ex.path_polys(p)], rtol))
    if not m.check(len(got) == len(want), clause, "%s: %d paths, expected %d" % (what, len(got), len(want))):
        return
    bad = geom.match_multiset(got, want, lambda q, w: same_path(rng, w[0], q, w[1], tol, w[2]))
    m.check(bad is None, clause, "%s: path differs from the transformed one" % what, bad=None if bad is None else [repr(b)[:300] for b in bad])


def run_case(kind, index, rng, m):
    cells, c = hier.hierarchy(rng, n=rng.choice([6, 8]) if kind == "deep" else None)
    top = cells[-1] if rng.random() < 0.8 else rng.choice(cells)
    ex = hier.Expansion()
    full = ex.polys(top)
    tol = 1e-8 * max(hier.span(full), c.s)
    m.ctx(hierarchy=describe(cells), top=top.name)
    m.count("expanded polygons", len(full))
    m.sample(dict(hierarchy=describe(cells)[:3], expanded=len(full)))
    if kind == "flatten":
        return flatten(rng, m, cells, top, ex, full, tol)
    target = top
    if top.references and rng.random() < 0.4:
        target = rng.choice(top.references)
    isref = target is not top
    depths = [None, 0, 1, 2, 3, -1]
    for depth in depths if kind == "query" else [None, rng.choice(depths)]:
        want = ex.ref_polys(target, depth) if isref else ex.polys(top, depth)
        kw = {} if depth is None else dict(depth=depth)
        specs = [(k, p) for k, p in want if isinstance(k, tuple)]
        boxes = [(k, p) for k, p in want if not isinstance(k, tuple)]
        m.state(len(cells), isref, type(target).__name__, depth, len(boxes) > 0, len(want) > len(ex.own(top)), min(len(want), 40))
        got = target.get_polygons(**kw)
        m.check(isinstance(got, list), "polygons-all", "get_polygons() is %s" % type(got))
        match([(0, np.asarray(p)) for p in got], [(0, p) for _, p in want], tol, m, "polygons-all", "get_polygons(depth=%s)" % depth)
        d = target.get_polygons(True, **kw)
        match([(k, np.asarray(p)) for k, p in flat(d)], want, tol, m, "polygons-by-spec", "get_polygons(True, depth=%s)" % depth)
        if boxes:
            m.seen("below-depth-box", len(boxes))
        keys = sorted({k for k, _ in specs})
        for key in (rng.sample(keys, min(3, len(keys)))) + [(77, 78)]:
            g = target.get_polygons(key, **kw)
            m.check(isinstance(g, list), "polygons-one-spec", "get_polygons(%s, depth=%s) is %s" % (key, depth, type(g)))
            match([(key, np.asarray(p)) for p in g], [x for x in specs if x[0] == key], tol, m, "polygons-one-spec", "get_polygons(%s, depth=%s)" % (key, depth))
        if depth is None or depth >= 0:
            inst = ex.ref_elements(target, "polygons", depth) if isref else ex.elements(top, "polygons", depth)
            sets = target.get_polygonsets(**kw)
            if m.check(len(sets) == len(inst), "polygonsets", "%d sets, expected %d (depth %s)" % (len(sets), len(inst), depth)):
                bad = geom.match_multiset(
                    sets, inst,
                    lambda s, i: s.properties == i[1].properties and len(s.polygons) == len(i[1].polygons)
                    and all(a[0] == (l, dt) and geom.same_shape(a[1], geom.apply(i[0], p), tol) for a, p, l, dt in zip(set_polys(s), i[1].polygons, i[1].layers, i[1].datatypes)))
                m.check(bad is None, "polygonsets", "polygon set differs from the transformed one (depth %s)" % depth)
            inst = ex.ref_elements(target, "paths", depth) if isref else ex.elements(top, "paths", depth)
            check_paths(rng, m, ex, target.get_paths(**kw), inst, tol, "paths", "get_paths(depth=%s)" % depth)
    # areas
    want = ex.ref_polys(target) if isref else full
    per = {}
    for k, p in want:
        per[k] = per.get(k, 0.0) + abs(geom.signed_area(p))
    tot = sum(per.values())
    a = target.area()
    m.check(abs(a - tot) <= 1e-7 * max(tot, c.s ** 2), "area", "area() is %r, expected %r" % (a, tot))
    by = target.area(True)
    m.check({k for k in by if by[k] > 0} <= set(per) and all(abs(by.get(k, 0) - v) <= 1e-7 * max(v, c.s ** 2) for k, v in per.items()), "area",
            "area(True) is %r, expected %r" % (by, per))
    # sets
    below = list(ex.cells_below(top).values())
    everything = [top] + below
    lays = {l for x in everything for e in x.polygons + x.paths for l in e.layers} | {e.layer for x in everything for e in x.labels}
    dts = {l for x in everything for e in x.polygons + x.paths for l in e.datatypes}
    tts = {e.texttype for x in everything for e in x.labels}
    m.check(top.get_layers() == lays, "layers", "get_layers() %s, expected %s" % (top.get_layers(), lays))
    m.check(top.get_datatypes() == dts, "datatypes", "get_datatypes() %s, expected %s" % (top.get_datatypes(), dts))
    m.check(top.get_texttypes() == tts, "texttypes", "get_texttypes() %s, expected %s" % (top.get_texttypes(), tts))
    m.check(top.get_dependencies(True) == set(below), "dependencies", "get_dependencies(True)")
    m.check(top.get_dependencies() == set(ex.cells_below(top, False).values()), "dependencies", "get_dependencies()")


def flatten(rng, m, cells, top, ex, full, tol):
    fl = rng.choice([None, None, 0, 9])
    fd = rng.choice([None, None, 0, 8])
    ft = rng.choice([None, None, 0, 7])
    for k, p in full:
        pass
    want = [((k[0] if fl is None else fl, k[1] if fd is None else fd), p) for k, p in full]
    psets = [(mp, e, list(e.layers), list(e.datatypes), [np.array(p) for p in e.polygons]) for mp, e in ex.elements(top, "polygons")]
    labs = [(geom.apply(mp, [e.position])[0], e.text, e.anchor, fl if fl is not None else e.layer, ft if ft is not None else e.texttype, dict(e.properties)) for mp, e in ex.elements(top, "labels")]
    robust = any(isinstance(p, gdspy.RobustPath) and not np.allclose(mp, np.eye(3)) for mp, p in ex.elements(top, "paths"))
    paths = [(mp, p, copy.deepcopy(p)) for mp, p in ex.elements(top, "paths")]
    poly_want = [((l if fl is None else fl, d if fd is None else fd), geom.apply(mp, p)) for mp, _, ls, ds, ps in psets for l, d, p in zip(ls, ds, ps)]
    args = [fl, fd, ft]
    m.ctx(args=args)
    m.state(len(cells), args, robust, len(full) > 20, len(labs) > 0, len(top.references))
    if rng.random() < 0.5:
        # answers given before must not survive
        top.get_polygons(rng.random() < 0.5)
        top.get_bounding_box()
    r = top.flatten(*args)
    m.check(r is top, "flatten-returns", "flatten returns %r" % (r,))
    m.check(top.references == [], "flatten-references", "references left")
    got = [x for ps in top.polygons for x in set_polys(ps)]
    m.check(all(isinstance(x, gdspy.PolygonSet) for x in top.polygons), "flatten-polygons", "types")
    match(got, poly_want, tol, m, "flatten-polygons", "polygons after flatten%s" % args)
    ex2 = hier.Expansion()
    copies = []
    for mp, p, q in paths:
        q.layers = [l if fl is None else fl for l in q.layers]
        q.datatypes = [l if fd is None else fd for l in q.datatypes]
        copies.append((mp, q))
    check_paths(rng, m, ex2, top.paths, copies, tol, "flatten-paths", "paths after flatten%s" % args)
    gl = [(np.array(l.position, dtype=float), l.text, l.anchor, l.layer, l.texttype, dict(l.properties)) for l in top.labels]
    bad = geom.match_multiset(gl, labs, lambda a, b: np.abs(a[0] - b[0]).max() <= tol and a[1:] == b[1:]) if len(gl) == len(labs) else "%d labels, expected %d" % (len(gl), len(labs))
    m.check(bad is None, "flatten-labels", "labels after flatten%s: %s" % (args, repr(bad)[:600]))
    if not robust:
        g = [(k, np.asarray(p)) for k, p in flat(top.get_polygons(True))]
        match(g, want, tol, m, "flatten-layout", "layout after flatten%s" % args)
    others = [x for x in cells if x is not top]
    m.check(all(not x.references or all(not isinstance(r.ref_cell, gdspy.Cell) or r.ref_cell in cells for r in x.references) for x in others), "flatten-others", "other cells")
