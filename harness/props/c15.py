"""C15: copies and removals."""
import copy
import math

import gdspy
import numpy as np

import gen
import geom
import hier
import snap
from props.c12 import check_paths, describe, set_polys

RULE = (
    "Cells of random hierarchies are copied (shallow, deep, with every combination of translation, rotation, scale and reflection, through "
    "gdspy.copy and through copy.deepcopy): the copy is compared with the mapped content, then everything reachable from the copy is changed "
    "and the original's fingerprint must stay, and the reverse. Polygons, paths and labels are removed by random conditions; what remains is "
    "compared with the filtered content and then put through other operations. Non-trivial: the cell has elements (copies) or the condition "
    "takes some and leaves some; distinct by kinds of elements, transformation and order."
)
ASSUMPTIONS = [
    "A deep copy refers to the same cells as the original (only elements are copied).",
    "Scale factors are positive (reflection has its own argument); transformed paths are judged by their polygons, with no asymmetric offsets here (C17 judges those).",
    "A polygon set that loses all its polygons leaves the cell.",
]
REQUIRED = ["copy-polygons", "copy-paths", "copy-labels", "copy-references", "copy-layout", "copy-independent", "shallow-shares", "remove-exact", "remove-others", "usable-after-removal", "object-copy"]
KINDS = ["poly", "poly", "flex", "robust", "label", "label", "ref", "ref", "ref"]
_N = [0]


def cases(tier):
    k = 12 if tier == "quick" else 120
    return [("copy", 150 * k), ("object", 120 * k), ("remove", 150 * k)]


def fresh():
    _N[0] += 1
    return "copy%d" % _N[0]


def lin(e):
    m = geom.a_scale(1 if e.magnification is None else e.magnification)
    if e.x_reflection:
        m = geom.a_scale(1, -1) @ m
    return geom.a_rotate(math.radians(e.rotation or 0)) @ m


def near(a, b, tol):
    return float(np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float)).max()) <= tol


def same_label(m, g, a, b, tol):
    return (
        isinstance(b, gdspy.Label) and near(b.position, geom.apply(g, [a["position"]])[0], tol) and near(lin(b)[:2, :2], (g @ a["lin"])[:2, :2], 1e-9 * (1 + np.abs(g[:2, :2]).max() * np.abs(a["lin"]).max()))
        and (b.text, b.anchor, b.layer, b.texttype) == a["rest"] and b.properties == a["props"]
    )


def label_state(l):
    return dict(position=np.array(l.position, dtype=float), lin=lin(l), rest=(l.text, l.anchor, l.layer, l.texttype), props=dict(l.properties))


def ref_state(r):
    arr = (r.columns, r.rows) if isinstance(r, gdspy.CellArray) else None
    return dict(maps=hier.maps(r), cell=r.ref_cell, arr=arr, props=dict(r.properties), type=type(r))


def same_ref(g, a, b, tol):
    if type(b) is not a["type"] or b.ref_cell is not a["cell"] or b.properties != a["props"]:
        return False
    if a["arr"] and (b.columns, b.rows) != a["arr"]:
        return False
    return all(near(x, g @ y, tol) for x, y in zip(hier.maps(b), a["maps"]))


def run_case(kind, index, rng, m):
    if kind == "object":
        return one_object(rng, m)
    cells, c = hier.hierarchy(rng, kinds=KINDS)
    cell = cells[-1]
    m.ctx(hierarchy=describe(cells), top=cell.name)
    m.sample(dict(hierarchy=describe(cells)[:3]))
    if kind == "copy":
        return copy_cell(rng, m, cells, cell, c)
    remove(rng, m, cells, cell, c)


def copy_cell(rng, m, cells, cell, c):
    ex = hier.Expansion()
    full = ex.polys(cell)
    args = {}
    if rng.random() < 0.65:
        for k, v in (("translation", c.pt(rng)), ("rotation", rng.choice([math.pi / 2, math.pi, -math.pi / 2, rng.uniform(-7, 7)])), ("scale", rng.choice([2, 0.5, rng.uniform(0.2, 4)])), ("x_reflection", True)):
            if rng.random() < 0.55:
                args[k] = v
    g = geom.aff()
    if args.get("x_reflection"):
        g = geom.a_scale(1, -1)
    if "scale" in args:
        g = geom.a_scale(args["scale"]) @ g
    if "rotation" in args:
        g = geom.a_rotate(args["rotation"]) @ g
    if "translation" in args:
        g = geom.a_translate(*args["translation"]) @ g
    deep = bool(args) or rng.random() < 0.6
    if not args and deep and rng.random() < 0.3:
        args = {"x_reflection": False}
    if deep and (not args or args == {"x_reflection": False} or rng.random() < 0.5):
        args["deep_copy"] = True
    tol = 1e-8 * max(hier.span(full), c.s) * (1 + args.get("scale", 1))
    m.ctx(args=args)
    m.state(sorted(args), len(cell.polygons), len(cell.paths), len(cell.labels), [type(r).__name__ for r in cell.references][:3])
    polys = [(s.properties, type(s), [((l, d), np.array(p, dtype=float)) for p, l, d in zip(s.polygons, s.layers, s.datatypes)]) for s in cell.polygons]
    labels = [label_state(l) for l in cell.labels]
    refs = [ref_state(r) for r in cell.references]
    before = snap.snap(cell)
    below = [snap.snap(x) for x in cells[:-1]]
    if deep or args:
        new = cell.copy(fresh(), **args)
    else:
        new = cell.copy(fresh())
    d = snap.differs(before, snap.snap(cell))
    m.check(d is None, "copy-original", "copying changed the original: %s" % d)
    m.check(new.name == "copy%d" % _N[0] and type(new) is gdspy.Cell, "copy-cell", "name %r" % new.name)
    if m.check(len(new.polygons) == len(polys), "copy-polygons", "%d sets, expected %d" % (len(new.polygons), len(polys))):
        for s, (props, t, want) in zip(new.polygons, polys):
            got = set_polys(s)
            ok = type(s) is t and s.properties == props and len(got) == len(want) and all(a[0] == b[0] and geom.close_polys(a[1], geom.apply(g, b[1]), tol) for a, b in zip(got, want))
            m.check(ok, "copy-polygons", "polygon set is not the mapped one", got=[x[1] for x in got][:3], want=[geom.apply(g, x[1]) for x in want][:3])
    if cell.paths:
        check_paths(rng, m, ex, new.paths, [(g, p) for p in cell.paths], tol, "copy-paths", "paths of the copy")
    if m.check(len(new.labels) == len(labels), "copy-labels", "%d labels" % len(new.labels)):
        for b, a in zip(new.labels, labels):
            m.check(same_label(m, g, a, b, tol), "copy-labels", "label is not the mapped one", got=snap.snap(b), want=[g, a])
    if m.check(len(new.references) == len(refs), "copy-references", "%d references" % len(new.references)):
        for b, a in zip(new.references, refs):
            m.check(same_ref(g, a, b, tol), "copy-references", "reference is not the mapped one", got=snap.snap(b), want=[g, a["maps"]])
    if not any(isinstance(p, gdspy.RobustPath) for _, p in ex.elements(cell, "paths")) or not args:
        got = hier.Expansion().polys(new)
        want = [(k, geom.apply(g, p)) for k, p in full]
        bad = len(got) != len(want) or geom.match_multiset(got, want, lambda a, b: a[0] == b[0] and geom.same_shape(a[1], b[1], tol))
        m.check(not bad, "copy-layout", "the layout of the copy is not the mapped layout: %s" % (repr(bad)[:500],))
    # independence
    pairs = [(new, cell), (cell, new)]
    a, b = pairs[rng.randrange(2)]
    for l in ("polygons", "paths", "labels", "references"):
        m.check(getattr(a, l) is not getattr(b, l), "copy-independent", "the list of %s is shared" % l)
    if deep:
        for l in ("polygons", "paths", "labels", "references"):
            ids = {id(x) for x in getattr(a, l)}
            m.check(not any(id(x) in ids for x in getattr(b, l)), "copy-independent", "%s are shared" % l)
        keep = snap.snap(b)
        geo = [np.array(p) for p in b.get_polygons()]
        for e in a.polygons + a.paths + a.labels + a.references:
            snap.scramble(e, rng)
        d = snap.differs(keep, snap.snap(b))
        m.check(d is None, "copy-independent", "changing the %s shows in the %s: %s" % ((("copy", "original") if a is new else ("original", "copy")) + (d,)))
        now = b.get_polygons()
        m.check(len(now) == len(geo) and all(geom.close_polys(x, y, tol) for x, y in zip(now, geo)), "copy-independent", "layout changed with the other one's elements")
    else:
        for l in ("polygons", "paths", "labels", "references"):
            m.check([id(x) for x in getattr(a, l)] == [id(x) for x in getattr(b, l)], "shallow-shares", "%s of a shallow copy" % l)
        keep = snap.snap(b)
        a.add(hier.polyset(rng, c))
        a.add(hier.label(rng, c))
        a.remove_labels(lambda l: True)
        a.references = []
        d = snap.differs(keep, snap.snap(b))
        m.check(d is None, "copy-independent", "adding and removing in a shallow copy: %s" % d)
    for x, s in zip(cells[:-1], below):
        m.check(snap.differs(s, snap.snap(x)) is None, "copy-below", "a referenced cell changed")


def one_object(rng, m):
    cells, c = hier.hierarchy(rng, n=2)
    k = rng.choice(["poly", "flex", "robust", "label", "ref", "ref", "path"])
    if k == "path":
        e = gdspy.Path(0.05 * c.s, c.pt(rng), number_of_paths=rng.choice([1, 2]), distance=0.2 * c.s)
        e.segment(c.s * rng.uniform(0.2, 1), rng.uniform(0, 6), layer=2)
        if rng.random() < 0.5:
            e.turn(0.4 * c.s, rng.choice(["l", "r", 1.0]))
    else:
        e = hier.element(rng, c, cells, [k])
    dx, dy = rng.choice([(0, 0), c.pt(rng), (0.3 * c.s, 0), (0, -0.6 * c.s)])
    how = rng.choice(["gdspy", "gdspy", "deepcopy"]) if k != "ref" else "gdspy"
    m.ctx(element=snap.snap(e), how=how, d=(dx, dy))
    m.state(k, how, dx == 0, dy == 0)
    m.sample(dict(kind=k, d=(dx, dy)))
    before = snap.snap(e)
    below = [snap.snap(x) for x in cells]
    pol = polygons(e)
    tol = 1e-8 * max([c.s] + [np.abs(p).max() for p in pol if len(p)])
    if how == "gdspy":
        n = gdspy.copy(e, dx, dy)
    else:
        n = copy.deepcopy(e)
        dx = dy = 0
    m.check(n is not e and type(n) is type(e), "object-copy", "type %s" % type(n))
    d = snap.differs(before, snap.snap(e))
    m.check(d is None, "object-copy", "the original changed: %s" % d)
    want = copy.deepcopy(before)
    got = snap.snap(n)
    if dx == 0 and dy == 0:
        d = snap.differs(want, got)
        m.check(d is None, "object-copy", "copy differs: %s" % d)
    else:
        pn = polygons(n)
        m.check(len(pn) == len(pol) and all(geom.close_polys(a, b + (dx, dy), 10 * tol) or geom.same_shape(a, b + (dx, dy), 10 * tol) for a, b in zip(pn, pol)), "object-copy", "polygons of the copy are not the translated ones")
        if isinstance(e, gdspy.Label):
            m.check(near(n.position, np.array(e.position) + (dx, dy), tol), "object-copy", "label at %s" % (n.position,))
        if isinstance(e, (gdspy.CellReference, gdspy.CellArray)):
            m.check(n.ref_cell is e.ref_cell and near(n.origin, np.array(e.origin) + (dx, dy), tol), "object-copy", "reference at %s" % (n.origin,))
    a, b = (n, e) if rng.random() < 0.5 else (e, n)
    keep = snap.snap(b)
    pk = polygons(b)
    snap.scramble(a, rng)
    d = snap.differs(keep, snap.snap(b))
    m.check(d is None, "object-copy", "changing the %s shows in the %s: %s" % ((("copy", "original") if a is n else ("original", "copy")) + (d,)))
    pn = polygons(b)
    m.check(len(pn) == len(pk) and all(geom.close_polys(x, y, 10 * tol) for x, y in zip(pn, pk)), "object-copy", "polygons changed with the other object")
    for x, s in zip(cells, below):
        m.check(snap.differs(s, snap.snap(x)) is None, "object-copy", "a cell changed")


def polygons(e):
    if isinstance(e, gdspy.Label) or (isinstance(e, (gdspy.CellReference, gdspy.CellArray)) and not isinstance(e.ref_cell, gdspy.Cell)):
        return []
    if isinstance(e, (gdspy.CellReference, gdspy.CellArray)):
        return [np.array(p, dtype=float) for p in e.get_polygons()]
    if isinstance(e, gdspy.PolygonSet):
        return [np.array(p, dtype=float) for p in e.polygons]
    return [np.array(p, dtype=float) for p in copy.deepcopy(e).translate(0, 0).get_polygons()]


def predicate(rng, c):
    """A condition on polygons, named for the report."""
    k = rng.randrange(7)
    v = rng.choice(hier.LAY)
    x = rng.uniform(-c.s, c.s)
    n = rng.choice([3, 4, 5])
    seed = rng.randrange(1000)
    ret = rng.random() < 0.2  # truthy values instead of booleans

    def f(p, l, d):
        r = [lambda: l == v, lambda: d == v, lambda: (l, d) == (v, v), lambda: float(np.asarray(p)[:, 0].min()) < x, lambda: len(p) > n, lambda: hash((seed, round(float(np.asarray(p)[0][0]) / c.s * 1e4))) % 3 == 0, lambda: True][k]()
        return (1 if r else None) if ret else r

    return f, [k, v, x, n, seed]


def remove(rng, m, cells, cell, c):
    target = cells[-1]
    what = rng.choice(["polygons", "polygons", "polygons", "paths", "labels", "all"])
    steps = ["polygons", "paths", "labels"] if what == "all" else [what] * rng.choice([1, 1, 2])
    took = left = 0
    for w in steps:
        if w == "polygons":
            f, desc = predicate(rng, c)
            calls = []

            def test(*a):
                calls.append(a)
                return f(*a)

            sets = [(s, s.properties, [((l, d), np.array(p, dtype=float)) for p, l, d in zip(s.polygons, s.layers, s.datatypes)]) for s in target.polygons]
            want = [(s, pr, [x for x in ps if not f(x[1], *x[0])]) for s, pr, ps in sets]
            others = snap.snap([target.paths, target.labels, target.references])
            r = target.remove_polygons(test)
            m.ctx(condition=desc)
            m.check(r is target, "remove-returns", repr(r))
            n = sum(len(x[2]) for x in sets)
            m.check(len(calls) == n and all(len(a) == 3 for a in calls), "remove-calls", "the condition was called %d times for %d polygons" % (len(calls), n))
            keep = [x for x in want if x[2]]
            m.check([id(x) for x in target.polygons] == [id(x[0]) for x in keep], "remove-exact", "remaining sets: %d, expected %d" % (len(target.polygons), len(keep)))
            for s, pr, ps in keep:
                got = set_polys(s)
                m.check(len(got) == len(ps) and all(a[0] == b[0] and np.array_equal(a[1], b[1]) for a, b in zip(got, ps)), "remove-exact", "remaining polygons differ (condition %s)" % desc)
                m.check(len(s.layers) == len(s.datatypes) == len(s.polygons) and s.properties == pr, "remove-exact", "layers, datatypes or properties")
            took += n - sum(len(x[2]) for x in want)
            left += sum(len(x[2]) for x in want)
            m.check(snap.differs(others, snap.snap([target.paths, target.labels, target.references])) is None, "remove-others", "other elements changed")
        else:
            l = list(getattr(target, w))
            seed = rng.randrange(1000)
            k = rng.randrange(3)
            layer = rng.choice(hier.LAY)

            def test(e):
                if k == 0:
                    return (layer in e.layers) if w == "paths" else e.layer == layer
                if k == 1:
                    return hash((seed, [i for i, x in enumerate(l) if x is e][0])) % 2 == 0
                return True

            others = snap.snap([target.polygons, target.references, target.labels if w == "paths" else target.paths])
            mine = [(e, snap.snap(e)) for e in l if not test(e)]
            r = target.remove_paths(test) if w == "paths" else target.remove_labels(test)
            m.check(r is target, "remove-returns", repr(r))
            now = getattr(target, w)
            m.check([id(e) for e in now] == [id(e) for e, _ in mine], "remove-exact", "remaining %s: %d, expected %d" % (w, len(now), len(mine)))
            m.check(all(snap.differs(s, snap.snap(e)) is None for e, s in mine), "remove-exact", "remaining %s changed" % w)
            m.check(snap.differs(others, snap.snap([target.polygons, target.references, target.labels if w == "paths" else target.paths])) is None, "remove-others", "other elements changed")
            took += len(l) - len(mine)
            left += len(mine)
    m.state(steps, took > 0, left > 0, len(target.polygons))
    # the rest stays usable
    ex = hier.Expansion()
    want = ex.polys(target)
    tol = 1e-8 * max(hier.span(want), c.s)
    ops = ["get", "transform", "fracture", "fillet", "copy", "gds", "append", "ref", "flatten", "svg", "boolean", "again"]
    rng.shuffle(ops)
    for op in ops[:3]:
        use(rng, m, op, target, c, ex, want, tol)
        ex = hier.Expansion()
        want = ex.polys(target)


def compare(m, got, want, tol, what):
    bad = len(got) != len(want) or geom.match_multiset(got, want, lambda a, b: a[0] == b[0] and geom.same_shape(a[1], b[1], tol))
    m.check(not bad, "usable-after-removal", "%s: %s" % (what, repr(bad)[:400]))


def use(rng, m, op, cell, c, ex, want, tol):
    import io

    if op == "get":
        compare(m, [(k, np.asarray(p)) for k, ps in cell.get_polygons(True).items() for p in ps], want, tol, "get_polygons after removal")
    elif op == "ref":
        r = gdspy.CellReference(cell, (c.s, 0), 90)
        mp = hier.maps(r)[0]
        compare(m, [(k, np.asarray(p)) for k, ps in r.get_polygons(True).items() for p in ps], [(k, geom.apply(mp, p)) for k, p in want], 10 * tol, "reference after removal")
        sets = r.get_polygonsets()
        m.check(len(sets) == len(ex.elements(cell, "polygons")), "usable-after-removal", "get_polygonsets")
    elif op == "transform":
        for s in cell.polygons:
            pts = [np.array(p) for p in s.polygons]
            s.translate(1.5 * c.s, 0)
            m.check(all(geom.close_polys(p, q + (1.5 * c.s, 0), tol) for p, q in zip(s.polygons, pts)), "usable-after-removal", "translate after removal")
            s.mirror((0, 0), (c.s, c.s)).rotate(0.5).scale(2)
    elif op == "fracture":
        for s in cell.polygons:
            s.fracture(5, precision=1e-9 * c.s)
            m.check(len(s.layers) == len(s.datatypes) == len(s.polygons), "usable-after-removal", "lists after fracture")
    elif op == "fillet":
        for s in cell.polygons:
            if all(len(p) < 60 for p in s.polygons):
                try:
                    s.fillet(0.01 * c.s)
                except ValueError:
                    pass
    elif op == "copy":
        n = cell.copy(fresh(), deep_copy=True)
        compare(m, hier.Expansion().polys(n), want, tol, "copy after removal")
    elif op == "gds":
        lib = gdspy.GdsLibrary("L", unit=1e-6, precision=1e-9)
        f = io.BytesIO()
        try:
            lib.write_gds(f, cells=[cell])
            n = len(f.getvalue())
        except Exception as e:  # names and sizes are judged by C01 and C02
            import traceback
            if any("tuple" in x for x in map(str, e.args)):
                m.violate("usable-after-removal", "write_gds: %r" % e)
            n = 0
        m.count("bytes written", n)
    elif op == "append":
        for s in cell.polygons:
            k = len(s.polygons)
            s.polygons.append(np.array([(0, 0), (c.s, 0), (0, c.s)]))
            s.layers.append(1)
            s.datatypes.append(2)
            m.check(len(s.polygons) == k + 1 == len(s.layers) == len(s.datatypes), "usable-after-removal", "append after removal")
    elif op == "flatten":
        cell.flatten(single_layer=7)
        m.check(all(l == 7 for s in cell.polygons + cell.paths for l in s.layers), "usable-after-removal", "flatten after removal")
    elif op == "svg":
        gdspy.GdsLibrary("x").add(cell, include_dependencies=True, overwrite_duplicate=True)
        cell.write_svg(svg_file(), scaling=1)
    elif op == "boolean":
        if cell.polygons:
            gdspy.boolean(cell.polygons, gdspy.Rectangle((0, 0), (c.s, c.s)), "and", precision=1e-6 * c.s)
            m.seen("usable-after-removal")
    elif op == "again":
        n = sum(len(s.polygons) for s in cell.polygons)
        cell.remove_polygons(lambda p, l, d: False)
        m.check(sum(len(s.polygons) for s in cell.polygons) == n, "usable-after-removal", "a second removal of nothing")
        cell.remove_polygons(lambda p, l, d: True)
        m.check(cell.polygons == [], "usable-after-removal", "a removal of everything")


def svg_file():
    import os
    import tempfile

    f = tempfile.TemporaryFile("w")
    return f
