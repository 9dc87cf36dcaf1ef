"""C17: transformations of paths."""
import copy
import io
import math

import gdspy
import numpy as np

import gds
import geom
import hier
import pathspec
from pathspec import Sim

RULE = (
    "Flexible and robust paths (parallel paths, own offsets, tapers, every section, corner and end) go through sequences of translate, rotate, "
    "scale (also negative) and transform, or are seen through references, arrays, get_paths and flatten. The polygons of the result are compared "
    "with the mapped polygons of the path and with the polygons of a path built at the target from mapped arguments; robust paths are also "
    "compared by evaluation, saved paths by their records, and transformed paths are continued. Non-trivial: the map is not the identity; "
    "distinct by class, route, map class and styles."
)
ASSUMPTIONS = [
    "Round shapes are compared as regions, with three times the tolerance (times the magnification above 1) around the outlines left out.",
    "Extensions of ends are not negative (where polygons are compared).",
    "tolerance and precision belong to the path and are not scaled.",
]
REQUIRED = ["mapped-polygons", "rebuilt-polygons", "evaluation", "saved-element", "continued", "through-reference", "through-flatten", "width-kept"]


def cases(tier):
    k = 5 if tier == "quick" else 80
    return [("flex", 120 * k), ("robust", 60 * k), ("seen-flex", 60 * k), ("seen-robust", 40 * k), ("saved", 60 * k)]


def random_transform(rng, s, reflect=True):
    """Arguments of transform and the map they mean."""
    t = None if rng.random() < 0.2 else (rng.uniform(-s, s), rng.uniform(-s, s))
    r = rng.choice([None, math.pi / 2, math.pi, rng.uniform(-4, 4)])
    sc = rng.choice([None, 2, 0.5, rng.uniform(0.3, 3)])
    x = reflect and rng.random() < 0.5
    arr = None if rng.random() < 0.6 else (rng.uniform(-s, s), rng.uniform(-s, s))
    mp = geom.a_ref((0, 0) if t is None else t, None if r is None else math.degrees(r), sc, x, (0, 0) if arr is None else arr)
    kw = {} if arr is None else {"array_trans": np.array(arr)}
    return (None if t is None else np.array(t), r, sc, x), kw, mp


def step(rng, p, s, reflect=True):
    k = rng.choice(["translate", "rotate", "scale", "transform", "transform"])
    ctr = rng.choice([None, (rng.uniform(-s, s), rng.uniform(-s, s))])
    kw = {} if ctr is None else {"center": ctr}
    cc = ctr or (0, 0)
    if k == "translate":
        v = (rng.uniform(-s, s), rng.uniform(-s, s))
        r = p.translate(*v)
        mp = geom.a_translate(*v)
    elif k == "rotate":
        v = rng.choice([math.pi / 2, math.pi, -math.pi / 2, rng.uniform(-4, 4)])
        r = p.rotate(v, **kw)
        mp = geom.a_about(geom.a_rotate(v), cc)
    elif k == "scale":
        v = rng.choice([2, 0.5, rng.uniform(0.3, 3), -1, -rng.uniform(0.4, 2)])
        r = p.scale(v, **kw)
        mp = geom.a_about(geom.a_scale(v), cc)
    else:
        v, kw, mp = random_transform(rng, s, reflect)
        r = p.transform(*v, **kw)
    return k, v, kw, mp, r


def judge(rng, m, d, g, got, base, clause, what):
    """got: polygons of the transformed path; base: polygons before."""
    margin = 3 * d["tol"] * max(1.0, g.mag) + 3 * d["prec"] * max(1, g.mag)
    tol = 1e-7 * max([d["s"]] + [float(np.abs(p).max()) for _, p in got + base] + [float(np.abs(g.m).max()) * d["s"]])
    widths = d["wt"] or not d["gdsii"] or abs(g.mag - 1) < 1e-12
    want2 = None
    msg = None
    if widths:
        want = [(k, geom.apply(g.m, p)) for k, p in base]
        if not pathspec.exact(got, want, tol):
            msg = pathspec.region_diff(rng, got, want, margin)
        which = "mapped-polygons"
    if msg is None:
        want2 = pathspec.polys(pathspec.build(d, g))
        if not widths or not pathspec.exact(got, want2, tol):
            msg = pathspec.region_diff(rng, got, want2, margin + pathspec.chord_slack(d) * max(1.0, g.mag))
        which = "rebuilt-polygons"
    if widths:
        m.seen("mapped-polygons")
    else:
        m.seen("width-kept")
    m.seen("rebuilt-polygons")
    if msg is None:
        m.seen(clause)
        return True
    sig = None
    if d["cls"] == "flex" and g.sign < 0 and pathspec.asymmetric(d):
        other = pathspec.polys(pathspec.build(d, g, negate=False))
        if pathspec.exact(got, other, tol) or pathspec.region_diff(rng, got, other, margin + pathspec.chord_slack(d) * max(1.0, g.mag)) is None:
            sig = "flexpath-reflection-offsets"
    if sig:
        m.check(False, which, "%s: %s" % (what, msg), sig=sig)
    else:
        m.check(False, which, "%s: %s" % (what, msg))
    return False


def ctx(m, d, **kw):
    m.ctx(path={k: (repr(v) if k in ("ops", "corners") else v) for k, v in d.items()}, **kw)


def run_case(kind, index, rng, m):
    s = rng.choice([1.0, 30.0, 1000.0])
    if kind == "saved":
        return saved(rng, m, s)
    cls = "robust" if "robust" in kind else "flex"
    d = (pathspec.robust if cls == "robust" else pathspec.flex)(rng, s)
    p = pathspec.build(d)
    base = pathspec.polys(p)
    ctx(m, d)
    m.sample(dict(cls=cls, sections=[o[0] for o in d["ops"]], ends=[repr(e) for e in d["ends"]]))
    if kind.startswith("seen"):
        return seen(rng, m, d, p, base)
    if rng.random() < 0.4:
        p.get_polygons()  # must be forgotten by the transformation
    q = copy.deepcopy(p)
    g, steps = Sim(), []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k, v, kw, mp, r = step(rng, q, s)
        steps.append((k, repr(v), repr(kw)))
        g = g.then(mp)
        m.check(r is q, "returns-itself", "%s returned %r" % (k, type(r)))
        if rng.random() < 0.2:
            q.get_polygons(True)
    m.ctx(steps=steps)
    m.state(cls, [x[0] for x in steps], [o[0] for o in d["ops"]], [str(e)[:5] for e in d["ends"]], [str(c)[:5] for c in d.get("corners", [])], d["gdsii"], d["wt"], g.sign, g.mag == 1)
    ok = judge(rng, m, d, g, pathspec.polys(q), base, "mapped-polygons", "after %s" % [x[0] for x in steps])
    m.check(list(q.layers) == d["layers"] and list(q.datatypes) == d["datatypes"], "attributes", "layers or datatypes changed")
    if cls == "robust":
        evaluate(rng, m, d, g, p, q)
    if not ok:
        return
    # continue it
    if d["cls"] == "flex" and (g.sign < 0 and pathspec.asymmetric(d)):
        return
    last = d["dir"]
    extra, _ = pathspec.sections_of(rng, d, last[0], last[1], rng.choice([1, 2]), d.get("bend") is None, last[2])
    m.ctx(extra=repr(extra))
    try:
        pathspec.extend(q, d, extra, g)
        ref = pathspec.build(d, g, extra=extra)
    except ValueError as e:
        m.skip("continuation refused: %s" % str(e)[:60])
        return
    got, want = pathspec.polys(q), pathspec.polys(ref)
    margin = (3 * d["tol"] + 3 * d["prec"] + pathspec.chord_slack(d) + pathspec.chord_slack(dict(d, ops=extra))) * max(1.0, g.mag)
    tol = 1e-7 * max([d["s"]] + [float(np.abs(x).max()) for _, x in got + want])
    bad = None if pathspec.exact(got, want, tol) else pathspec.region_diff(rng, got, want, margin)
    m.check(bad is None, "continued", "sections added after %s: %s" % ([x[0] for x in steps], bad))


def evaluate(rng, m, d, g, p, q):
    n = len(p)
    m.check(len(q) == n, "evaluation", "%d sections, expected %d" % (len(q), n))
    scale = max(d["s"], float(np.abs(g.m).max()) * d["s"], float(np.abs(g.m[:2, 2]).max()))
    wm = g.mag if d["wt"] or not d["gdsii"] else 1.0
    for _ in range(4):
        u = rng.choice([0, n, rng.uniform(0, n), rng.randrange(n + 1)])
        a, b = p(u), q(u)
        m.check(np.abs(geom.apply(g.m, a) - b).max() <= 1e-9 * scale, "evaluation", "centre at %s: %s, expected %s" % (u, b, geom.apply(g.m, a)))
        x, y = p.width(u), q.width(u)
        m.check(np.abs(x * wm - y).max() <= 1e-7 * max(1, g.mag) * d["s"], "evaluation", "width at %s: %s, expected %s" % (u, y, x * wm))
        v, w = p.grad(u), q.grad(u)
        v = v @ g.m[:2, :2].T
        m.check(np.abs(v - w).max() <= 1e-5 * np.abs(v).max(), "evaluation", "direction at %s: %s, expected %s" % (u, w, v))
        arms = [q(u, -1), q(u, 1)]
        h = 0.5 * (arms[0] + arms[1])
        m.check(np.abs(h - b).max() <= 1e-6 * scale, "evaluation", "sides at %s: %s around %s" % (u, arms, b))


def seen(rng, m, d, p, base):
    s = d["s"]
    cell = gdspy.Cell("P", exclude_from_current=True)
    cell.add(p)
    levels = rng.choice([1, 1, 2])
    total = [geom.aff()]
    top = cell
    refs = []
    for i in range(levels):
        c = hier.C(s)
        r = hier.reference(rng, c, top)
        if r.magnification is not None and not 0.25 <= abs(r.magnification) <= 4:
            r.magnification = 1.7
        if isinstance(r, gdspy.CellArray):
            r.columns, r.rows = rng.choice([(1, 1), (2, 1), (1, 2)])
        refs.append(dict(origin=list(r.origin), rot=r.rotation, mag=r.magnification, x=r.x_reflection, arr=[r.columns, r.rows, list(r.spacing)] if isinstance(r, gdspy.CellArray) else None))
        total = [a @ b for a in hier.maps(r) for b in total]
        top = gdspy.Cell("T%d" % i, exclude_from_current=True)
        top.add(r)
    m.ctx(references=refs)
    sims = [Sim(t) for t in total]
    m.state(d["cls"], [(x["rot"] is None, x["mag"], x["x"], x["arr"] and x["arr"][:2]) for x in refs], d["gdsii"], d["wt"])
    tol = 1e-7 * max(s, max(float(np.abs(t).max()) for t in total) * s)
    # polygons
    k = rng.randrange(3)
    if k == 0:
        got = [(kk, np.asarray(x)) for kk, v in top.get_polygons(True).items() for x in v]
        unit = [g for g in sims]
        want = [(kk, geom.apply(g.m, x)) for g in unit for kk, x in base]
        if d["gdsii"] and not d["wt"] and any(abs(g.mag - 1) > 1e-9 for g in sims):
            # widths that do not scale, seen through a magnified reference
            want2 = [x for g in sims for x in pathspec.polys(pathspec.build(d, g))]
            margin = (3 * d["tol"] + pathspec.chord_slack(d)) * max([1.0] + [g.mag for g in sims])
            if d["cls"] == "flex" and pathspec.asymmetric(d) and any(g.sign < 0 for g in sims):
                m.skip("reflected asymmetric flexible path with fixed widths")
                return
            bad = pathspec.region_diff(rng, got, want2, margin)
            if bad is not None and exact_or(got, want, tol):
                m.check(False, "through-reference", "get_polygons: %s" % bad, sig="fixed-width-magnified-reference")
            else:
                m.check(bad is None, "through-reference", "get_polygons: %s" % bad)
            return
        m.check(exact_or(got, want, tol), "through-reference", "get_polygons differs from the mapped polygons")
        return
    if k == 1:
        paths = top.get_paths()
        what = "get_paths"
    else:
        top.flatten()
        paths = top.paths
        what = "flatten"
    clause = "through-reference" if k == 1 else "through-flatten"
    if not m.check(len(paths) == len(sims), clause, "%s: %d paths, expected %d" % (what, len(paths), len(sims))):
        return
    left = list(sims)
    fixed = d["gdsii"] and not d["wt"]
    boxes = {id(g): [geom.bbox([x for _, x in pathspec.polys(pathspec.build(d, g))] if fixed else [geom.apply(g.m, x) for _, x in base])] for g in sims}
    if d["cls"] == "flex" and pathspec.asymmetric(d):
        for g in sims:
            if g.sign < 0:  # (known finding)
                boxes[id(g)].append(geom.bbox([x for _, x in pathspec.polys(pathspec.build(d, g, negate=False))]))
    for q in paths:
        got = pathspec.polys(q)
        # the instance whose box is nearest
        lo, hi = geom.bbox([x for _, x in got])
        best = min(left, key=lambda g: min(np.abs(np.array(b) - (lo, hi)).max() for b in boxes[id(g)]))
        left.remove(best)
        judge(rng, m, d, best, got, base, clause, what)


def exact_or(got, want, tol):
    return pathspec.exact(got, want, tol)


def element(p, s):
    """The elements written for the path (1 database unit is 1e-6 s)."""
    lib = gdspy.GdsLibrary("L", unit=1.0, precision=s * 1e-6)
    cell = gdspy.Cell("A", exclude_from_current=True)
    cell.add(p)
    f = io.BytesIO()
    lib.write_gds(f, cells=[cell])
    return gds.parse(f.getvalue())["cells"][0]["elements"]


def saved(rng, m, s):
    cls = rng.choice(["flex", "robust"])
    while True:
        d = (pathspec.robust if cls == "robust" else pathspec.flex)(rng, s)
        if d["gdsii"]:
            break
    p = pathspec.build(d)
    q = copy.deepcopy(p)
    g, steps = Sim(), []
    for _ in range(rng.choice([1, 2])):
        k, v, kw, mp, _ = step(rng, q, s, reflect=cls == "robust" or not pathspec.asymmetric(d))
        steps.append((k, repr(v), repr(kw)))
        g = g.then(mp)
    ctx(m, d, steps=steps)
    m.state(cls, [x[0] for x in steps], [o[0] for o in d["ops"]], d["wt"], [str(e)[:5] for e in d["ends"]], g.sign)
    a, b = element(copy.deepcopy(p), s), element(q, s)
    if not m.check(len(a) == len(b) == len(d["widths"]), "saved-element", "%d elements, expected %d" % (len(b), len(d["widths"]))):
        return
    unit = s * 1e-6
    wm = g.mag if d["wt"] else 1.0
    for i, (x, y) in enumerate(zip(a, b)):
        w = d["widths"][i] * wm / unit * (1 if d["wt"] else -1)
        m.check(abs(y["width"] - w) <= 1.01, "saved-element", "width %r, expected %r" % (y["width"], w))
        m.check(y["layer"] == x["layer"] and y["datatype"] == x["datatype"] and y.get("pathtype") == x.get("pathtype"), "saved-element", "layer, datatype or type: %r and %r" % (x, y))
        if isinstance(d["ends"][i], tuple):
            e = [v * g.mag / unit for v in d["ends"][i]]
            got = (y.get("bgnextn", 0), y.get("endextn", 0))
            m.check(abs(got[0] - e[0]) <= 1.01 and abs(got[1] - e[1]) <= 1.01, "saved-element", "extensions %s, expected %s" % (got, e))
        xa = geom.apply(g.m, np.array(x["xy"]) * unit)
        xb = np.array(y["xy"]) * unit
        margin = (3 * d["tol"] + 3 * unit) * max(1.0, g.mag)
        m.check(np.abs(xa[0] - xb[0]).max() <= 3 * unit * max(1, g.mag) and np.abs(xa[-1] - xb[-1]).max() <= 3 * unit * max(1, g.mag), "saved-element", "ends at %s and %s, expected %s and %s" % (xb[0], xb[-1], xa[0], xa[-1]))
        far = max(geom.dist_to_polyline(xb, xa).max(), geom.dist_to_polyline(xa, xb).max())
        m.check(far <= margin, "saved-element", "spines differ by %r" % far)
