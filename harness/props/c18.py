"""C18: flexible paths cover the strokes they describe."""
import copy
import io
import math

import gdspy
import numpy as np

import gds
import geom
import hier
import hobbyref
import snap
import stroke
from stroke import Stroke

RULE = (
    "Random spines (polylines with corners up to 115 degrees, chains of segments, arcs, turns, Bezier, parametric and smooth sections), one to "
    "four parallel paths, constant and tapered widths and offsets, every corner and end style and callables. The region of the polygons is "
    "compared, by points around its outline and the expected one, with the union of the exact quadrilaterals, bands, joins and caps computed "
    "from the definitions; callables are watched for their arguments; requested points and directions are looked up in the spine; sections, "
    "joins and caps stay within the requested tolerance of the exact curves; the fractured and the saved path are compared too. Non-trivial: more than one section or a taper or an offset; distinct by styles, sections and options."
)
ASSUMPTIONS = [
    "Segments are longer than joins and offsets need, corners with tapers turn by at least 0.25 rad.",
    "Points closer to the expected outline than 4 times the tolerance (curves), plus the effect of chord directions near the ends of curves, are not judged.",
    "Tapers along Bezier, parametric and smooth sections are only required to be monotonic.",
]
REQUIRED = ["polyline-region", "curved-region", "bend-region", "corner-callable", "end-callable", "spine", "smooth-spine", "loops", "fractured", "saved-spine", "layers", "monotonic-taper", "one-width", "within-tolerance"]


def cases(tier):
    k = 6 if tier == "quick" else 120
    return [("polyline", 60 * k), ("pair", 15 * k), ("bend", 20 * k), ("curved", 60 * k), ("callable", 20 * k), ("spine", 40 * k), ("taper", 15 * k), ("constant", 12 * k), ("within", 30 * k)]


def polyline(rng, s, n, closed_ok=False):
    p = np.array([rng.uniform(-s, s), rng.uniform(-s, s)])
    a = rng.choice([0, math.pi / 2, math.pi, -math.pi / 2, rng.uniform(-math.pi, math.pi)])
    pts = [p]
    for i in range(n - 1):
        p = p + s * rng.uniform(0.65, 1.2) * np.array((math.cos(a), math.sin(a)))
        pts.append(p)
        a += rng.choice([-1, 1]) * rng.choice([math.pi / 2, rng.uniform(0.25, 2.0)])
    return np.array(pts)


def number_or_list(rng, v):
    return list(v)


def parallel(rng, s):
    """(widths argument, offsets argument, widths, offsets)."""
    k = rng.choice([1, 1, 2, 3, 4])
    w = rng.uniform(0.03, 0.06) * s
    form = rng.randrange(4)
    if form == 0:
        ws = [w * rng.uniform(0.5, 1) for _ in range(k)]
        os = [rng.uniform(-0.12, 0.12) * s for _ in range(k)]
        return ws, os, ws, os
    if form == 1:  # distance between paths
        ws = [w * rng.uniform(0.5, 1) for _ in range(k)]
        d = 1.3 * w * rng.choice([1, 1, -1])
        if abs(d) * (k - 1) / 2 > 0.12 * s:
            d *= 0.5
        return ws, d, ws, [d * (i - (k - 1) / 2.0) for i in range(k)]
    if form == 2:
        os = [rng.uniform(-0.12, 0.12) * s for _ in range(k)]
        return w, os, [w] * k, os
    o = rng.uniform(-0.1, 0.1) * s if rng.random() < 0.6 else 0
    return w, o, [w], [o]


def pick(rng, options, k):
    """(argument, list of k)."""
    if rng.random() < 0.3:
        v = rng.choice(options)
        return v, [v] * k
    n = rng.choice([k, k, max(1, k - 1)])
    v = [rng.choice(options) for _ in range(n)]
    return list(v), [v[i % n] for i in range(k)]


def layers(rng, k):
    la, l = pick(rng, [0, 1, 2, 7], k)
    ta, t = pick(rng, [0, 1, 255], k)
    return la, l, ta, t


def end_options(rng, s):
    return ["flush", "extended", "round", "smooth", (rng.uniform(0, 0.12) * s, rng.uniform(0, 0.12) * s)]


def caps(st, end):
    style, ext = ("tuple", end) if isinstance(end, tuple) else (end, None)
    return st.cap(0, style, ext) + st.cap(1, style, ext)


def changed(rng, s, old, n, what):
    """A change of widths or offsets: (argument, new values)."""
    if rng.random() < 0.5:
        return None, old
    if what == "width":
        if rng.random() < 0.4:
            w = rng.uniform(0.03, 0.06) * s
            return w, [w] * n
        lo, hi = rng.choice([(0.6, 1.5), (0.6, 1.5), (0.95, 1.05), (0.99, 1.01)])
        w = [x * rng.uniform(lo, hi) for x in old]
        w = [min(max(x, 0.02 * s), 0.07 * s) for x in w]
        return w, w
    if rng.random() < 0.4:
        d = rng.uniform(-0.02, 0.02) * s
        return d, [x + d for x in old]
    o = [x + rng.uniform(-0.02, 0.02) * s for x in old]
    return o, o


def run_case(kind, index, rng, m):
    s = rng.choice([1.0, 20.0, 1000.0])
    globals()["case_" + kind](rng, m, s)


def fine(rng, tol, s, *styles):
    """Strokes without curves do not depend on the tolerance."""
    if all(isinstance(x, tuple) or x in ("natural", "miter", "bevel", "flush", "extended") for y in styles for x in y):
        return 1e-5 * s
    return 3 * tol


def by_key(path, m):
    d = path.get_polygons(True)
    return {k: [np.asarray(p) for p in v] for k, v in d.items()}


def judge(rng, m, clause, path, l, t, strokes, margin, what="", **kw):
    """strokes: list (one for each parallel path) of pieces."""
    got = by_key(path, m)
    keys = list(zip(l, t))
    m.check(set(got) == set(keys), "layers", "layers of the polygons %s, expected %s" % (sorted(got), sorted(set(keys))))
    for key in sorted(set(keys)):
        if key not in got:
            continue
        pieces = [p for i, k in enumerate(keys) if k == key for p in strokes[i]]
        bad, n = stroke.compare(rng, got[key], pieces, margin, **kw)
        m.count("points judged", n)
        m.check(bad is None, clause, "%s%s (%s)" % (what, bad, key))


def between(rng, pts):
    """Longer polyline, and the same one with points along its segments."""
    pts = pts[0] + 2 * (pts - pts[0])
    if rng.random() < 0.5:
        pts = np.round(pts / 0.25) * 0.25 if np.abs(pts[1:] - pts[:-1]).max(axis=1).min() > 8 else pts
    out = [pts[0]]
    for a, b in zip(pts[:-1], pts[1:]):
        if rng.random() < 0.6:
            f = rng.choice([0.5, rng.uniform(0.4, 0.6)])
            out.append(a + f * (b - a))
        out.append(b)
    return pts, np.array(out)


def case_polyline(rng, m, s):
    n = rng.choice([3, 3, 4, 5, 6])
    pts = polyline(rng, s, n)
    wa, oa, w, o = parallel(rng, s)
    k = len(w)
    ca, corners = pick(rng, ["natural", "miter", "bevel", "round", "smooth"], k)
    ea, ends = pick(rng, end_options(rng, s), k)
    la, l, ta, t = layers(rng, k)
    tol = rng.choice([1e-3, 1e-4]) * s
    gdsii = rng.random() < 0.15
    build = rng.choice(["list", "segments"])
    kw = dict(corners=ca, ends=ea, tolerance=tol, precision=1e-7 * s, max_points=0, layer=la, datatype=ta, gdsii_path=gdsii)
    W, O = [w], [o]
    # the same point more than once is the same stroke
    times = [rng.choice([1, 1, 2, 3]) for _ in pts] if rng.random() < 0.3 else [1] * n
    if build == "list":
        arg = np.repeat(pts, times, axis=0)
        if rng.random() < 0.3:
            pts, arg = between(rng, pts)
    m.ctx(points=pts, width=wa, offset=oa, options={a: repr(b) for a, b in kw.items()}, build=build, times=times)
    if build == "list":
        arg = [tuple(p) for p in arg] if rng.random() < 0.5 else arg
        p = gdspy.FlexPath(arg, wa, oa, **kw)
        W, O = [w] * n, [o] * n
    else:
        p = gdspy.FlexPath([tuple(pts[0])] if rng.random() < 0.5 else tuple(pts[0]), wa, oa, **kw)
        log = []
        for i in range(1, n):
            cw, w = changed(rng, s, w, k, "width") if not gdsii else (None, w)
            co, o = changed(rng, s, o, k, "offset")
            rel = rng.random() < 0.5
            e = tuple(pts[i] - pts[i - 1]) if rel else tuple(pts[i])
            r = p.segment(e, cw, co, rel)
            m.check(r is p, "returns-itself", "segment returned %r" % type(r))
            log.append((e, cw, co, rel))
            W.append(w)
            O.append(o)
            for _ in range(times[i] - 1):
                rel = rng.random() < 0.5
                p.segment((0, 0) if rel else tuple(p.points[-1]), relative=rel)
        m.ctx(segments=repr(log))
    W, O = np.array(W, dtype=float), np.array(O, dtype=float)
    m.state(build, n, k, max(times), corners, [str(e)[:5] for e in ends], gdsii, bool((W != W[0]).any()), bool((O != O[0]).any()), len(set(zip(l, t))))
    m.sample(dict(vertices=n, paths=k, corners=ca, ends=repr(ea), tapered=bool((W != W[0]).any())))
    strokes = []
    for i in range(k):
        st = Stroke(stroke.centre(pts, O[:, i]), W[:, i])
        pieces = st.quads() + caps(st, ends[i])
        for j in range(1, n - 1):
            pieces += st.corner(j, corners[i])
        strokes.append(pieces)
    first = gdsii and rng.random() < 0.5
    if first:
        saved(rng, m, p, s, [stroke.centre(pts, O[:, i]) for i in range(k)], W[0], ends, l, t)
    judge(rng, m, "polyline-region", p, l, t, strokes, fine(rng, tol, s, corners, ends))
    if rng.random() < 0.3:
        fractured(rng, m, p, l, t, strokes, tol)
    if gdsii and not first:
        saved(rng, m, p, s, [stroke.centre(pts, O[:, i]) for i in range(k)], W[0], ends, l, t)


def case_pair(rng, m, s):
    """Paths of two points (drawn by their own code)."""
    pts = polyline(rng, s, 2)
    wa, oa, w, o = parallel(rng, s)
    k = len(w)
    ea, ends = pick(rng, end_options(rng, s), k)
    la, l, ta, t = layers(rng, k)
    tol = rng.choice([1e-3, 1e-4]) * s
    p = gdspy.FlexPath([tuple(pts[0])], wa, oa, ends=ea, tolerance=tol, precision=1e-7 * s, max_points=rng.choice([0, 199]), layer=la, datatype=ta)
    cw, w1 = changed(rng, s, w, k, "width")
    co, o1 = changed(rng, s, o, k, "offset")
    if rng.random() < 0.15:
        p.segment((0, 0), relative=True)
    p.segment(tuple(pts[1]), cw, co)
    if rng.random() < 0.15:
        p.segment(tuple(p.points[-1]))
    m.ctx(points=pts, width=[wa, cw], offset=[oa, co], ends=repr(ea), tol=tol)
    m.state("pair", k, [str(e)[:5] for e in ends], cw is None, co is None)
    strokes = []
    for i in range(k):
        st = Stroke(stroke.centre(pts, np.array([o[i], o1[i]])), [w[i], w1[i]])
        strokes.append(st.quads() + caps(st, ends[i]))
    judge(rng, m, "polyline-region", p, l, t, strokes, fine(rng, tol, s, ends))


def bend_pieces(c, w, r, end):
    """Stroke of constant width w around c with its corners replaced by arcs."""
    st = Stroke(c, [w] * len(c))
    pieces = caps(st, end)
    spine = [c[0]]
    at = c[0]
    for j in range(1, len(c) - 1):
        a = st.turn(j)
        cut = r * math.tan(abs(a) / 2)
        e = c[j] - cut * st.t[j - 1]
        pieces.append(band(np.array([at, e]), stroke.left(np.array([st.t[j - 1]] * 2)), w))
        n = stroke.left(st.t[j - 1]) * (1 if a > 0 else -1)
        o = e + r * n
        a0 = math.atan2(-n[1], -n[0])
        ang = np.linspace(a0, a0 + a, 80)
        rad = np.stack((np.cos(ang), np.sin(ang)), axis=1)
        arc = o + r * rad
        pieces.append(band(arc, rad, w))
        spine.extend(arc)
        at = c[j] + cut * st.t[j]
    pieces.append(band(np.array([at, c[-1]]), stroke.left(np.array([st.t[-1]] * 2)), w))
    spine.append(c[-1])
    return pieces, np.array(spine)


def band(c, n, w):
    w = np.broadcast_to(np.asarray(w, dtype=float), (len(c),))[:, None]
    return np.vstack((c + 0.5 * w * n, (c - 0.5 * w * n)[::-1]))


def case_bend(rng, m, s):
    n = rng.choice([3, 4, 5])
    pts = polyline(rng, s, n)
    wa, oa, w, o = parallel(rng, s)
    k = len(w)
    ea, ends = pick(rng, end_options(rng, s), k)
    la, l, ta, t = layers(rng, k)
    tol = rng.choice([1e-3, 1e-4]) * s
    radius = [max(x, 0.03 * s) * rng.uniform(0.7, 2) for x in w]
    ra = list(radius)
    if rng.random() < 0.4:
        ra = radius[0] = max(w) * rng.uniform(0.7, 1.5)
        radius = [ra] * k
    gdsii = rng.random() < 0.4
    mp = 0
    arg = pts
    if rng.random() < 0.3:
        pts, arg = between(rng, pts)
    p = gdspy.FlexPath(arg, wa, oa, corners="circular bend", bend_radius=ra, ends=ea, tolerance=tol, precision=1e-7 * s, max_points=mp, layer=la, datatype=ta, gdsii_path=gdsii)
    m.ctx(points=pts, width=wa, offset=oa, ends=repr(ea), radius=ra, tol=tol, gdsii=gdsii)
    m.state("bend", n, k, [str(e)[:5] for e in ends], np.isscalar(ra), gdsii)
    res = [bend_pieces(stroke.centre(pts, np.full(n, o[i])), w[i], radius[i], ends[i]) for i in range(k)]
    judge(rng, m, "bend-region", p, l, t, [r[0] for r in res], 3.5 * tol)
    if rng.random() < 0.3:
        fractured(rng, m, p, l, t, [r[0] for r in res], tol)
    if gdsii:
        saved(rng, m, p, s, [r[1] for r in res], w, ends, l, t, tol)


def fractured(rng, m, p, l, t, strokes, tol):
    q = copy.deepcopy(p)
    q.max_points = rng.choice([5, 8, 20, 60])
    q.precision = 1e-6 * max(1.0, np.abs(q.points).max()) if False else q.precision
    q.translate(0, 0)
    pols = q.get_polygons()
    m.check(all(len(x) <= q.max_points for x in pols), "fractured", "polygons of %s points with max_points = %d" % ([len(x) for x in pols], q.max_points))
    judge(rng, m, "fractured", q, l, t, strokes, 4 * tol, "max_points=%d: " % q.max_points)


def case_constant(rng, m, s):
    """Paths kept as GDSII paths have one width, whatever their sections ask for."""
    wa, oa, w, o = parallel(rng, s)
    k = len(w)
    ea, ends = pick(rng, [e for e in end_options(rng, s) if e != "smooth"], k)
    tr = Track((0, 0), rng.uniform(-3, 3), s)
    kw = dict(ends=ea, tolerance=1e-3 * s, precision=1e-7 * s, max_points=0, gdsii_path=True)
    p, q = gdspy.FlexPath([(0, 0)], wa, oa, **kw), gdspy.FlexPath([(0, 0)], wa, oa, **kw)
    log = []
    for i in range(rng.choice([1, 2, 3])):
        kind = rng.choice(["segment", "turn", "arc", "bezier", "parametric", "smooth"])
        if kind == "turn" and (not log or log[-1][0] != "segment"):
            kind = "arc"
        name, args, opt = section(rng, tr, kind)
        cw = rng.choice([0.09 * s, [0.08 * s] * k])
        co, o = changed(rng, s, o, k, "offset")
        getattr(p, name)(*args, width=cw, offset=co, **opt)
        getattr(q, name)(*args, offset=co, **opt)
        log.append((name, repr(args), repr(opt), repr(cw), repr(co)))
    m.ctx(width=wa, offset=oa, ends=repr(ea), sections=log)
    m.state("constant", [x[0] for x in log], k)
    m.check(np.abs(p.widths - np.array(w)).max() <= 1e-12 * s, "one-width", "widths of a path kept as GDSII path %s, expected %s" % (p.widths.tolist(), w))
    d = snap.differs(snap.snap(p), snap.snap(q))
    m.check(d is None, "one-width", "a path kept as GDSII path depends on the widths asked for along it: %s" % d)
    a, b = [[np.asarray(x).tolist() for x in y.get_polygons()] for y in (p, q)]
    m.check(a == b, "one-width", "polygons of a path kept as GDSII path depend on the widths asked for along it")


def saved(rng, m, p, s, spines, w, ends, l, t, tol=0.0):
    lib = gdspy.GdsLibrary("L", unit=1.0, precision=s * 1e-6)
    cell = gdspy.Cell("A", exclude_from_current=True)
    cell.add(p)
    f = io.BytesIO()
    lib.write_gds(f, cells=[cell])
    els = gds.parse(f.getvalue())["cells"][0]["elements"]
    if not m.check(len(els) == len(w), "saved-spine", "%d elements for %d paths" % (len(els), len(w))):
        return
    unit = s * 1e-6
    for i, e in enumerate(els):
        xy = np.array(e["xy"]) * unit
        margin = 2 * unit + 3 * tol
        d = max(geom.dist_to_polyline(spines[i], xy).max(), geom.dist_to_polyline(xy, spines[i]).max())
        m.check(d <= margin, "saved-spine", "path %d is saved up to %g away from its centre line" % (i, d))
        m.check(np.abs(xy[0] - spines[i][0]).max() <= 2 * unit and np.abs(xy[-1] - spines[i][-1]).max() <= 2 * unit, "saved-spine", "path %d is saved from %s to %s" % (i, xy[0], xy[-1]))
        m.check(abs(e["width"] * unit - w[i]) <= unit, "saved-spine", "width %r, expected %r" % (e["width"] * unit, w[i]))
        m.check((e["layer"], e["datatype"]) == (l[i], t[i]), "saved-spine", "layer and datatype %r" % ((e["layer"], e["datatype"]),))
        pt = {"flush": 0, "round": 1, "smooth": 1, "extended": 2}.get(ends[i], 4) if not isinstance(ends[i], tuple) else 4
        m.check(e.get("pathtype", 0) == pt, "saved-spine", "type %r for %r" % (e.get("pathtype"), ends[i]))
        if pt == 4:
            g = (e.get("bgnextn", 0) * unit, e.get("endextn", 0) * unit)
            m.check(abs(g[0] - ends[i][0]) <= unit and abs(g[1] - ends[i][1]) <= unit, "saved-spine", "extensions %s for %s" % (g, ends[i]))


# Curved sections: exact centre line, normals, offsets and widths (dense).


class Track(object):
    def __init__(self, p, a, s):
        self.p, self.a, self.s = np.array(p, dtype=float), a, s
        self.parts = []

    def dirs(self, d):
        return stroke.unit(d)

    def put(self, c, t, u):
        """Dense points, directions and parameters of the section."""
        self.parts.append((c, self.dirs(t), u))
        self.p, t = c[-1], t[-1]
        self.a = math.atan2(t[1], t[0])


def section(rng, tr, kind, N=300):
    """Appends an exact section; returns the call (name, args, kwargs)."""
    s, p, a = tr.s, tr.p, tr.a
    e, b = np.array((math.cos(a), math.sin(a))), np.array((-math.sin(a), math.cos(a)))
    u = np.linspace(0, 1, N)
    if kind == "segment":
        q = p + s * rng.uniform(0.5, 1) * e
        c = p + u[:, None] * (q - p)
        rel = rng.random() < 0.5
        tr.put(c, np.tile(e, (N, 1)), u)
        return "segment", (tuple(q - p if rel else q),), dict(relative=rel)
    if kind in ("turn", "arc"):
        r, t = s * rng.uniform(0.35, 0.8), rng.choice([-1, 1]) * rng.choice([math.pi / 2, math.pi, rng.uniform(0.1, 2.5)])
        a0 = a - math.copysign(math.pi / 2, t)
        ang = a0 + u * t
        rad = np.stack((np.cos(ang), np.sin(ang)), axis=1)
        c = p + r * (rad - rad[0])
        tr.put(c, stroke.left(rad) * math.copysign(1, t), u)
        tr.turned = abs(t)
        if kind == "turn":
            word = {math.pi / 2: "l", -math.pi / 2: "r", math.pi: "ll", -math.pi: "rr"}.get(t)
            return "turn", (r, word if word and rng.random() < 0.5 else t), {}
        return "arc", (r, a0, a0 + t), {}
    if kind == "bezier":
        h = rng.uniform(-0.4, 0.4) * s
        ctrl = [0.4 * s * e, 0.8 * s * e + h * b]
        if rng.random() < 0.6:
            ctrl.append(1.1 * s * e + (h + rng.uniform(-0.2, 0.2) * s) * b)
        full = p + np.vstack(([(0, 0)], ctrl))
        c = hobbyref.bezier(full, u)
        d = hobbyref.bezier(full[1:] - full[:-1], u)
        rel = rng.random() < 0.5
        tr.put(c, d, u)
        return "bezier", ([tuple(x) for x in (ctrl if rel else full[1:])],), dict(relative=rel)
    if kind == "parametric":
        h = rng.uniform(-0.4, 0.4) * s
        rel = rng.random() < 0.6
        base = np.zeros(2) if rel else p.copy()
        f = lambda x: base + x * s * e + x * x * h * b
        c = p + u[:, None] * s * e + (u ** 2)[:, None] * h * b
        d = s * e + 2 * u[:, None] * h * b
        tr.put(c, d, u)
        return "parametric", (f,), dict(relative=rel)
    # smooth: the next points and (some) directions
    kw = {}
    if kind == "cycle":
        # a loop back to the start
        n = rng.choice([3, 4, 5])
        t = rng.choice([-1, 1])
        q = []
        for i in range(1, n):
            z = 2 * math.pi * i / n + rng.uniform(-0.2, 0.2)
            q.append(p + 0.6 * s * rng.uniform(0.85, 1.15) * (t * (1 - math.cos(z)) * b + math.sin(z) * e))
        ang = [a] + [None] * (n - 1)
        kw["cycle"] = True
    else:
        q = [p + 0.6 * s * e + rng.uniform(-0.2, 0.2) * s * b]
        if rng.random() < 0.5:
            q.append(q[0] + 0.6 * s * e + rng.uniform(-0.2, 0.2) * s * b)
        n = len(q) + 1
        ang = [a] + [None] * (n - 1)
        if rng.random() < 0.4:
            ang[-1] = a + rng.uniform(-0.6, 0.6)
    if rng.random() < 0.3:
        kw.update(t_in=rng.choice([1.2, 0.9]), t_out=rng.choice([1.1, [rng.uniform(0.9, 1.3) for _ in range(n)]]))
    if kind != "cycle" and ang[-1] is None and rng.random() < 0.3:
        kw["curl_end"] = rng.choice([0.5, 2])
    full = np.vstack(([p], q))
    # (angles count from the direction of the chord)
    chords = np.arctan2(*(full[1:] - full[:-1]).T[::-1])
    near = lambda x, y: y + hobbyref.reduce(x - y)
    use = [near(ang[0], chords[0])] + [None] * (n - 2) + [None if ang[-1] is None else near(ang[-1], chords[-1])]
    secs = hobbyref.controls(full, use, **kw)
    pts, dd = [], []
    for z in secs:
        cc = np.array([(v.real, v.imag) for v in z])
        pts.append(hobbyref.bezier(cc, u))
        dd.append(hobbyref.bezier(cc[1:] - cc[:-1], u))
    rel = rng.random() < 0.5
    tr.put(np.vstack(pts), np.vstack(dd), np.concatenate([(u + i) / len(secs) for i in range(len(secs))]))
    return "smooth", ([tuple(x - p if rel else x) for x in q], use), dict(kw, relative=rel)


def case_curved(rng, m, s):
    wa, oa, w, o = parallel(rng, s)
    k = len(w)
    tol = rng.choice([2e-3, 3e-4, 3e-5]) * s
    ca, corners = pick(rng, ["natural", "miter", "bevel", "round", "smooth"], k)
    ea, ends = pick(rng, end_options(rng, s), k)
    la, l, ta, t = layers(rng, k)
    start = (rng.uniform(-s, s), rng.uniform(-s, s))
    tr = Track(start, rng.choice([0, math.pi / 2, math.pi, rng.uniform(-3, 3)]), s)
    p = gdspy.FlexPath([start], wa, oa, corners=ca, ends=ea, tolerance=tol, precision=1e-7 * s, max_points=0, layer=la, datatype=ta)
    n = rng.choice([1, 2, 2, 3])
    last, log, laws = None, [], []
    for i in range(n):
        kind = rng.choice(["segment", "turn", "arc", "bezier", "parametric", "smooth"])
        if last == "segment" and kind == "segment":
            kind = "turn"
        if kind == "turn" and last != "segment":
            kind = "arc"
        name, args, kw = section(rng, tr, kind)
        w0, o0 = w, o
        cw = co = None
        if kind in ("arc", "turn"):
            cw, w = changed(rng, s, w, k, "width")
            co, o = changed(rng, s, o, k, "offset")
        r = getattr(p, name)(*args, width=cw, offset=co, **kw)
        m.check(r is p, "returns-itself", "%s returned %r" % (name, type(r)))
        laws.append((np.array(w0), np.array(w), np.array(o0), np.array(o)))
        log.append((name, repr(args), repr(kw), repr(cw), repr(co)))
        last = kind
    m.ctx(start=start, width=wa, offset=oa, corners=ca, ends=repr(ea), tol=tol, sections=log)
    m.state("curved", [x[0] for x in log], k, corners, [str(e)[:5] for e in ends], [x[3] == "None" for x in log], tol / s)
    m.sample(dict(sections=[x[0] for x in log], paths=k, tolerance=tol / s))
    strokes, bare = [], []
    for i in range(k):
        pieces = []
        for (c, d, u), (w0, w1, o0, o1) in zip(tr.parts, laws):
            n_ = stroke.left(d)
            off = (o0[i] + u * (o1[i] - o0[i]))[:, None]
            pieces.append(band(c + off * n_, n_, w0[i] + u * (w1[i] - w0[i])))
        bare.append(list(pieces))
        c0, d0, _ = tr.parts[0]
        c1, d1, _ = tr.parts[-1]
        for end, c, d, oo, ww in ((0, c0[0], d0[0], laws[0][2][i], laws[0][0][i]), (1, c1[-1], d1[-1], laws[-1][3][i], laws[-1][1][i])):
            x = c + oo * stroke.left(d)
            st = Stroke([x, x + d * s] if end == 0 else [x - d * s, x], [ww, ww])
            style, ext = ("tuple", ends[i]) if isinstance(ends[i], tuple) else (ends[i], None)
            pieces = pieces + st.cap(end, style, ext)
        strokes.append(pieces)
    # near the ends the directions of the first and last chords count
    reach = max(max(np.abs(x[2]).max(), np.abs(x[3]).max()) + max(x[0].max(), x[1].max()) for x in laws)
    reach += max([max(e) for e in ends if isinstance(e, tuple)] + [0])
    slack = 1.6 * reach * math.sqrt(2 * tol / (0.25 * s))
    judge(rng, m, "curved-region", p, l, t, strokes, 4 * tol + slack)
    got = by_key(p, m)
    keys = list(zip(l, t))
    E = 2 * reach + 5 * slack
    # chords of tapers meet a little off the curve
    slope = max((np.abs(x[1] - x[0]).max() + np.abs(x[3] - x[2]).max()) / np.hypot(*(c[1:] - c[:-1]).T).sum() for x, (c, _, _) in zip(laws, tr.parts))
    close = 4 * tol + 0.6 * slope * slack
    for key in sorted(set(keys)):
        pieces = [x for i, q in enumerate(keys) if q == key for x in strokes[i]]
        pts = np.vstack((geom.sample_points(rng, pieces, close, 20, 120), geom.sample_points(rng, got[key], close, 20, 120)))
        far = np.minimum(np.hypot(*(pts - c0[0]).T), np.hypot(*(pts - c1[-1]).T)) > E
        pts = pts[far]
        if len(pts) == 0:
            continue
        bad = judge_points(got[key], pieces, pts, close)
        m.count("points judged", len(pts))
        m.check(bad is None, "curved-region", "%s (%s, within the tolerance)" % (bad, key))


def judge_points(got, pieces, pts, margin):
    g, e = geom.contains(got, pts), geom.contains(pieces, pts)
    d = np.flatnonzero(g != e)
    if len(d) == 0:
        return None
    q = pts[d]
    ring = (q[:, None, :] + margin * stroke.RING[None, :, :]).reshape(-1, 2)
    r = geom.contains(pieces, ring).reshape(len(q), -1)
    bad = np.where(e[d], r.all(1), ~r.any(1))
    if bad.any():
        i = np.flatnonzero(bad)[0]
        return "point %s is %s the polygons and %s the stroke" % (q[i].tolist(), "in" if g[d][i] else "out of", "in" if e[d][i] else "out of")
    return None


def case_callable(rng, m, s):
    n = rng.choice([2, 3, 4])
    pts = polyline(rng, s, n)
    wa, oa, w, o = parallel(rng, s)
    k = len(w)
    calls, ecalls = [], []
    bulge = rng.uniform(0.1, 0.4)

    def corner(p0, v0, p1, v1, c, wd):
        calls.append([np.array(x, dtype=float) for x in (p0, v0, p1, v1, c)] + [float(wd)])
        p0, p1, c = np.array(p0), np.array(p1), np.array(c)
        mid = 0.5 * (p0 + p1)
        if (v0[0] * v1[1] - v0[1] * v1[0]) * (v0[0] * (p0 - c)[1] - v0[1] * (p0 - c)[0]) > 0:
            # the inner side
            return [p0 + stroke.meet(p0, np.array(v0), p1, np.array(v1))[0] * np.array(v0)]
        return [p0, mid + bulge * (mid - np.array(c)), p1]

    def cap(p0, v0, p1, v1):
        ecalls.append([np.array(x, dtype=float) for x in (p0, v0, p1, v1)])
        p0, p1, v0, v1 = (np.array(x, dtype=float) for x in (p0, p1, v0, v1))
        h = bulge * np.hypot(*(p1 - p0))
        a = p0 + h * v0 / np.hypot(*v0)
        b = p1 - 2 * h * v1 / np.hypot(*v1)
        return [p0, a, b, p1]

    tol = 1e-4 * s
    which = rng.choice(["corner", "end", "both"]) if n > 2 else "end"
    kw = dict(corners=corner if which != "end" else "miter", ends=cap if which != "corner" else "flush")
    p = gdspy.FlexPath([tuple(pts[0])], wa, oa, tolerance=tol, max_points=0, precision=1e-7 * s, **kw)
    W, O = [w], [o]
    for i in range(1, n):
        cw, w = changed(rng, s, w, k, "width")
        co, o = changed(rng, s, o, k, "offset")
        p.segment(tuple(pts[i]), cw, co)
        W.append(w)
        O.append(o)
    W, O = np.array(W, dtype=float), np.array(O, dtype=float)
    m.ctx(points=pts, widths=W, offsets=O, which=which, bulge=bulge)
    m.state("callable", n, k, which)
    p.get_polygons()
    strokes, want, ewant = [], [], []
    for i in range(k):
        st = Stroke(stroke.centre(pts, O[:, i]), W[:, i])
        pieces = st.quads()
        for j in range(1, n - 1):
            for sd in (0, 1):
                want.append((st.b[sd][j - 1], st.t[j - 1], st.a[sd][j], st.t[j], st.c[j], W[j, i], st.b[sd][j - 1] - st.a[sd][j - 1], st.b[sd][j] - st.a[sd][j]))
            if which == "end":
                pieces += st.corner(j, "miter")
            else:
                _, p0, _, p1, _ = st.outer(j)
                mid = 0.5 * (p0 + p1)
                pieces.append(np.array([st.c[j], p0, mid + bulge * (mid - st.c[j]), p1]))
        if which != "corner":
            for end in (0, 1):
                d = -1 if end == 0 else 1
                q = 0 if end == 0 else len(st.t) - 1
                r, l_ = (st.a[0][0], st.a[1][0]) if end == 0 else (st.b[0][q], st.b[1][q])
                vr, vl = d * (st.b[0][q] - st.a[0][q]), d * (st.b[1][q] - st.a[1][q])
                ewant.append((r, vr, l_, -vl))
                h = bulge * np.hypot(*(r - l_))
                pieces.append(np.array([r, r + h * stroke.unit(vr), l_ + 2 * h * stroke.unit(vl), l_]))
        strokes.append(pieces)
    eps = 1e-7 * (s + np.abs(pts).max())

    def parallel_to(u, v):
        u, v = u / np.hypot(*u), v / np.hypot(*v)
        return np.abs(u - v).max() < 1e-6

    if which != "end":
        m.check(len(calls) == len(want), "corner-callable", "%d calls, expected %d" % (len(calls), len(want)))
        un = geom.match_multiset(
            calls, want,
            lambda a, b: np.abs(a[0] - b[0]).max() < eps and np.abs(a[2] - b[2]).max() < eps and np.abs(a[4] - b[4]).max() < eps and abs(a[5] - b[5]) < eps and parallel_to(a[1], b[6]) and parallel_to(a[3], b[7]),
        ) if len(calls) == len(want) else None
        m.check(un is None, "corner-callable", "called with %s" % (un,))
    if which != "corner":
        m.check(len(ecalls) == len(ewant), "end-callable", "%d calls, expected %d" % (len(ecalls), len(ewant)))
        un = geom.match_multiset(
            ecalls, ewant, lambda a, b: np.abs(a[0] - b[0]).max() < eps and np.abs(a[2] - b[2]).max() < eps and parallel_to(a[1], b[1]) and parallel_to(a[3], b[3])
        ) if len(ecalls) == len(ewant) else None
        m.check(un is None, "end-callable", "called with %s" % (un,))
    judge(rng, m, "corner-callable" if which == "corner" else "end-callable", p, [0] * k, [0] * k, strokes, 3 * tol)


def case_spine(rng, m, s):
    """What the spine goes through, one section after the other."""
    start = (rng.uniform(-s, s), rng.uniform(-s, s))
    w, o = 0.02 * s, 0
    tol = rng.choice([1e-3, 1e-4]) * s
    if rng.random() < 0.5:
        p = gdspy.FlexPath([start], w, tolerance=tol)
    else:
        w = [0.01 * s, 0.02 * s]
        p = gdspy.FlexPath(start, w, 0.05 * s, tolerance=tol)
    tr = Track(start, rng.uniform(-3, 3), s)
    last, log = None, []
    eps = 1e-9 * 20 * s
    for i in range(rng.choice([2, 3, 5])):
        kind = rng.choice(["segment", "turn", "arc", "bezier", "parametric", "smooth", "smooth", "cycle"])
        if kind == "turn" and last != "segment":
            kind = "arc"
        before = len(p.points)
        name, args, kw = section(rng, tr, kind)
        getattr(p, name)(*args, **kw)
        log.append((name, repr(args), repr(kw)))
        m.ctx(start=start, sections=log, tol=tol)
        new = np.array(p.points[before - 1 :], dtype=float)
        c, d, u = tr.parts[-1]
        clause = "loops" if kind == "cycle" else "smooth-spine" if kind == "smooth" else "spine"
        m.check(np.abs(new[0] - c[0]).max() <= eps and np.abs(new[-1] - c[-1]).max() <= eps, clause, "%s goes from %s to %s, expected %s to %s" % (name, new[0], new[-1], c[0], c[-1]))
        on = geom.dist_to_polyline(c, new).max()
        m.check(on <= 1e-4 * s * 0.5 + eps, clause, "%s has points %g away from its curve" % (name, on))
        dev = geom.dist_to_polyline(new, c).max()
        limit = 1.3
        if kind in ("turn", "arc"):
            angle = abs(args[2] - args[1]) if kind == "arc" else tr.turned
            limit = max(1.05, rounded(arc_chords(angle, args[0], tol), 2))
        m.check(dev <= limit * tol + 1e-6 * s, clause, "%s departs from its curve by %g with tolerance %g" % (name, dev, tol))
        # in order along the curve (that may cross itself)
        near = 1e-4 * s + np.hypot(*(c[1:] - c[:-1]).T).max()
        at = 0
        for x in new:
            j = np.flatnonzero(np.hypot(*(c - x).T) <= near)
            j = j[j >= at - 2]
            if not m.check(len(j) > 0, clause, "%s goes back and forth" % name):
                break
            at = j[0]
        if kind in ("smooth", "cycle"):
            q = np.array(args[0]) + (c[0] if kw["relative"] else 0)
            miss = max(np.hypot(*(new - x).T).min() for x in q)
            m.check(miss <= eps, clause, "smooth misses a point by %g" % miss)
        m.check(len(p.widths) == len(p.points) == len(p.offsets), clause, "widths and offsets for another number of points")
        last = kind
    m.state("spine", [x[0] for x in log], tol / s)


def rounded(x, least):
    """Largest deviation (in tolerances) when x chords are rounded."""
    return 1.03 * (x / max(least, math.floor(x + 0.5))) ** 2


def arc_chords(angle, r, tol):
    return 0.5 * abs(angle) / (math.pi if 2 * r <= tol else math.acos(1 - tol / r))


def case_within(rng, m, s):
    """Caps and joins stay within tolerance of their exact curves."""
    n = rng.choice([2, 2, 3, 4])
    pts = polyline(rng, s, n)
    k = 1 if n == 2 and rng.random() < 0.6 else rng.choice([1, 2])
    h = 0.5 * rng.uniform(0.04, 0.12) * s
    o = [0.0] if k == 1 else [-1.5 * h, 1.5 * h]
    tol = h * 10 ** rng.uniform(-4, -1.2)
    ends = rng.choice(["round", "round", "smooth", "smooth", "flush"]) if n > 2 else rng.choice(["round", "smooth"])
    corner = rng.choice(["round", "smooth"])
    bend = n > 2 and rng.random() < 0.25
    radius = rng.uniform(1.5, 4) * h
    kw = dict(ends=ends, tolerance=tol, precision=1e-7 * s, max_points=0)
    kw.update(dict(corners="circular bend", bend_radius=radius) if bend else dict(corners=corner))
    p = gdspy.FlexPath(pts, [2 * h] * k, o, **kw)
    m.ctx(points=pts, width=2 * h, offsets=o, options={a: repr(b) for a, b in kw.items()})
    m.state("within", n, k, ends, "bend" if bend else corner, round(math.log10(tol / h) * 2))
    polys = [np.asarray(x) for x in p.get_polygons()]

    def look(what, curve, limit):
        far = geom.dist_to_edges(polys, curve).max()
        m.check(far <= limit * tol + 1e-8 * s, "within-tolerance", "%s is %.3g tolerances away from its curve (at most %.3g)" % (what, far / tol, limit))

    N = 2000 if tol < 1e-3 * h else 500
    for i in range(k):
        st = Stroke(stroke.centre(pts, np.full(n, o[i])), np.full(n, 2 * h))
        for e in (0, 1):
            if ends == "round":
                d = -st.t[0] if e == 0 else st.t[-1]
                a = math.atan2(d[1], d[0])
                look("round end", stroke.sector(st.c[-e], h, a - math.pi / 2, a + math.pi / 2, N), rounded(arc_chords(math.pi, h, tol), 4))
            elif ends == "smooth":
                look("smooth end", cap_curve(st, e, N), 1.1)
        for j in range(1, n - 1):
            a = st.turn(j)
            if bend:
                nn = stroke.left(st.t[j - 1]) * math.copysign(1, a)
                c = st.c[j] - radius * math.tan(abs(a) / 2) * st.t[j - 1] + radius * nn
                a0 = math.atan2(-nn[1], -nn[0])
                for r in (radius - h, radius + h):
                    look("circular bend", stroke.sector(c, r, a0, a0 + a, N), rounded(arc_chords(a, r, tol), 1))
                continue
            sd, p0, v0, p1, v1 = st.outer(j)
            if corner == "round":
                a0 = math.atan2(*(p0 - st.c[j])[::-1])
                look("round join", stroke.sector(st.c[j], h, a0, a0 + a, N), rounded(arc_chords(a, h, tol), 3))
            else:
                look("smooth join", stroke.fit(p0, v0, p1, v1, N), 1.1)


def cap_curve(st, e, n):
    i, j = (0, 0) if e == 0 else (len(st.t) - 1, -1)
    d = -st.t[0] if e == 0 else st.t[-1]
    r, l = (st.a[0][0], st.a[1][0]) if e == 0 else (st.b[0][i], st.b[1][i])
    return stroke.fit(r, d, l, -d, n)


def case_taper(rng, m, s):
    """Tapers along general curves: from the old to the new values, monotonic."""
    k = rng.choice([1, 2, 3])
    w = [rng.uniform(0.03, 0.06) * s for _ in range(k)]
    o = [0.1 * s * (i - (k - 1) / 2.0) for i in range(k)]
    start = (rng.uniform(-s, s), rng.uniform(-s, s))
    tr = Track(start, rng.uniform(-3, 3), s)
    p = gdspy.FlexPath([start], list(w), list(o), tolerance=1e-4 * s)
    kind = rng.choice(["bezier", "parametric", "smooth"])
    name, args, kw = section(rng, tr, kind)
    cw, w1 = changed(rng, s, w, k, "width")
    co, o1 = changed(rng, s, o, k, "offset")
    getattr(p, name)(*args, width=cw, offset=co, **kw)
    m.ctx(kind=kind, args=repr(args), width=[w, cw], offset=[o, co], kw=repr(kw))
    m.state("taper", kind, k, cw is None, co is None, np.isscalar(cw), np.isscalar(co))
    for what, a, b, got in (("width", w, w1, p.widths), ("offset", o, o1, p.offsets)):
        a, b, got = np.array(a), np.array(b), np.array(got, dtype=float)
        eps = 1e-9 * s
        m.check(np.abs(got[0] - a).max() <= eps and np.abs(got[-1] - b).max() <= eps, "monotonic-taper", "%s from %s to %s, expected %s to %s" % (what, got[0], got[-1], a, b))
        step = (got[1:] - got[:-1]) * np.sign(b - a)
        flat = (got[1:] - got[:-1])[:, a == b]
        m.check((step >= -eps).all() and (np.abs(flat) <= eps).all(), "monotonic-taper", "%s is not monotonic" % what)
