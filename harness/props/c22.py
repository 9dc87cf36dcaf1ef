"""C22: polygonal paths cover the bands asked for."""
import math
import warnings

import gdspy
import numpy as np

import geom
import hobbyref
import stroke

RULE = (
    "Sequences of segments, arcs, turns, parametric sections, Bezier curves and splines on polygonal paths (several parallel paths, tapers of widths and distances, "
    "vertex limits, transformations in between), Manhattan paths and polyline paths. An own model keeps the position, direction, width, distance and length; the "
    "polygons each section adds are compared, for each parallel path, with the band of the local width around its own centre line by points, by vertices and by "
    "the vertices lying on the outline. Non-trivial: a section adds polygons; distinct by section, number of paths, tapers, limits."
)
ASSUMPTIONS = [
    "Bands do not fold: the radius of curvature is larger than the distance to the farthest side of the outermost path.",
    "Path k of a Path is the k-th one from the left in every section (of L1Path and PolyPath: from the right).",
    "The factor that a turn of an L1Path gives for the width also applies to the distance between its paths.",
    "Angles of sections found from finite differences of the curve are checked to the accuracy of such differences.",
]
REQUIRED = [
    "corners", "band", "vertices-on-outline", "position", "direction", "width", "distance", "length", "max-points", "layers", "number-of-points", "l1-outline", "l1-end",
    "poly-outline", "poly-caps", "no-warning", "coincident-control-points",
]
DIRS = {"+x": 0.0, "+y": math.pi / 2, "-x": math.pi, "-y": -math.pi / 2}


def cases(tier):
    k = 6 if tier == "quick" else 66
    return [("path", 100 * k), ("l1", 60 * k), ("poly", 80 * k), ("retracted", 20 * k)]


def run_case(kind, index, rng, m):
    s = rng.choice([1.0, 1.0, 40.0, 1e3, 1e-2])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        globals()["case_" + kind](rng, m, s)
        ws = [w for w in ws if not issubclass(w.category, DeprecationWarning)]
    m.check(not ws, "no-warning", "warning: %s" % (ws and ws[0].message,))


def case_retracted(rng, m, s):
    """Bezier sections with coincident control points at their ends."""
    stroke.retracted(rng, m, s, "path")


def unit(a):
    return np.array((math.cos(a), math.sin(a)))


def normals(d):
    """Left normals of derivatives."""
    return stroke.left(stroke.unit(d))


def layering(rng, n):
    """(arguments, [(layer, datatype)] of each path)."""
    r = rng.random()
    kw = {}
    if r < 0.5:
        a = rng.sample(range(0, 250), n)
        b = [rng.randrange(0, 250) for _ in range(n)]
        if n > 1 and rng.random() < 0.3:
            a = a[: rng.randrange(1, n)]
        if rng.random() < 0.3:
            b = b[: rng.randrange(1, n + 1)]
        kw = dict(layer=a, datatype=b)
    elif r < 0.7:
        a, b = rng.randrange(250), rng.sample(range(250), n)
        kw = dict(layer=a, datatype=b)
        a = [a]
    elif r < 0.9:
        a, b = rng.randrange(250), rng.randrange(250)
        kw = dict(layer=a, datatype=b)
        a, b = [a], [b]
    else:
        a, b = [0], [0]
    return kw, [(a[i % len(a)], b[i % len(b)]) for i in range(n)]


class Band(object):
    """Samples of a section: centres, left normals, half widths, distances."""

    def __init__(self, c, n, h, d):
        self.c, self.n, self.h, self.d = c, n, np.asarray(h, dtype=float), np.asarray(d, dtype=float)
        self.resid = None

    def sides(self, i, count):
        off = (0.5 * (count - 1) - i) * self.d
        return self.c + self.n * (off - self.h)[:, None], self.c + self.n * (off + self.h)[:, None]

    def pieces(self, i, count, step=40):
        r, l = self.sides(i, count)
        out = []
        for k in range(0, len(r) - 1, step):
            out.append(np.vstack((r[k : k + step + 1], l[k : k + step + 1][::-1])))
        return out

    def outline(self, i, count):
        r, l = self.sides(i, count)
        return np.vstack((r, l[::-1], r[:1]))

    def area(self, i, count):
        return sum(abs(geom.signed_area(p)) for p in self.pieces(i, count, 1 if len(self.c) < 3 else 10))


class Model(object):
    def __init__(self, p, d, w, dist, n):
        self.p, self.a, self.w, self.d, self.n, self.length = np.array(p, dtype=float), d, w, dist, n, 0.0


def check_band(rng, m, polys, keys, band, n, margin, on, what):
    """The polygons of one section against the bands of the n paths."""
    per = {}
    for k, p in polys:
        per.setdefault(k, []).append(p)
    if not m.check(set(per) == set(keys), "layers", "%s: polygons with %s instead of %s" % (what, sorted(per), sorted(set(keys)))):
        return False
    for k in sorted(per):
        ids = [i for i in range(n) if keys[i] == k]
        pieces = [q for i in ids for q in band.pieces(i, n)]
        bad, _ = stroke.compare(rng, per[k], pieces, margin, 50)
        if not m.check(bad is None, "band", "%s, paths %s of %d: %s" % (what, ids, n, bad)):
            return False
        out = [band.outline(i, n) for i in ids]
        # a polygon may be cut across: only its vertices are on the outline
        v = np.vstack(per[k])
        d = np.min([band.resid(v, i, n) if band.resid else geom.dist_to_polyline(o, v) for i, o in zip(ids, out)], 0)
        if not m.check(d.max() <= on, "vertices-on-outline", "%s: vertex %s is %g away from the sides of the paths %s" % (what, v[d.argmax()].tolist(), d.max(), ids)):
            return False
        a, b = sum(abs(geom.signed_area(p)) for p in per[k]), sum(band.area(i, n) for i in ids)
        t = margin * 0.7 * sum(geom.perimeter(o) for o in out) + 1e-9 * b
        if not m.check(abs(a - b) <= t, "band", "%s: area %r instead of %r (%r)" % (what, a, b, t)):
            return False
    return True


def taper(rng, m, s, final=True):
    """(half widths, distances) at start and end and the arguments."""
    kw = {}
    w1, d1 = m.w, m.d
    if rng.random() < 0.4:
        w1 = rng.choice([0, 1, 1, 1, 1]) * s * rng.uniform(0.02, 0.12)
        kw["final_width"] = w1
    if rng.random() < 0.4:
        d1 = s * rng.uniform(0.1, 0.2)
        kw["final_distance"] = d1
    return w1, d1, kw


def case_path(rng, m, s):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    w, d = s * rng.uniform(0.02, 0.12), s * rng.uniform(0.1, 0.2) * (n > 1 or rng.random() < 0.3)
    start = rng.choice([(0, 0), (rng.uniform(-s, s), rng.uniform(-s, s))])
    p = gdspy.Path(w, rng.choice([tuple, list, np.array])(start), n, d)
    x = Model(start, 0.0, w, d, n)
    done = []
    zero = False
    for _ in range(rng.choice([1, 2, 3, 4, 5])):
        what = rng.choice(["segment", "segment", "arc", "turn", "turn", "parametric", "bezier", "smooth", "transform"])
        if what == "transform" and not done:
            continue
        done.append(what)
        m.ctx(sections=done, s=s, n=n, start=start)
        if what == "transform":
            transform(rng, p, x, s)
        else:
            keep = len(p.polygons)
            kw, keys = layering(rng, n)
            w0 = x.w
            before = x.p.copy()
            r = globals()["add_" + what](rng, m, p, x, s, dict(kw))
            if r is None:
                return
            band, margin, on, limit, back, text, free = r
            m.ctx(last=text)
            m.check(back is p, "layers", "the section does not return the path")
            if not m.check(len(p.polygons) == len(p.layers) == len(p.datatypes), "layers", "%s: %d polygons, %d layers, %d datatypes" % (text, len(p.polygons), len(p.layers), len(p.datatypes))):
                return
            if w0 == 0 and x.w == 0 and what in ("segment", "arc", "turn"):
                zero = True  # (nothing is drawn; the length is then not kept)
                m.check(len(p.polygons) == keep, "band", "%s: polygons of a path without width" % text)
            elif not zero or x.w or w0:
                polys = [((l, t), np.asarray(q, dtype=float)) for q, l, t in list(zip(p.polygons, p.layers, p.datatypes))[keep:]]
                if w0 == 0 and x.w == 0 and not free:
                    m.skip("no width")
                else:
                    if limit:
                        big = max(len(q) for _, q in polys)
                        m.check(big <= limit, "max-points", "%s: polygon with %d vertices" % (text, big))
                    if not check_band(rng, m, polys, keys, band, n, margin, on, text):
                        return
            m.state(what, n, sorted(text)[:0], tuple(sorted(kw)), w0 == 0, x.w == 0, bool(limit), len(p.polygons) - keep > n, free)
        tol = 1e-9 * (s + np.abs(x.p).max())
        m.check(math.hypot(p.x - x.p[0], p.y - x.p[1]) <= tol + x.__dict__.get("slack", 0), "position", "after %s: (%r, %r) instead of %s" % (done, p.x, p.y, x.p.tolist()))
        a = DIRS[p.direction] if isinstance(p.direction, str) else p.direction
        m.check(abs(hobbyref.reduce(a - x.a)) <= 1e-7 + x.__dict__.get("aslack", 0), "direction", "after %s: %r instead of %r" % (done, p.direction, x.a))
        x.a = a
        m.check(abs(2 * p.w - x.w) <= 1e-12 * s, "width", "after %s: half width %r instead of %r" % (done, p.w, x.w / 2))
        m.check(abs(p.distance - x.d) <= 1e-12 * s, "distance", "after %s: distance %r instead of %r" % (done, p.distance, x.d))
        if not zero:
            m.check(abs(p.length - x.length) <= 1e-9 * (s + x.length) + x.__dict__.get("lslack", 0), "length", "after %s: length %r instead of %r" % (done, p.length, x.length))
        m.check(p.n == n, "distance", "number of paths %r" % p.n)
    if n == 1 and not zero and x.__dict__.get("lslack", 0) == 0 and p.polygons:
        m.count("whole paths")


def transform(rng, p, x, s):
    k = rng.choice(["translate", "rotate", "scale"])
    if k == "translate":
        v = np.array((rng.uniform(-s, s), rng.uniform(-s, s)))
        p.translate(*v)
        x.p = x.p + v
        return
    c = np.array((rng.uniform(-s, s), rng.uniform(-s, s)))
    if k == "rotate":
        a = rng.choice([math.pi / 2, rng.uniform(-3, 3)])
        p.rotate(a, tuple(c))
        x.a += a
        x.p = geom.apply(geom.a_about(geom.a_rotate(a), c), [x.p])[0]
    else:
        f = rng.choice([rng.uniform(0.7, 1.3)])
        p.scale(f, center=tuple(c))
        x.p = c + f * (x.p - c)
        x.w, x.d, x.length = f * x.w, f * x.d, f * x.length
        x.lslack = f * x.__dict__.get("lslack", 0)


def reach(x, w0, d0):
    return max(abs(x.d), abs(d0)) * (x.n - 1) / 2.0 + max(x.w, w0) / 2.0


def add_segment(rng, m, p, x, s, kw):
    w1, d1, t = taper(rng, x, s)
    kw.update(t)
    length = s * rng.uniform(0.3, 2)
    a = x.a
    r = rng.random()
    if r < 0.3:
        kw["direction"] = rng.choice(sorted(DIRS))
        a = DIRS[kw["direction"]]
    elif r < 0.6:
        kw["direction"] = a = rng.uniform(-4, 4)
    ax = 0
    if rng.random() < 0.3:
        kw["axis_offset"] = ax = rng.uniform(-0.6, 0.6) * s
    text = "segment(%r, %r)" % (length, kw)
    back = p.segment(length, **kw)
    # to the right of the direction
    end = x.p + length * unit(a) + ax * unit(a - math.pi / 2)
    nrm = np.array([unit(a + math.pi / 2)] * 2)
    b = Band(np.array([x.p, end]), nrm, [x.w / 2, w1 / 2], [x.d, d1])
    x.p, x.a, x.w, x.d = end, a, w1, d1
    x.length += math.hypot(length, ax)
    tol = 1e-9 * (s + np.abs(end).max())
    m.seen("corners")
    return b, tol, tol, 0, back, text, True


def limits(rng):
    return rng.choice([0, 199, 199, 30, 20, 12, 8])


def add_arc(rng, m, p, x, s, kw, turn=None):
    w1, d1, t = taper(rng, x, s)
    kw.update(t)
    w0, d0 = x.w, x.d
    x.w, x.d = w1, d1
    rr = reach(x, w0, d0)
    R = rr * rng.uniform(1.2, 2) + s * rng.choice([0.05, rng.uniform(0.1, 1.5)])
    exact = None
    if turn:
        if rng.random() < 0.5:
            exact = rng.choice(["r", "l", "rr", "ll"])
            ang = {"r": -math.pi / 2, "l": math.pi / 2, "rr": -math.pi, "ll": math.pi}[exact]
        else:
            ang = rng.choice([-1, 1]) * rng.uniform(0.1, 4)
        i0 = x.a - math.copysign(math.pi / 2, ang)
    else:
        i0 = rng.choice([x.a + math.pi / 2, x.a - math.pi / 2, rng.uniform(-7, 7)])
        ang = rng.choice([-1, 1]) * rng.choice([math.pi / 2, rng.uniform(0.05, 3), rng.uniform(3, 9)])
    i1 = i0 + ang
    tol = s * rng.choice([1e-2, 1e-3, 1e-4, 1e-5])
    mp = limits(rng)
    np_ = None
    r = rng.random()
    if r < 0.2:
        np_ = rng.choice([8, 9, 20, 33, 64, 150]) + (w0 == 0) + (w1 == 0)
        np_ = max(np_, int(8 * abs(ang)))
        kw["number_of_points"] = np_
    elif r < 0.25:
        kw["number_of_points"] = float(tol)
    else:
        kw["tolerance"] = tol
    if mp != 199 or rng.random() < 0.5:
        kw["max_points"] = mp
    keep = len(p.polygons)
    if turn:
        text = "turn(%r, %r, %r)" % (R, exact or ang, kw)
        back = p.turn(R, exact or ang, **kw)
    else:
        text = "arc(%r, %r, %r, %r)" % (R, i0, i1, kw)
        back = p.arc(R, i0, i1, **kw)
    c = x.p - R * unit(i0)
    x.p, x.a = c + R * unit(i1), i1 + math.copysign(math.pi / 2, ang)
    x.length += R * abs(ang)
    sg = math.copysign(1, ang)

    def arc(tol):
        u = np.linspace(0, 1, 2 + int(abs(ang) / math.sqrt(8 * tol / (R + rr))))
        e = np.stack((np.cos(i0 + ang * u), np.sin(i0 + ang * u)), 1)
        return Band(c + R * e, -sg * e, (w0 + (w1 - w0) * u) / 2, d0 + (d1 - d0) * u)

    def resid(v, i, n):
        v = v - c
        r = np.hypot(v[:, 0], v[:, 1])
        al = np.arctan2(v[:, 1], v[:, 0])
        best = np.full(len(v), np.inf)
        lo = sg * (al - i0) % (2 * math.pi)
        lo = np.where(lo > 2 * math.pi - 1e-7, lo - 2 * math.pi, lo)
        for t in range(int(abs(ang) / 2 / math.pi) + 1):
            u = (lo + 2 * math.pi * t) / abs(ang)
            for g in (-0.5, 0.5):
                # (left is towards the centre when turning left)
                rad = R - sg * ((d0 + (d1 - d0) * u) * ((n - 1) / 2.0 - i) + g * (w0 + (w1 - w0) * u))
                best = np.where(u < 1 + 1e-7, np.minimum(best, np.abs(r - rad)), best)
        return best

    if w0 == 0 and w1 == 0:
        return None, 0, 0, 0, back, text, False
    new = p.polygons[keep:]
    pieces = max(1, len(new) // x.n)
    count = min(len(q) for q in new)
    m.check(len(new) % x.n == 0, "layers", "%s: %d polygons for %d paths" % (text, len(new), x.n))
    if np_ is not None and pieces == 1:
        m.check(count == np_ == max(len(q) for q in new), "number-of-points", "%s: %d vertices" % (text, count))
    chords = max(1, count // 2 - 1 - (w0 == 0 or w1 == 0))
    h = abs(ang) / pieces / chords / 2
    sag = (R + rr) * (1 - math.cos(min(h, math.pi)))
    if np_ is None and (mp == 0 or mp >= 20) and w0 and w1:
        n = 0.5 * abs(ang) / math.acos(max(-1, 1 - tol / (R + rr)))
        if pieces == 1:
            most = max(1.05, 1.05 * (n / max(2, math.floor(n + 0.5))) ** 2) * tol
            m.check(sag <= most, "band", "%s: %d points are %g away from the arc (at most %g)" % (text, count, sag, most))
        m.check(sag <= 4 * tol or count // 2 * pieces <= 4 or tol > 0.1 * R, "band", "%s: %d points for each of %d pieces are %g away from the arc" % (text, count, pieces, sag))
    # sides of tapers are spirals: their chords are slightly different
    slope = (abs(w1 - w0) / 2 + abs(d1 - d0) * (x.n - 1) / 2) / abs(ang)
    margin = sag * 1.05 + slope * h * h + 1e-5 * s
    b = arc(0.1 * margin)
    b.resid = resid
    on = 1e-9 * (s + np.abs(c).max() + R)
    return b, 1.1 * margin, on, mp, back, text, True


def add_turn(rng, m, p, x, s, kw):
    return add_arc(rng, m, p, x, s, kw, True)


def sample(f, n):
    u = np.linspace(0, 1, n + 1)
    return u, np.array([f(v) for v in u])


def add_parametric(rng, m, p, x, s, kw, make=None):
    w0, d0 = x.w, x.d
    r = rng.random()
    wf = df = None
    w1, d1, t = taper(rng, x, s)
    kw.update(t)
    if make is None and r < 0.2:
        wa, wb = rng.uniform(0.02, 0.1) * s, rng.uniform(0.02, 0.1) * s
        kw["final_width"] = wf = lambda u: wa + (wb - wa) * u * u
        w0, w1 = max(wa, wb), wb
    if make is None and rng.random() < 0.2:
        da, db = rng.uniform(0.1, 0.2) * s, rng.uniform(0.1, 0.2) * s
        kw["final_distance"] = df = lambda u: da + (db - da) * u * u
        d0, d1 = max(da, db), db
    x.w, x.d = w1, d1
    R = reach(x, w0, d0)
    s2 = max(s, 4 * R)
    # (relative to the current point)
    e, b = unit(x.a), unit(x.a + math.pi / 2)
    if rng.random() < 0.3:
        a = rng.uniform(-3, 3)
        e, b = unit(a), unit(a + math.pi / 2)
    k = rng.choice(["quadratic", "sine", "circle"]) if make is None else make
    rel = rng.random() < 0.6
    org = x.p if not rel else np.zeros(2)
    tol = s * rng.choice([1e-2, 1e-3, 1e-4])
    mp = rng.choice([0, 3, 199, 199, 40, 11, 6, 4])
    ne = rng.choice([5, 5, 6, 9, 20])
    deriv = rng.random() < 0.6
    keep = len(p.polygons)
    form = rng.choice([tuple, list, np.array])
    if k == "quadratic":
        A, B = s2 * rng.uniform(0.8, 2) * e, s2 * rng.uniform(-0.4, 0.4) * b
        f, df1 = lambda u: org + u * A + u * u * B, lambda u: A + 2 * u * B
    elif k == "sine":
        A, B = s2 * rng.uniform(1.5, 3) * e, s2 * rng.uniform(-0.2, 0.2) * b
        f, df1 = lambda u: org + u * A + math.sin(2 * u) * B, lambda u: A + 2 * math.cos(2 * u) * B
    elif k == "circle":
        t, q = rng.choice([-1, 1]) * rng.uniform(0.5, 3), s2 * rng.uniform(0.6, 1.2)
        f = lambda u: org + q * (math.sin(abs(t) * u) * e + math.copysign(1, t) * (1 - math.cos(t * u)) * b)
        df1 = lambda u: q * abs(t) * (math.cos(t * u) * e + math.sin(t * u) * b * 1.0)
        df1 = lambda u: q * (abs(t) * math.cos(abs(t) * u) * e + math.copysign(1, t) * t * math.sin(t * u) * b)
    else:  # bezier
        c = rng.choice([1, 2, 3, 4])
        ctl = [np.zeros(2)] + [s2 * ((j + 1) * rng.uniform(0.75, 0.85) * e + rng.uniform(-0.2, 0.2) * b) for j in range(c)]
        def f(u, ctl=ctl):
            q = [org + v for v in ctl]
            while len(q) > 1:
                q = [(1 - u) * a + u * b for a, b in zip(q[:-1], q[1:])]
            return q[0]
        def df1(u, ctl=ctl):
            q = [len(ctl[1:]) * (b - a) for a, b in zip(ctl[:-1], ctl[1:])]
            while len(q) > 1:
                q = [(1 - u) * a + u * b for a, b in zip(q[:-1], q[1:])]
            return q[0]
    n = 800
    u, c = sample(f, n)
    dv = np.array([df1(v) for v in u])
    opts = dict(kw, tolerance=tol, max_points=mp, number_of_evaluations=ne)
    if not rel or rng.random() < 0.5:
        opts["relative"] = rel
    text = "%s(%s, %r)" % ("bezier" if make else "parametric", k, {q: v for q, v in opts.items()})
    if make:
        deriv = True
        back = p.bezier(form([form(org + v) for v in ctl[1:]]), **opts)
    else:
        if deriv:
            # the norm of the derivative does not matter
            g = rng.choice([1.0, 7.0, 1e-3])
            opts["curve_derivative"] = lambda v: form(g * df1(v))
        back = p.parametric(lambda v: form(f(v)), **opts)
    base = x.p if rel else np.zeros(2)
    hw = np.array([wf(v) for v in u]) / 2 if wf else ((p_w(x, w0, w1, u)) / 2)
    hd = np.array([df(v) for v in u]) if df else d0 + (d1 - d0) * u
    return finish(m, p, x, s, c + base, dv, hw, hd, tol, mp, deriv, ne, R, keep, back, text)


def p_w(x, w0, w1, u):
    return w0 + (w1 - w0) * u


def finish(m, p, x, s, c, dv, hw, hd, tol, mp, deriv, ne, R, keep, back, text, w0=None):
    n = len(c) - 1
    b = Band(c, normals(dv), hw, hd)
    sp = np.hypot(dv[:, 0], dv[:, 1])
    th = np.unwrap(np.arctan2(dv[:, 1], dv[:, 0]))
    kap = np.abs(np.diff(th) * n / sp[1:]).max()
    if kap * R > 0.85:
        m.skip("folded")
        x.skip = True
    x.p, x.a = c[-1], th[-1]
    chord = np.hypot(*(c[1:] - c[:-1]).T).sum()
    x.length += chord
    h = 1.0 / (ne - 1)
    x.lslack = x.__dict__.get("lslack", 0) + (4e-3 + 0.6 * kap * tol) * chord  # (chords with a sag of tol)
    # angle of one-sided differences at the ends
    end = 0.0 if deriv else R * np.abs(np.diff(th)).max() * n * h / 4 * 1.3
    x.aslack = 0.0 if deriv else np.abs(np.diff(th)).max() * n * h / 4 * 1.3 + 1e-3
    grow = 1 + kap * R
    tap = np.abs(np.diff(hw, 2)).max() * n * n * h * h / 8 + (x.n - 1) / 2.0 * np.abs(np.diff(hd, 2)).max() * n * n * h * h / 8 if n > 2 else 0
    tapsag = (np.abs(np.diff(hw)).max() + (x.n - 1) / 2.0 * np.abs(np.diff(hd)).max()) * n * np.abs(np.diff(th)).max() * n
    # how far apart the samples of the path can be for this tolerance
    curv = (kap * sp.max() ** 2) or 1e-300
    du = min(h, math.sqrt(8 * 3 * tol / curv))
    sag = 3 * tol * grow * 1.3 + tap + tapsag * du * du
    on = 1e-9 * (s + np.abs(c).max()) + (kap * sp.max() ** 2 * grow / n ** 2) + (0 if deriv else end + R * 0.05)
    return b, sag + on + end, on, mp if mp >= 4 else 0, back, text, True


def add_bezier(rng, m, p, x, s, kw):
    return add_parametric(rng, m, p, x, s, kw, "bezier")


def add_smooth(rng, m, p, x, s, kw):
    w0, d0 = x.w, x.d
    k = rng.choice([1, 2, 3])
    e, b = unit(x.a), unit(x.a + math.pi / 2)
    s2 = max(s, 5 * (reach(x, w0, d0) + 0.3 * s))
    pts = [s2 * ((j + 1) * rng.uniform(0.8, 1) * e + rng.uniform(-0.3, 0.3) * b) for j in range(k)]
    rel = rng.random() < 0.6
    org = x.p if not rel else np.zeros(2)
    base = x.p if rel else np.zeros(2)
    opts = {}
    ang = None
    if rng.random() < 0.5 or k == 1:
        ang = [x.a + rng.uniform(-0.3, 0.3)] + [None] * (k - 1) + [x.a + rng.uniform(-0.4, 0.4)]
        full = [x.p] + [base + org + q for q in pts]
        # smooth counts turns: angles next to those of the chords
        ang[0] = near(ang[0], full[1] - full[0])
        ang[-1] = near(ang[-1], full[-1] - full[-2])
        opts["angles"] = ang
    if rng.random() < 0.3:
        opts["curl_start"], opts["curl_end"] = rng.uniform(0.5, 1.5), rng.uniform(0.5, 1.5)
    if rng.random() < 0.3:
        opts["t_in"] = rng.choice([1.2, [rng.uniform(0.9, 1.4) for _ in range(k + 1)]])
        opts["t_out"] = rng.choice([0.9, [rng.uniform(0.9, 1.4) for _ in range(k + 1)]])
    ws, ds = [w0] * (k + 1), [d0] * (k + 1)
    kw.pop("final_width", None)
    if rng.random() < 0.4:
        ws[1:] = [rng.uniform(0.02, 0.12) * s for _ in range(k)]
        opts["final_widths"] = list(ws[1:])
    if rng.random() < 0.4:
        ds[1:] = [rng.uniform(0.1, 0.2) * s for _ in range(k)]
        opts["final_distances"] = list(ds[1:])
    ref = hobbyref.controls([x.p] + [base + org + q for q in pts], **{q: opts[q] for q in ("angles", "curl_start", "curl_end", "t_in", "t_out") if q in opts})
    tol = s * rng.choice([1e-2, 1e-3, 1e-4])
    mp, ne = rng.choice([0, 199, 40, 11]), rng.choice([5, 9])
    opts.update(kw, tolerance=tol, max_points=mp, number_of_evaluations=ne)
    if not rel:
        opts["relative"] = False
    text = "smooth(%r, %r)" % ([q.tolist() for q in pts], opts)
    keep = len(p.polygons)
    back = p.smooth([tuple(org + q) for q in pts], **opts)
    u = np.linspace(0, 1, 401)
    c, dv, hw, hd = [], [], [], []
    for j, z in enumerate(ref):
        z0, z1, z2, z3 = z
        v = (1 - u) ** 3 * z0 + 3 * (1 - u) ** 2 * u * z1 + 3 * (1 - u) * u * u * z2 + u ** 3 * z3
        w = 3 * ((1 - u) ** 2 * (z1 - z0) + 2 * (1 - u) * u * (z2 - z1) + u * u * (z3 - z2))
        c.append(np.stack((v.real, v.imag), 1)[j > 0 :])
        dv.append(np.stack((w.real, w.imag), 1)[j > 0 :])
        hw.append(((ws[j] + (ws[j + 1] - ws[j]) * u) / 2)[j > 0 :])
        hd.append((ds[j] + (ds[j + 1] - ds[j]) * u)[j > 0 :])
    c, dv, hw, hd = [np.concatenate(q) for q in (c, dv, hw, hd)]
    x.w, x.d = ws[-1], ds[-1]
    R = max(max(ds) * (x.n - 1) / 2 + max(ws) / 2, 0)
    th = np.unwrap(np.arctan2(dv[:, 1], dv[:, 0]))
    if np.abs(np.diff(th) / np.hypot(*np.diff(c, axis=0).T)).max() * R > 0.85:
        m.skip("folded spline")
        return None
    # per section: curvature and speed of that section
    worst = [0.0, 0.0]
    for j in range(len(ref)):
        a, z = max(0, 400 * j), 400 * (j + 1)
        cc, dd, t = c[a : z + 1], dv[a : z + 1], th[a : z + 1]
        sp = np.hypot(dd[:, 0], dd[:, 1]).max()
        kap = np.abs(np.diff(t) * 400 / np.hypot(*dd[1:].T)).max()
        curv = kap * sp ** 2
        du2 = min(1.0 / (ne - 1) ** 2, 24 * tol / max(curv, 1e-300))
        tapsag = (abs(ws[j + 1] - ws[j]) / 2 + (x.n - 1) / 2.0 * abs(ds[j + 1] - ds[j])) * np.abs(np.diff(t)).max() * 400
        worst[0] = max(worst[0], 4 * tol * (1 + kap * R) + tapsag * du2)
        worst[1] = max(worst[1], curv * (1 + kap * R) / 400 ** 2)
    x.p, x.a = c[-1], th[-1]
    L = np.hypot(*(c[1:] - c[:-1]).T).sum()
    x.length += L
    x.lslack = x.__dict__.get("lslack", 0) + 4e-3 * L
    x.aslack = 1e-6
    x.slack = 1e-7 * s
    on = 1e-7 * s + worst[1]
    return Band(c, normals(dv), hw, hd), worst[0] + on, on, mp, back, text, True


def near(a, v):
    b = math.atan2(v[1], v[0])
    return b + hobbyref.reduce(a - b)


# -- outlines made of straight sides

def side(starts, ends):
    """Polyline through the meeting points of consecutive lines."""
    out = [starts[0]]
    for i in range(len(starts) - 1):
        u, v = ends[i] - starts[i], ends[i + 1] - starts[i + 1]
        if abs(u[0] * v[1] - u[1] * v[0]) < 1e-12 * np.hypot(*u) * np.hypot(*v):
            out.append(ends[i])
            continue
        t, _ = stroke.meet(starts[i], u, starts[i + 1], v)
        out.append(starts[i] + t * u)
    return out + [ends[-1]]


def straight(rng, m, got, keys, n, pieces, tol, whole, what, clause):
    """pieces[i]: polygons whose union is path i; whole: each path must be that
    one polygon."""
    per = {}
    for k, q in got:
        per.setdefault(k, []).append(q)
    if not m.check(set(per) == set(keys), "layers", "%s: polygons with %s instead of %s" % (what, sorted(per), sorted(set(keys)))):
        return
    for k in sorted(per):
        ids = [i for i in range(n) if keys[i] == k]
        want = [q for i in ids for q in pieces[i]]
        if whole:
            bad = geom.match_multiset(per[k], want, lambda a, b: geom.same_shape(a, b, tol))
            if not m.check(bad is None, clause, "%s, paths %s: %s" % (what, ids, bad and [None if v is None else np.asarray(v).tolist() for v in bad])):
                return
        bad, _ = stroke.compare(rng, per[k], want, 10 * tol, 50)
        if not m.check(bad is None, clause, "%s, paths %s: %s" % (what, ids, bad)):
            return
        a, b = sum(abs(geom.signed_area(q)) for q in per[k]), sum(abs(geom.signed_area(q)) for q in want)
        if not m.check(abs(a - b) <= 1e-8 * b + tol * sum(geom.perimeter(q) for q in want), clause, "%s, paths %s: area %r instead of %r" % (what, ids, a, b)):
            return


def case_l1(rng, m, s):
    n = rng.choice([1, 1, 2, 3])
    w, d = s * rng.uniform(0.02, 0.1), s * rng.uniform(0.1, 0.2) * (n > 1 or rng.random() < 0.5)
    start = np.array(rng.choice([(0.0, 0.0), (rng.uniform(-s, s), rng.uniform(-s, s))]))
    d0 = rng.choice(sorted(DIRS))
    k = rng.choice([0, 1, 2, 3, 5, 8, 14])
    turn = [rng.choice([-1, 1]) * rng.choice([1, 1, 1, rng.uniform(0.5, 2), 2]) for _ in range(k)]
    f = [1.0] + [abs(t) for t in turn]
    length = [s * rng.uniform(1.6, 3) for _ in range(k + 1)]
    mp = rng.choice([199, 199, 0, 6, 7, 8, 11, 20])
    kw, keys = layering(rng, n)
    what = "L1Path(%r, %r, %r, %r, %r, %r, %r, max_points=%r, %r)" % (start.tolist(), d0, w, length, turn, n, d, mp, kw)
    m.ctx(path=what)
    form = rng.choice([tuple, list, np.array])
    p = gdspy.L1Path(form(start), d0, w, form(length), form(turn), n, d, **dict(kw, **({"max_points": mp} if mp != 199 or rng.random() < 0.5 else {})))
    a = DIRS[d0]
    c, at = [start], []
    for j in range(k + 1):
        at.append(a)
        c.append(c[-1] + length[j] * unit(a))
        if j < k:
            a += math.copysign(math.pi / 2, turn[j])
    pieces = []
    for i in range(n):
        sides = []
        for g in (-0.5, 0.5):
            off = [((i - 0.5 * (n - 1)) * d + g * w) * f[j] for j in range(k + 1)]
            sides.append(side([c[j] + off[j] * unit(at[j] + math.pi / 2) for j in range(k + 1)], [c[j + 1] + off[j] * unit(at[j] + math.pi / 2) for j in range(k + 1)]))
        if mp == 0 or mp >= 2 * k + 10:
            pieces.append([np.array(sides[0] + sides[1][::-1])])
        else:
            pieces.append([np.array([sides[0][j], sides[0][j + 1], sides[1][j + 1], sides[1][j]]) for j in range(k + 1)])
    got = [((l, t), np.asarray(q, dtype=float)) for q, l, t in zip(p.polygons, p.layers, p.datatypes)]
    m.check(len(p.polygons) == len(p.layers) == len(p.datatypes), "layers", "%d polygons, %d layers, %d datatypes" % (len(p.polygons), len(p.layers), len(p.datatypes)))
    if mp:
        m.check(max(len(q) for _, q in got) <= mp, "max-points", "%s: polygon with %d vertices" % (what, max(len(q) for _, q in got)))
    tol = 1e-9 * (s * (k + 1) + np.abs(c[0]).max())
    whole = mp == 0 or mp >= 2 * k + 10
    m.state("l1", n, k, d0, mp, whole, tuple(t > 0 for t in turn)[:3], any(x != 1 for x in f))
    straight(rng, m, got, keys, n, pieces, tol, whole, what, "l1-outline")
    m.check(math.hypot(p.x - c[-1][0], p.y - c[-1][1]) <= tol, "l1-end", "%s ends at (%r, %r) instead of %s" % (what, p.x, p.y, c[-1].tolist()))
    m.check(p.direction in DIRS and abs(hobbyref.reduce(DIRS[p.direction] - a)) < 1e-9, "l1-end", "%s ends towards %r instead of %r" % (what, p.direction, a))


def case_poly(rng, m, s):
    n = rng.choice([1, 1, 1, 2, 3])
    k = rng.choice([2, 2, 3, 4, 6, 12])
    a = rng.uniform(-3, 3)
    pts = [np.array((rng.uniform(-s, s), rng.uniform(-s, s)))]
    for _ in range(k - 1):
        pts.append(pts[-1] + s * rng.uniform(1.5, 3) * unit(a))
        a += rng.choice([-1, 1]) * rng.choice([math.pi / 2, rng.uniform(0.1, 1.7), rng.uniform(0.1, 1)])
    ws = [s * rng.uniform(0.04, 0.2)] * k
    ds = [s * rng.uniform(0.1, 0.3)] * k
    wa, da = ws[0], ds[0]
    ends = rng.choice(["flush", "flush", "extended", "round"])
    if rng.random() < 0.4:
        ws = [s * rng.uniform(0.04, 0.2) for _ in range(k)]
        if ends == "flush" and rng.random() < 0.3:
            ws[rng.choice([0, -1])] = 0.0
        wa = rng.choice([list, tuple, np.array])(ws)
    if rng.random() < 0.3 and n > 1:
        ds = [s * rng.uniform(0.1, 0.3) for _ in range(k)]
        da = rng.choice([list, tuple, np.array])(ds)
    corners = rng.choice(["miter", "bevel"]) if n == 1 else "miter"
    mp = rng.choice([199, 199, 0, 4, 5, 7, 9, 20])
    kw, keys = layering(rng, n)
    given = [tuple(q) for q in pts] if rng.random() < 0.5 else np.array(pts)
    what = "PolyPath(%r, %r, %r, %r, %r, %r, max_points=%r, %r)" % ([q.tolist() for q in pts], wa, n, da, corners, ends, mp, kw)
    m.ctx(path=what)
    ca, ea = corners, ends
    if k > 2 and rng.random() < 0.1:  # (numbers of older versions)
        ca, ea = ["miter", "bevel"].index(corners), ["flush", "round", "extended"].index(ends)
    p = gdspy.PolyPath(given, wa, n, da, corners=ca, ends=ea, **dict(kw, **({"max_points": mp} if mp != 199 or rng.random() < 0.5 else {})))
    got = [((l, t), np.asarray(q, dtype=float)) for q, l, t in zip(p.polygons, p.layers, p.datatypes)]
    m.check(len(p.polygons) == len(p.layers) == len(p.datatypes), "layers", "%d polygons, %d layers, %d datatypes" % (len(p.polygons), len(p.layers), len(p.datatypes)))
    c = [q.copy() for q in pts]
    t0, t1 = stroke.unit(c[1] - c[0]), stroke.unit(c[-1] - c[-2])
    offs = [[(i - 0.5 * (n - 1)) * ds[j] for j in range(k)] for i in range(n)]
    tol = 1e-9 * (s * (k + 1) + np.abs(np.array(c)).max())
    if ends == "round":
        # caps come first
        caps = got[: 2 * n]
        got = got[2 * n :]
        for e in range(2):
            for i in range(n):
                key, q = caps[e * n + i]
                j, t = (0, t0) if e == 0 else (-1, t1)
                ctr = c[j] + stroke.left(t) * offs[i][j]
                h = ws[j] / 2
                m.check(key == keys[i], "layers", "%s: cap with %s instead of %s" % (what, key, keys[i]))
                out = -t if e == 0 else t
                al = math.atan2(out[1], out[0])
                want = stroke.sector(ctr, h, al - math.pi / 2, al + math.pi / 2, 200)
                bad, _ = stroke.compare(rng, [q], [want], h * 2e-3 + tol, 30)
                m.check(bad is None, "poly-caps", "%s, cap %d of path %d: %s" % (what, e, i, bad))
    elif ends == "extended":
        c[0] = c[0] - t0 * ws[0] / 2
        c[-1] = c[-1] + t1 * ws[-1] / 2
        m.seen("poly-caps")
    pieces = []
    nr = [stroke.left(stroke.unit(c[j + 1] - c[j])) for j in range(k - 1)]
    for i in range(n):
        sides, lines = [], []
        for g in (-0.5, 0.5):
            a = [c[j] + nr[j] * (offs[i][j] + g * ws[j]) for j in range(k - 1)]
            b = [c[j + 1] + nr[j] * (offs[i][j + 1] + g * ws[j + 1]) for j in range(k - 1)]
            lines.append((a, b))
            sides.append(side(a, b))
        if corners == "bevel":
            # cut on the outer side
            turns = [math.atan2(nr[j - 1][0] * nr[j][1] - nr[j - 1][1] * nr[j][0], nr[j - 1] @ nr[j]) for j in range(1, k - 1)]
            cut = [[sides[g][0]] for g in (0, 1)]
            for j in range(1, k - 1):
                for g in (0, 1):
                    if (turns[j - 1] > 0) == (g == 0):
                        cut[g] += [lines[g][1][j - 1], lines[g][0][j]]
                    else:
                        cut[g] += [sides[g][j]]
            sides = [cut[g] + [sides[g][-1]] for g in (0, 1)]
            pieces.append([np.array(sides[0] + sides[1][::-1])])
        else:
            pieces.append([np.array(sides[0] + sides[1][::-1])])
    whole = mp == 0 or mp >= 3 * k + 6
    m.state("poly", n, k, corners, ends, mp, type(wa).__name__, type(da).__name__, min(ws) == 0)
    if mp and not whole:
        big = max(len(q) for _, q in got)
        m.check(big <= mp, "max-points", "%s: polygon with %d vertices" % (what, big), **({"sig": "bevel-polypath-limit-4"} if corners == "bevel" and mp == 4 and big == 5 else {}))
    straight(rng, m, got, keys, n, pieces, tol, whole, what, "poly-outline")
