"""Regions of strokes: quadrilaterals, joins and caps from their definitions."""
import math

import numpy as np

import geom
import hobbyref


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.hypot(v[..., 0], v[..., 1])[..., None]


def left(v):
    v = np.asarray(v, dtype=float)
    return np.stack((-v[..., 1], v[..., 0]), axis=-1)


def meet(p, u, q, v):
    """Parameters where p + a u = q + b v."""
    den = u[0] * v[1] - u[1] * v[0]
    d = q - p
    return (d[0] * v[1] - d[1] * v[0]) / den, (d[0] * u[1] - d[1] * u[0]) / den


def centre(points, offsets):
    """Vertices of the line at (tapered) distances to the left of points."""
    points = np.asarray(points, dtype=float)
    n = left(unit(points[1:] - points[:-1]))
    a = points[:-1] + n * np.asarray(offsets)[:-1, None]
    b = points[1:] + n * np.asarray(offsets)[1:, None]
    out = [a[0]]
    for i in range(len(a) - 1):
        t, _ = meet(a[i], b[i] - a[i], a[i + 1], b[i + 1] - a[i + 1])
        out.append(a[i] + t * (b[i] - a[i]))
    out.append(b[-1])
    return np.array(out)


def sector(c, r, a0, a1, n=48):
    a = np.linspace(a0, a1, n)
    return c + r * np.stack((np.cos(a), np.sin(a)), axis=1)


def fit(p0, v0, p1, v1, n=64):
    """Hobby's curve from p0 in direction v0 to p1 in direction v1."""
    ch = math.atan2(p1[1] - p0[1], p1[0] - p0[0])
    ang = [ch + hobbyref.reduce(math.atan2(v[1], v[0]) - ch) for v in (v0, v1)]
    return hobbyref.smooth([p0, p1], n=n, angles=ang)


class Stroke(object):
    """One path over centre vertices c with widths w at them."""

    def __init__(self, c, w):
        self.c, self.w = np.asarray(c, dtype=float), np.asarray(w, dtype=float)
        d = self.c[1:] - self.c[:-1]
        self.len = np.hypot(d[:, 0], d[:, 1])
        self.t = unit(d)
        n = left(self.t)
        h = 0.5 * self.w[:, None]
        # side 0 is the right one
        self.a = [self.c[:-1] - n * h[:-1], self.c[:-1] + n * h[:-1]]
        self.b = [self.c[1:] - n * h[1:], self.c[1:] + n * h[1:]]
        self.n = n

    def quads(self):
        return [np.array([self.a[0][i], self.b[0][i], self.b[1][i], self.a[1][i]]) for i in range(len(self.t))]

    def turn(self, j):
        u, v = self.t[j - 1], self.t[j]
        return math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1])

    def outer(self, j):
        """(side, p0, v0, p1, v1) of the outer side of corner j."""
        s = 0 if self.turn(j) > 0 else 1
        return s, self.b[s][j - 1], self.b[s][j - 1] - self.a[s][j - 1], self.a[s][j], self.b[s][j] - self.a[s][j]

    def corner(self, j, style, custom=None):
        """Pieces that the join adds at corner j."""
        s, p0, v0, p1, v1 = self.outer(j)
        h = 0.5 * self.w[j]
        c = self.c[j]
        if style in ("natural", "miter"):
            u, v = unit(v0), unit(v1)
            x, y = meet(p0, u, p1, v)
            if style == "miter" or (x <= h and y >= -h):
                return [np.array([c, p0, p0 + x * u, p1])]
            return [np.array([c, p0, p0 + min(x, h) * u, p1 + max(y, -h) * v, p1])]
        if style == "bevel":
            return [np.array([c, p0, p1])]
        if style == "round":
            a0 = math.atan2(*(p0 - c)[::-1])
            a1 = a0 + geom_angle(p0 - c, p1 - c)
            return [np.vstack(([c], sector(c, h, a0, a1)))]
        if style == "smooth":
            return [np.vstack(([c], fit(p0, v0, p1, v1)))]
        raise ValueError(style)

    def cap(self, end, style, ext=None):
        """Pieces added at the start (end 0) or at the finish (end 1)."""
        i, k = (0, 0) if end == 0 else (len(self.t) - 1, -1)
        d = -self.t[0] if end == 0 else self.t[-1]
        c, h = self.c[k], 0.5 * self.w[k]
        r, l = (self.a[0][0], self.a[1][0]) if end == 0 else (self.b[0][i], self.b[1][i])
        if style == "flush":
            return []
        if style in ("extended", "tuple"):
            e = (h if style == "extended" else ext[end]) * d
            return [np.array([r, r + e, l + e, l])]
        if style == "round":
            a = math.atan2(d[1], d[0])
            return [sector(c, h, a - math.pi / 2, a + math.pi / 2)]
        if style == "smooth":
            vr = self.a[0][0] - self.b[0][0] if end == 0 else self.b[0][i] - self.a[0][i]
            vl = self.a[1][0] - self.b[1][0] if end == 0 else self.b[1][i] - self.a[1][i]
            return [fit(r, vr, l, -vl)]
        raise ValueError(style)


def geom_angle(u, v):
    return math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1])


RING = np.array([(math.cos(a), math.sin(a)) for a in np.arange(8) * math.pi / 4] + [(0.5, 0.5), (-0.5, 0.5), (0.5, -0.5), (-0.5, -0.5)])


def inside(pieces, pts):
    """Union of pieces (simple polygons)."""
    return geom.contains(pieces, pts)


def compare(rng, got, pieces, margin, n=60, extra=None):
    """None or a text: points farther than margin from the outline of the
    union of pieces must be in got if and only if they are in the union."""
    pts = [geom.sample_points(rng, pieces, margin, n, 60), geom.sample_points(rng, got, margin, n // 2, 60)]
    if extra is not None:
        pts.append(extra)
    pts = np.vstack(pts)
    g = geom.contains(got, pts)
    e = inside(pieces, pts)
    d = np.flatnonzero(g != e)
    if len(d):
        # (on the cut between two polygons nothing is said)
        d = d[geom.dist_to_edges(got, pts[d]) > 1e-12 * (1 + np.abs(pts).max())] if len(got) else d
    if len(d) == 0:
        return None, len(pts)
    q = pts[d]
    ring = (q[:, None, :] + margin * RING[None, :, :]).reshape(-1, 2)
    r = inside(pieces, ring).reshape(len(q), -1)
    bad = np.where(e[d], r.all(1), ~r.any(1))
    if bad.any():
        i = np.flatnonzero(bad)[0]
        return "point %s is %s the polygons and %s the stroke" % (q[i].tolist(), "in" if g[d][i] else "out of", "in" if e[d][i] else "out of"), len(pts)
    return None, len(pts)


def retracted(rng, m, s, kind):
    """Bezier sections with coincident control points at their ends: the derivative
    vanishes there, but the curve has a direction (that of the next control point)."""
    import gdspy

    P = np.array((rng.uniform(-1, 1), rng.uniform(-1, 1))) * s * rng.choice([0, 1])
    a = rng.uniform(-3, 3)
    e, n = np.array((math.cos(a), math.sin(a))), np.array((-math.sin(a), math.cos(a)))
    mid = [s * (x * e + rng.choice([0, 0.15]) * rng.uniform(-1, 1) * n) for x in rng.choice([[0.5], [0.4, 0.6], []])]
    last = s * (e + 0.1 * rng.uniform(-1, 1) * n)
    first = rng.choice([1, 0, 2])
    end = rng.choice([1, 0, 2]) if first else rng.choice([1, 2])
    rel = [np.zeros(2)] * first + mid + [last] * (end + 1)
    ctl = np.array([np.zeros(2)] + rel)
    others = [v for v in ctl if np.hypot(*v) > 0]
    d0 = unit(others[0])
    d1 = unit(last - [v for v in ctl if np.hypot(*(v - last)) > 0][-1])
    w = 0.004 * s
    relative = rng.random() < 0.5
    pts = [tuple(v if relative else P + v) for v in rel]
    kw = {} if relative and rng.random() < 0.5 else {"relative": relative}
    m.ctx(kind=kind, control=ctl.tolist(), start=P.tolist(), relative=relative)
    u = np.linspace(0, 1, 2001)
    q = [np.repeat(v[None], len(u), axis=0) for v in ctl]
    while len(q) > 1:
        q = [x * (1 - u)[:, None] + y * u[:, None] for x, y in zip(q[:-1], q[1:])]
    c = P + q[0]
    length = np.hypot(*np.diff(c, axis=0).T).sum()
    # the direction is found at some distance of the end, at least where the curve bends there
    slack = 0.03
    if kind == "path":
        p = gdspy.Path(w, tuple(P))
        p.bezier(pts, tolerance=1e-5 * s, max_points=0, **kw)
        polys = p.polygons
        m.check(abs(p.x - c[-1][0]) + abs(p.y - c[-1][1]) < 1e-9 * s * 10, "coincident-control-points", "the path is at %r, not %r" % ((p.x, p.y), c[-1]))
        m.check(p.direction == p.direction and abs(math.remainder(p.direction - math.atan2(d1[1], d1[0]), 2 * math.pi)) < slack, "coincident-control-points",
                "the direction is %r, not %r" % (p.direction, math.atan2(d1[1], d1[0])))
    else:
        p = gdspy.RobustPath(tuple(P), w, tolerance=1e-5 * s, precision=1e-7 * s, max_points=0, max_evals=4000)
        b = rng.choice([0, 0, 0.2 * s])
        if b:
            # with a section before and one after it, in its direction
            t = [0, 0]  # (corners there are announced as not ensured)
            r = [np.array(((math.cos(x), -math.sin(x)), (math.sin(x), math.cos(x)))) for x in t]
            p = gdspy.RobustPath(tuple(P - b * (r[0] @ d0)), w, tolerance=1e-5 * s, precision=1e-7 * s, max_points=0, max_evals=4000)
            p.segment(tuple(P))
        p.bezier(pts, **kw)
        if b:
            p.segment(tuple(c[-1] + b * (r[1] @ d1)))
            c = np.vstack((P - b * (r[0] @ d0), c, c[-1] + b * (r[1] @ d1)))
            length += 2 * b
        for v, d, x in ((0.0, d0, P), (1.0, d1, c[-1])) if not b else ():
            y = p(v)[0]
            m.check(np.hypot(*(y - x)) < 1e-9 * s * 10, "coincident-control-points", "the path is at %r for %s, not %r" % (y, v, x))
            l, r = p(v, 1)[0], p(v, -1)[0]
            g = unit(l - r) if np.all(np.isfinite((l, r))) else np.array((np.nan, np.nan))
            m.check(abs(abs(g @ left(d)) - 1) < slack, "coincident-control-points", "at %s the sides are at %r and %r, for the direction %r" % (v, l, r, d))
        polys = p.get_polygons()
    allp = np.vstack(polys)
    if not m.check(bool(np.isfinite(allp).all()), "coincident-control-points", "coordinates that are no numbers: %r" % allp[~np.isfinite(allp).all(axis=1)][:2]):
        return
    far = max(geom.dist_to_polyline(c, allp).max() - w / 2, 0)
    m.check(far < 0.1 * w + 3e-5 * s, "coincident-control-points", "vertices at %s from the curve of width %s" % (far + w / 2, w))
    area = sum(abs(geom.signed_area(x)) for x in polys)
    m.check(abs(area / (w * length) - 1) < 0.05, "coincident-control-points", "area %r for a length of %r and a width of %r" % (area, length, w))
    m.state("retracted", kind, first, end, len(mid), relative)
