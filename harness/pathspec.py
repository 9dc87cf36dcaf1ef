"""Descriptions of flexible and robust paths from which the same path can be
built under any similarity, with the constructors alone (no transformation of
gdspy is used)."""
import copy
import math

import gdspy
import numpy as np

import geom
import hier


class Sim(object):
    """A similarity: matrix, magnification, sign and rotation."""

    def __init__(self, mat=None):
        self.m = geom.aff() if mat is None else mat
        d = np.linalg.det(self.m[:2, :2])
        self.mag = abs(d) ** 0.5
        self.sign = 1 if d > 0 else -1
        self.rot = math.atan2(self.m[1, 0], self.m[0, 0])

    def then(self, mat):
        return Sim(mat @ self.m)

    def pt(self, p):
        return geom.apply(self.m, [p])[0]

    def vec(self, v):
        return self.m[:2, :2] @ np.asarray(v, dtype=float)

    def angle(self, a):
        return self.rot + self.sign * a


def bevel(p0, v0, p1, v1, center, width):
    return [p0, p1]


def flat_end(p0, v0, p1, v1):
    return [p0, p1]


def flex(rng, s, sections=True):
    k = rng.choice([1, 1, 2, 3])
    w = 0.05 * s * rng.uniform(0.5, 1)
    gdsii = rng.random() < 0.3
    widths = [w * rng.uniform(0.6, 1) for _ in range(k)]
    offs = [1.6 * w * (i - (k - 1) / 2.0) for i in range(k)]
    if rng.random() < 0.35:
        offs = [o + w for o in offs]
    bend = rng.random() < 0.25
    corner = ["natural", "miter", "bevel", "round", "smooth"]
    corners = ["circular bend"] * k if bend else [rng.choice(corner + ([bevel] if not gdsii else [])) for _ in range(k)]
    ends = [rng.choice(["flush", "extended", "round", (rng.uniform(0, 0.1) * s, rng.uniform(0, 0.1) * s)] + ([] if gdsii else ["smooth"])) for _ in range(k)]
    start = np.array([rng.uniform(-s, s), rng.uniform(-s, s)])
    a = rng.choice([0, math.pi / 2, rng.uniform(-3, 3)])
    d = dict(
        cls="flex", s=s, start=start, widths=widths, offsets=offs, corners=corners, ends=ends, bend=0.15 * s if bend else None, gdsii=gdsii, wt=rng.random() < 0.6,
        layers=[hier.lay(rng) for _ in range(k)], datatypes=[hier.lay(rng) for _ in range(k)], tol=1e-4 * s, prec=1e-6 * s, max_points=rng.choice([0, 199, 60]),
    )
    d["ops"], d["dir"] = sections_of(rng, d, start, a, rng.choice([1, 2, 3]), not bend, None)
    return d


def robust(rng, s):
    k = rng.choice([1, 1, 2, 3])
    w = 0.05 * s * rng.uniform(0.5, 1)
    gdsii = rng.random() < 0.3
    widths = [w] * k if gdsii else [w * rng.uniform(0.6, 1) for _ in range(k)]
    offs = [1.6 * w * (i - (k - 1) / 2.0) for i in range(k)]
    if rng.random() < 0.4:
        offs = [o + w for o in offs]
    ends = [rng.choice(["flush", "extended", "round", (rng.uniform(0, 0.1) * s, rng.uniform(0, 0.1) * s)] + ([] if gdsii else ["smooth"])) for _ in range(k)]
    start = np.array([rng.uniform(-s, s), rng.uniform(-s, s)])
    a = rng.choice([0, math.pi / 2, rng.uniform(-3, 3)])
    d = dict(
        cls="robust", s=s, start=start, widths=widths, offsets=offs, ends=ends, gdsii=gdsii, wt=rng.random() < 0.6,
        layers=[hier.lay(rng) for _ in range(k)], datatypes=[hier.lay(rng) for _ in range(k)], tol=1e-4 * s, prec=1e-6 * s, max_points=rng.choice([0, 199, 60]),
    )
    d["ops"], d["dir"] = sections_of(rng, d, start, a, rng.choice([1, 2, 3]), True, None)
    return d


def unit(a):
    return np.array((math.cos(a), math.sin(a)))


def sections_of(rng, d, p, a, n, curved, last):
    """n more sections from point p in direction a; consecutive sections turn
    little (joins of curved sections are smooth)."""
    s = d["s"]
    k = len(d["widths"])
    ops = []
    for i in range(n):
        w = off = None
        if not d["gdsii"] and rng.random() < 0.3:
            w = [x * rng.uniform(0.6, 1.4) for x in d["widths"]]
        kind = rng.choice(["segment", "segment", "turn", "arc", "bezier", "parametric", "smooth"]) if curved and (last or d["cls"] == "robust") else "segment"
        if kind == "turn" and last != "segment":
            kind = "arc"
        if d["cls"] == "flex" and kind in ("bezier", "parametric", "smooth"):
            w = off = None  # tapers follow the samples there
        if last == "taper":
            kind, last = "segment", "segment"
        if kind == "segment":
            if rng.random() < 0.25 and d["cls"] == "flex" and last != "curve" and not d.get("bend"):
                # (followed by a corner: offsets of almost straight joins of
                # offset tapers are not well defined)
                off = [o * rng.uniform(0.85, 1.2) for o in d["offsets"]]
            if last == "segment" and (d["cls"] == "flex"):
                a += rng.choice([-1, 1]) * (math.pi / 2 if rng.random() < 0.3 else rng.uniform(0.2, 1.4))
            p = p + s * rng.uniform(0.55, 0.9) * unit(a)
            ops.append(("segment", p, w, off))
        elif kind in ("turn", "arc"):
            r, t = s * rng.uniform(0.35, 0.7), rng.choice([-1, 1]) * rng.uniform(0.2, 1.6)
            a0 = a - math.copysign(math.pi / 2, t)
            if kind == "turn":
                ops.append(("turn", r, t, w, off))
            else:
                ops.append(("arc", r, a0, a0 + t, w, off))
            p = p + r * (unit(a0 + t) - unit(a0))
            a += t
        elif kind == "bezier":
            e, b = unit(a), unit(a + math.pi / 2)
            t = rng.uniform(-0.25, 0.25)
            c = [0.4 * s * e, 0.8 * s * e + t * s * b]
            if rng.random() < 0.5:
                c = [0.3 * s * e, 0.6 * s * e + t * s * b, s * e + t * s * b]
            ops.append(("bezier", c, w, off))
            q = c[-1] - c[-2]
            p, a = p + c[-1], math.atan2(q[1], q[0])
        elif kind == "parametric":
            e, b = unit(a), unit(a + math.pi / 2)
            h = rng.uniform(-0.2, 0.2) * s
            ops.append(("parametric", e * s, b * h, w, off))
            p = p + e * s + b * h
            q = e * s + 2 * b * h
            a = math.atan2(q[1], q[0])
        else:
            e, b = unit(a), unit(a + math.pi / 2)
            pts = [0.5 * s * e + rng.uniform(-0.1, 0.1) * s * b, s * e + rng.uniform(-0.1, 0.1) * s * b]
            out = a + rng.uniform(-0.5, 0.5)
            ops.append(("smooth", pts, [a, None, out], w, off))
            p, a = p + pts[-1], out
        last = "curve" if kind != "segment" else "taper" if off else "segment"
        if w:
            d = dict(d, widths=w)
        if off:
            d = dict(d, offsets=off)
    return ops, (p, a, last)


def build(d, g=None, negate=True, extra=()):
    """The path described by d under the similarity g."""
    g = g or Sim()
    wm = g.mag if d["wt"] or not d["gdsii"] else 1.0
    so = (g.sign if negate else 1) * g.mag
    ends = [tuple(x * g.mag for x in e) if isinstance(e, tuple) else e for e in d["ends"]]
    kw = dict(ends=ends, tolerance=d["tol"], precision=d["prec"], max_points=d["max_points"], gdsii_path=d["gdsii"], width_transform=d["wt"], layer=list(d["layers"]), datatype=list(d["datatypes"]))
    widths, offs = [w * wm for w in d["widths"]], [o * so for o in d["offsets"]]
    start = tuple(g.pt(d["start"]))
    if d["cls"] == "flex":
        p = gdspy.FlexPath([start], widths, offs, corners=list(d["corners"]), bend_radius=None if d["bend"] is None else d["bend"] * g.mag, **kw)
    else:
        p = gdspy.RobustPath(start, widths, offs, **kw)
    extend(p, d, d["ops"], g, negate)
    extend(p, d, extra, g, negate)
    return p


def extend(p, d, ops, g, negate=True):
    wm = g.mag if d["wt"] or not d["gdsii"] else 1.0
    so = (g.sign if negate else 1) * g.mag
    for op in ops:
        w, off = op[-2], op[-1]
        w = None if w is None else [x * wm for x in w]
        off = None if off is None else [x * so for x in off]
        if op[0] == "segment":
            p.segment(tuple(g.pt(op[1])), width=w, offset=off)
        elif op[0] == "turn":
            p.turn(op[1] * g.mag, op[2] * g.sign, width=w, offset=off)
        elif op[0] == "arc":
            p.arc(op[1] * g.mag, g.angle(op[2]), g.angle(op[3]), width=w, offset=off)
        elif op[0] == "bezier":
            p.bezier([tuple(g.vec(v)) for v in op[1]], width=w, offset=off)
        elif op[0] == "parametric":
            a, b = g.vec(op[1]), g.vec(op[2])
            p.parametric(lambda u, a=a, b=b: np.array((u * a[0] + u * u * b[0], u * a[1] + u * u * b[1])), width=w, offset=off)
        else:
            v = [g.vec(v) for v in op[1]]
            c = [v[0], v[-1] - v[-2]]
            ends = [near(g.angle(x), math.atan2(y[1], y[0])) for x, y in zip((op[2][0], op[2][-1]), c)]
            p.smooth([tuple(x) for x in v], [ends[0]] + [None] * (len(v) - 1) + [ends[1]], width=w, offset=off)
    return p


def near(a, b):
    """The angle equivalent to a that is nearest to b (smooth counts turns)."""
    return b + (a - b + math.pi) % (2 * math.pi) - math.pi


def polys(p):
    """[(key, points)] of a path, from a copy without the answers it keeps."""
    q = copy.deepcopy(p).translate(0, 0).to_polygonset()
    return [] if q is None else [((l, t), np.array(x, dtype=float)) for x, l, t in zip(q.polygons, q.layers, q.datatypes)]


def region_diff(rng, got, want, margin):
    """None, or where the regions of two lists of (key, points) differ by more
    than margin (for every key)."""
    keys = {k for k, _ in got} | {k for k, _ in want}
    for k in sorted(keys):
        a, b = [p for q, p in got if q == k], [p for q, p in want if q == k]
        if not a or not b:
            return "no polygons with %s on one side" % (k,)
        ba, bb = geom.bbox(a), geom.bbox(b)
        if max(np.abs(ba[0] - bb[0]).max(), np.abs(ba[1] - bb[1]).max()) > margin:
            return "bounding boxes %s and %s of %s" % (np.array(ba).tolist(), np.array(bb).tolist(), k)
        for x, y in ((b, a), (a, b)):
            pts = geom.sample_points(rng, x, margin, 40, 80)
            d = geom.contains(x, pts) != geom.contains(y, pts)
            if d.any():
                q = pts[d]
                # (where outlines cross themselves slivers come and go)
                far = geom.dist_to_edges(y, q) > margin
                if far.any():
                    return "point %s is covered by only one of them (%s)" % (q[far][0].tolist(), k)
    return None


def exact(got, want, tol):
    return len(got) == len(want) and geom.match_multiset(got, want, lambda a, b: a[0] == b[0] and geom.same_shape(a[1], b[1], tol)) is None


def asymmetric(d):
    """Reflection of the offsets is not a symmetry of the path."""
    rows = [d["offsets"]] + [op[-1] for op in d["ops"] if op[-1] is not None]
    return any(abs(o) > 0 for r in rows for o in r)


def chord_slack(d):
    """How far the ends of parallel paths move with the sampling of curved
    sections (their first and last chords give the directions)."""
    reach = max(abs(o) for r in [d["offsets"]] + [op[-1] for op in d["ops"] if op[-1]] for o in r) + max(d["widths"])
    reach += max([max(e) for e in d["ends"] if isinstance(e, tuple)] + [0])
    curved = any(op[0] != "segment" for op in d["ops"])
    return 1.5 * reach * math.sqrt(2 * d["tol"] / (0.3 * d["s"])) if curved and d["cls"] == "flex" else 0.0
