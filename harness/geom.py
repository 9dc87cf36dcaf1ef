"""Independent geometric oracles (numpy only; nothing from gdspy)."""
import math

import numpy as np


def arr(p):
    return np.asarray(p, dtype=float)


def signed_area(p):
    p = arr(p)
    if len(p) < 3:
        return 0.0
    q = p - p[0]
    x, y = q[:, 0], q[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def perimeter(p):
    p = arr(p)
    d = np.roll(p, -1, 0) - p
    return float(np.sum(np.hypot(d[:, 0], d[:, 1])))


def winding(poly, pts):
    """Winding number of poly around every point (points not on edges)."""
    poly = arr(poly)
    pts = arr(pts)
    wn = np.zeros(len(pts), dtype=int)
    if len(poly) < 3 or len(pts) == 0:
        return wn
    a = poly
    b = np.roll(poly, -1, 0)
    keep = a[:, 1] != b[:, 1]
    a, b = a[keep], b[keep]
    if len(a) == 0:
        return wn
    step = max(1, 2000000 // max(1, len(a)))
    for i in range(0, len(pts), step):
        p = pts[i : i + step]
        px, py = p[:, 0][:, None], p[:, 1][:, None]
        up = (a[:, 1] <= py) & (b[:, 1] > py)
        dn = (a[:, 1] > py) & (b[:, 1] <= py)
        cross = (b[:, 0] - a[:, 0]) * (py - a[:, 1]) - (px - a[:, 0]) * (b[:, 1] - a[:, 1])
        wn[i : i + step] = np.sum(up & (cross > 0), 1) - np.sum(dn & (cross < 0), 1)
    return wn


def cover_count(polys, pts):
    """How many polygons cover each point (non-zero rule for each polygon)."""
    c = np.zeros(len(pts), dtype=int)
    pts = arr(pts)
    for p in polys:
        p = arr(p)
        if len(p) < 3:
            continue
        lo, hi = p.min(0), p.max(0)
        idx = np.flatnonzero(
            (pts[:, 0] >= lo[0]) & (pts[:, 0] <= hi[0]) & (pts[:, 1] >= lo[1]) & (pts[:, 1] <= hi[1])
        )
        if len(idx):
            c[idx] += winding(p, pts[idx]) != 0
    return c


def contains(polys, pts):
    return cover_count(polys, pts) > 0


def edges(polys):
    out_a, out_b = [], []
    for p in polys:
        p = arr(p)
        if len(p) == 0:
            continue
        out_a.append(p)
        out_b.append(np.roll(p, -1, 0))
    if not out_a:
        return np.zeros((0, 2)), np.zeros((0, 2))
    return np.concatenate(out_a), np.concatenate(out_b)


def dist_to_segments(a, b, pts):
    """Distance of each point to the nearest of the segments a[i]-b[i]."""
    pts = arr(pts)
    res = np.full(len(pts), np.inf)
    if len(a) == 0:
        return res
    d = b - a
    l2 = np.sum(d * d, 1)
    l2s = np.where(l2 == 0, 1.0, l2)
    step = max(1, 1000000 // len(a))
    for i in range(0, len(pts), step):
        p = pts[i : i + step][:, None, :]
        t = np.sum((p - a) * d, 2) / l2s
        t = np.clip(np.where(l2 == 0, 0.0, t), 0.0, 1.0)
        q = a + t[:, :, None] * d
        e = p - q
        res[i : i + step] = np.sqrt(np.min(np.sum(e * e, 2), 1))
    return res


def dist_to_edges(polys, pts):
    a, b = edges(polys)
    return dist_to_segments(a, b, pts)


def dist_to_polyline(line, pts):
    line = arr(line)
    return dist_to_segments(line[:-1], line[1:], pts)


def bbox(polys):
    pts = np.concatenate([arr(p) for p in polys])
    return pts.min(0), pts.max(0)


def sample_points(rng, polys, margin, n_random=60, max_edges=200, grow=0.1):
    """Random points plus points hugging the edges and vertices of polys, all of
    them farther than margin from every edge of polys."""
    polys = [arr(p) for p in polys if len(p)]
    if not polys:
        return np.zeros((0, 2))
    lo, hi = bbox(polys)
    size = np.maximum(hi - lo, margin * 10)
    lo, hi = lo - grow * size, hi + grow * size
    g = np.random.RandomState(rng.randrange(2 ** 31))
    pts = [lo + (hi - lo) * g.random_sample((n_random, 2))]
    a, b = edges(polys)
    if len(a) > max_edges:
        idx = g.choice(len(a), max_edges, replace=False)
        a, b = a[idx], b[idx]
    d = b - a
    l = np.hypot(d[:, 0], d[:, 1])
    k = l > 0
    a, b, d, l = a[k], b[k], d[k], l[k]
    if len(a):
        nrm = np.stack([-d[:, 1], d[:, 0]], 1) / l[:, None]
        t = g.random_sample((len(a), 1))
        for off in (1.3, 3.0):
            m = a + t * d
            pts.append(m + off * margin * nrm)
            pts.append(m - off * margin * nrm)
        ang = g.random_sample(len(a)) * 2 * math.pi
        pts.append(a + 1.5 * margin * np.stack([np.cos(ang), np.sin(ang)], 1))
    pts = np.concatenate(pts)
    return pts[dist_to_segments(*edges(polys), pts) > margin]


# ---- affine maps, written as 2x3 matrices --------------------------------

def aff(a=1.0, b=0.0, c=0.0, d=1.0, e=0.0, f=0.0):
    return np.array([[a, b, e], [c, d, f], [0.0, 0.0, 1.0]])


def a_translate(dx, dy):
    return aff(e=dx, f=dy)


def a_scale(sx, sy=None):
    return aff(a=sx, d=sx if sy is None else sy)


def a_rotate(t):
    return aff(math.cos(t), -math.sin(t), math.sin(t), math.cos(t))


def a_about(m, center):
    return a_translate(center[0], center[1]) @ m @ a_translate(-center[0], -center[1])


def a_mirror(p1, p2):
    t = math.atan2(p2[1] - p1[1], p2[0] - p1[0])
    return a_about(a_rotate(t) @ a_scale(1, -1) @ a_rotate(-t), p1)


def a_ref(origin=(0, 0), rotation=None, magnification=None, x_reflection=False, array=(0, 0)):
    """The map of a GDSII reference: reflect, magnify, (array step), rotate, move.
    The array step is reflected and rotated, not magnified."""
    m = a_scale(1 if magnification is None else magnification)
    m = a_translate(array[0], array[1]) @ m
    if x_reflection:
        m = a_scale(1, -1) @ m
    if rotation is not None:
        m = a_rotate(math.radians(rotation)) @ m
    return a_translate(origin[0], origin[1]) @ m


def apply(m, pts):
    pts = arr(pts)
    return pts @ m[:2, :2].T + m[:2, 2]


def close_polys(p, q, tol):
    p, q = arr(p), arr(q)
    return p.shape == q.shape and (p.size == 0 or float(np.max(np.abs(p - q))) <= tol)


def same_cycle(p, q, tol):
    """The same closed polygon up to starting vertex and orientation."""
    p, q = arr(p), arr(q)
    if p.shape != q.shape:
        return False
    n = len(p)
    for r in (q, q[::-1]):
        d = np.max(np.abs(r - p[0]), 1)
        for s in np.flatnonzero(d <= tol):
            if np.max(np.abs(np.roll(r, -s, 0) - p)) <= tol:
                return True
    return n == 0


def dedupe(p, tol):
    """A closed polygon without repeated consecutive vertices."""
    p = arr(p)
    if len(p) < 2:
        return p
    keep = np.max(np.abs(p - np.roll(p, 1, 0)), 1) > tol
    return p[keep] if keep.any() else p[:1]


def same_shape(p, q, tol):
    """same_cycle after repeated vertices are removed."""
    return same_cycle(p, q, tol) or same_cycle(dedupe(p, 3 * tol), dedupe(q, 3 * tol), 5 * tol)


def match_multiset(xs, ys, eq):
    """None if xs and ys are equal as multisets under eq, else (x or None, y or None)."""
    ys = list(ys)
    for x in xs:
        for i, y in enumerate(ys):
            if eq(x, y):
                del ys[i]
                break
        else:
            return (x, None)
    return (None, ys[0]) if ys else None


def crossings(p):
    """Number of proper crossings between edges of a polygon (strict)."""
    a = arr(p)
    b = np.roll(a, -1, 0)
    d = b - a

    def side(i_a, i_d, q):
        return i_d[:, None, 0] * (q[None, :, 1] - i_a[:, None, 1]) - i_d[:, None, 1] * (q[None, :, 0] - i_a[:, None, 0])

    sa, sb = side(a, d, a), side(a, d, b)
    eps = 1e-9 * (1 + np.abs(a).max()) ** 2
    sep = ((sa > eps) & (sb < -eps)) | ((sa < -eps) & (sb > eps))
    return int(np.sum(sep & sep.T)) // 2
