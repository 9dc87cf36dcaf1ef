"""Generators of polygons (all of them weakly simple: the boundary may touch but
not cross itself, which is what GDSII allows)."""
import math

import numpy as np


def npr(rng):
    return np.random.RandomState(rng.randrange(2 ** 31))


def rect(rng, s):
    x, y = rng.uniform(-s, s), rng.uniform(-s, s)
    w, h = rng.uniform(0.02, 1) * s, rng.uniform(0.02, 1) * s
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


def star(rng, s, n=None):
    """Star shaped around a point: arbitrary radii at increasing angles."""
    n = n or rng.choice([3, 4, 5, 7, 12, 30])
    cx, cy = rng.uniform(-s, s), rng.uniform(-s, s)
    r = rng.uniform(0.1, 0.9) * s
    while True:
        a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        gaps = [b - c for b, c in zip(a[1:] + [a[0] + 2 * math.pi], a)]
        if max(gaps) < 0.98 * math.pi and min(gaps) > 0.02:
            break
    return [(cx + r * k * math.cos(t), cy + r * k * math.sin(t)) for t, k in ((t, rng.uniform(0.25, 1)) for t in a)]


def convex(rng, s, n=None):
    n = n or rng.choice([3, 4, 5, 6, 8, 20])
    cx, cy = rng.uniform(-s, s), rng.uniform(-s, s)
    rx, ry = rng.uniform(0.05, 0.9) * s, rng.uniform(0.05, 0.9) * s
    k0 = rng.uniform(0, 2 * math.pi)
    ph = rng.uniform(0, math.pi)
    out = []
    for i in range(n):
        t = k0 + 2 * math.pi * (i + rng.uniform(-0.3, 0.3)) / n
        x, y = rx * math.cos(t), ry * math.sin(t)
        out.append((cx + x * math.cos(ph) - y * math.sin(ph), cy + x * math.sin(ph) + y * math.cos(ph)))
    return out


def stairs(rng, s):
    """x-monotone rectilinear polygon."""
    n = rng.choice([2, 3, 5, 9])
    xs = sorted(rng.sample(range(-40, 41), n + 1))
    xs = [x * s / 40.0 for x in xs]
    y0 = rng.uniform(-s, s)
    lo = [y0 - rng.uniform(0.05, 0.7) * s for _ in range(n)]
    hi = [y0 + rng.uniform(0.05, 0.7) * s for _ in range(n)]
    out = []
    for i in range(n):
        out += [(xs[i], lo[i]), (xs[i + 1], lo[i])]
    for i in range(n - 1, -1, -1):
        out += [(xs[i + 1], hi[i]), (xs[i], hi[i])]
    return out


def comb(rng, s):
    n = rng.choice([2, 3, 5, 10])
    x, y = rng.uniform(-s, s), rng.uniform(-s, s)
    w = rng.uniform(0.05, 0.3) * s
    g = w * rng.uniform(0.2, 1.0)
    h = rng.uniform(0.2, 1) * s
    b = rng.uniform(0.05, 0.3) * s
    out = [(x, y)]
    out.append((x + n * w + (n - 1) * g, y))
    for i in range(n - 1, -1, -1):
        l = x + i * (w + g)
        out += [(l + w, y + b + h), (l, y + b + h)]
        if i:
            out += [(l, y + b), (l - g, y + b)]
    return out


def saw(rng, s):
    """Teeth whose vertices share coordinates (hostile to median cuts)."""
    n = rng.choice([2, 3, 6, 12])
    x, y = rng.uniform(-s, s), rng.uniform(-s, s)
    d = 0.8 * s / n
    out = []
    for i in range(n):
        out += [(x, y + i * d), (x, y + (i + 0.5) * d), (x + 0.2 * s, y + (i + 0.75) * d)]
    out.append((x, y + n * d))
    if rng.random() < 0.5:
        out += [(x + s, y + n * d), (x + s, y)]
    else:
        out += [(x - s, y + n * d / 2)]
    return out


def spiral(rng, s):
    n = rng.choice([4, 6, 9])
    w = 0.9 * s / (2 * n)
    x = y = 0.0
    d = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    pts = [(0.0, 0.0)]
    for i in range(n):
        l = 2 * w * (i // 2 + 1)
        x, y = x + d[i % 4][0] * l, y + d[i % 4][1] * l
        pts.append((x, y))
    # thicken: offset of every vertex along the bisector of its two axis directions
    h = 0.35 * w
    left, right = [], []
    for i, p in enumerate(pts):
        a = d[(i - 1) % 4] if i else d[0]
        b = d[i % 4] if i < n else d[(n - 1) % 4]
        nx, ny = -a[1], a[0]
        mx, my = -b[1], b[0]
        vx, vy = (nx + mx, ny + my) if a != b else (nx, ny)
        left.append((p[0] + h * vx, p[1] + h * vy))
        right.append((p[0] - h * vx, p[1] - h * vy))
    ox, oy = rng.uniform(-s, s), rng.uniform(-s, s)
    return [(a + ox, b + oy) for a, b in left + right[::-1]]


def keyhole(rng, s):
    """Frame with a hole, cut open along a line (weakly simple)."""
    x, y = rng.uniform(-s, s), rng.uniform(-s, s)
    w, h = rng.uniform(0.3, 1) * s, rng.uniform(0.3, 1) * s
    a, b = sorted((rng.uniform(0.1, 0.45), rng.uniform(0.55, 0.9)))
    c, d = sorted((rng.uniform(0.1, 0.45), rng.uniform(0.55, 0.9)))
    q = [(x + a * w, y + c * h), (x + a * w, y + d * h), (x + b * w, y + d * h), (x + b * w, y + c * h)]
    k = (x, q[0][1])
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h), k] + q + [q[0], k]


def circle(rng, s):
    n = rng.choice([16, 40, 100])
    cx, cy = rng.uniform(-s, s), rng.uniform(-s, s)
    r = rng.uniform(0.1, 0.9) * s
    return [(cx + r * math.cos(2 * math.pi * i / n), cy + r * math.sin(2 * math.pi * i / n)) for i in range(n)]


def sliver(rng, s):
    x, y = rng.uniform(-s, s), rng.uniform(-s, s)
    t = rng.uniform(0, 2 * math.pi)
    l, w = s * rng.uniform(0.3, 1.2), s * 0.01
    c, n = math.cos(t), math.sin(t)
    return [(x, y), (x + l * c, y + l * n), (x + l * c - w * n, y + l * n + w * c), (x - w * n, y + w * c)]


KINDS = dict(rect=rect, star=star, convex=convex, stairs=stairs, comb=comb, saw=saw, spiral=spiral, keyhole=keyhole, circle=circle, sliver=sliver)
SIMPLE = [k for k in sorted(KINDS) if k not in ("keyhole",)]


def polygon(rng, s=10.0, kind=None, snap=None, kinds=None, decorate=True):
    """An (n, 2) float array.  snap: round the coordinates to that grid."""
    kind = kind or rng.choice(kinds or sorted(KINDS))
    p = np.array(KINDS[kind](rng, s), dtype=float)
    if snap:
        p = np.round(p / snap) * snap
    if decorate:
        if rng.random() < 0.5:
            p = p[::-1]
        p = np.roll(p, rng.randrange(len(p)), 0)
        if rng.random() < 0.15:  # extra collinear vertices
            q = []
            for a, b in zip(p, np.roll(p, -1, 0)):
                q.append(a)
                if rng.random() < 0.3 and (a[0] == b[0] or a[1] == b[1]):
                    q.append((a + b) / 2)
            p = np.array(q)
            if snap:
                p = np.round(p / snap) * snap
        if rng.random() < 0.1:  # repeated vertex
            k = rng.randrange(len(p))
            p = np.insert(p, k, p[k], 0)
    return np.ascontiguousarray(p)


def polygons(rng, n, **kw):
    return [polygon(rng, **kw) for _ in range(n)]


def layer(rng):
    return rng.choice([0, 1, 2, 3, 10, 63, 255])


def datatype(rng):
    return rng.choice([0, 1, 2, 7, 255])


NAME_CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_?$"


def name(rng, used=(), maxlen=32):
    while True:
        n = "".join(rng.choice(NAME_CHARS) for _ in range(rng.choice([1, 2, 3, 6, 7, maxlen])))
        if n not in used:
            return n
