"""C21: primitive shapes have the geometry they name."""
import json
import math
import os

import gdspy
import numpy as np

import geom
import stroke

RULE = (
    "Rectangles from any two opposite corners, circles, ellipses, rings and their sections with tolerances or numbers of points and vertex limits, "
    "compared by points with the exact shape (own dense outline), vertices with its boundary; texts of all printable characters compared, glyph by "
    "glyph, with a table of bitmaps laid out by an own typesetter. Non-trivial: at least one polygon; distinct by kind, ellipticity, angles, limits."
)
ASSUMPTIONS = [
    "Tolerances are met up to rounding the number of chords (2.5 times), more when the shape is cut in pieces, each of which needs its own ends.",
    "The bitmaps of the glyphs are those of the pinned version (each was looked at once); characters without a glyph leave a gap.",
]
REQUIRED = ["corners", "round-region", "vertices-on-boundary", "number-of-points", "max-points", "glyphs", "text-layout", "text-rigid", "tabs", "layers"]
FONT = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "font.json")))


def cases(tier):
    k = 5 if tier == "quick" else 150
    return [("rectangle", 30 * k), ("round", 300 * k), ("text", 40 * k), ("glyph", 20)]


def run_case(kind, index, rng, m):
    s = rng.choice([1.0, 1.0, 50.0, 1e3, 1e-2])
    if kind == "glyph":
        return case_glyph(index, rng, m)
    globals()["case_" + kind](rng, m, s)


def layer(rng, m, make):
    kw = {}
    if rng.random() < 0.6:
        kw["layer"] = rng.choice([0, 1, 7, 255])
    if rng.random() < 0.6:
        kw["datatype"] = rng.choice([0, 1, 7, 255])
    p = make(kw)
    n = len(p.polygons)
    m.check(list(p.layers) == [kw.get("layer", 0)] * n and list(p.datatypes) == [kw.get("datatype", 0)] * n, "layers", "layers %r, datatypes %r for %r and %d polygons" % (p.layers, p.datatypes, kw, n))
    d = p.get_polygons(by_spec=True) if hasattr(p, "get_polygons") else None
    m.check(d is None or set(d) <= {(kw.get("layer", 0), kw.get("datatype", 0))}, "layers", "polygons %r" % (d and list(d),))
    return p


def case_rectangle(rng, m, s):
    form = rng.choice([tuple, list, np.array])
    num = (lambda: rng.randrange(-9, 10)) if rng.random() < 0.3 else (lambda: rng.uniform(-1, 1) * s)
    a, b = (num(), num()), (num(), num())
    m.ctx(corners=(a, b))
    r = layer(rng, m, lambda kw: gdspy.Rectangle(form(a), form(b), **kw))
    m.state("rectangle", a[0] < b[0], a[1] < b[1], form.__name__)
    p = np.asarray(r.polygons[0], dtype=float)
    m.check(len(r.polygons) == 1 and geom.same_cycle(p, np.array([a, (a[0], b[1]), b, (b[0], a[1])], dtype=float), 0), "corners", "rectangle %s" % p.tolist())
    m.check(abs(r.area() - abs((a[0] - b[0]) * (a[1] - b[1]))) <= 1e-9 * s * s, "corners", "area %r" % r.area())
    bb = r.get_bounding_box()
    m.check(np.abs(bb - [np.minimum(a, b), np.maximum(a, b)]).max() == 0, "corners", "bounding box %s" % bb)


def par(a, rx, ry):
    """Parameter of the ellipse at the angle a of the plane."""
    k = math.floor(a / (2 * math.pi) + 0.5) * 2 * math.pi
    return math.atan2(rx * math.sin(a - k), ry * math.cos(a - k)) + k


def nice(rng):
    return rng.choice([0, 1, 2, 3, 4, 6, -1, -2, -3, 8]) * math.pi / rng.choice([1, 2, 3, 4, 6])


def case_round(rng, m, s):
    c = np.array((rng.uniform(-2, 2), rng.uniform(-2, 2))) * s * rng.choice([0, 1, 1])
    rx = ry = rng.uniform(0.3, 1) * s
    if rng.random() < 0.4:
        ry = rx * rng.uniform(0.3, 3)
    arg = rx if rx == ry and rng.random() < 0.8 else rng.choice([tuple, list, np.array])((rx, ry))
    ring = rng.random() < 0.5
    ix = iy = 0
    kw = {}
    if ring:
        f = rng.uniform(0.1, 0.9)
        ix = iy = f * min(rx, ry)
        if rng.random() < 0.5:
            ix, iy = rng.uniform(0.1, 0.95) * rx, rng.uniform(0.1, 0.95) * ry
        kw["inner_radius"] = ix if ix == iy and rng.random() < 0.8 else (ix, iy)
    a0 = a1 = 0
    full = rng.random() < 0.35
    if full:
        if rng.random() < 0.4:
            a0 = a1 = kw["initial_angle"] = kw["final_angle"] = rng.uniform(-4, 4) if rng.random() < 0.5 else nice(rng)
    else:
        a0 = nice(rng) if rng.random() < 0.5 else rng.uniform(-7, 7)
        t = rng.choice([-1, 1]) * rng.choice([math.pi / 2, math.pi, 1.5 * math.pi, 2 * math.pi, rng.uniform(0.05, 6.2), rng.uniform(0.05, 1)])
        a1 = a0 + t
        if rng.random() < 0.3:
            a1 = round(a1 / math.pi * 2) * math.pi / 2
        if not 0.04 < abs(a1 - a0) < 2 * math.pi + 1e-9:
            a1 = a0 + 1
        kw.update(initial_angle=a0, final_angle=a1)
    mx = rng.choice([199, 199, 199, 0, 60, 20, 9])
    if mx != 199 or rng.random() < 0.3:
        kw["max_points"] = mx
    lim = mx or 10 ** 9
    T = 2 * math.pi if full else abs(a1 - a0)
    ts = (0, 2 * math.pi) if full else (par(a0, rx, ry), par(a1, rx, ry))
    tu = (0, 2 * math.pi) if full else (par(a0, ix, iy), par(a1, ix, iy)) if ring else ts
    R = max(rx, ry)
    if rng.random() < 0.6:
        tol = rng.choice([0.1, 1e-2, 1e-3, 1e-4]) * s
        if rng.random() < 0.1:
            kw["number_of_points"] = float(tol)  # (as in older versions)
        else:
            kw["tolerance"] = tol
        asked = None
        chords = 0.5 * max(abs(ts[1] - ts[0]), abs(tu[1] - tu[0])) / math.acos(max(-1, 1 - tol / R))
        n = chords * (2 if ring else 1)
        # (the number of chords is rounded)
        margin = 1.05 * tol * max(1.0, chords / max(1.0, chords - 0.5)) ** 2
    else:
        tol = None
        asked = n = kw["number_of_points"] = rng.choice([8, 9, 12, 33, 64, 100, 199, 200, 500, 513])
        if asked > 150 and 10 < lim < 30:
            asked = n = kw["number_of_points"] = 33
        chords = n if full and not ring else n - 2 if not ring else n // 2 - 1
        margin = 1.02 * R * (1 - math.cos(min(math.pi, max(abs(ts[1] - ts[0]), abs(tu[1] - tu[0])) / 2 / chords)))
    # pieces have ends of their own
    pieces = math.ceil((n + 3) / lim)
    if pieces > 1 or n + 4 > lim:
        pieces = max(pieces, 2)
        each = (n - 4) // pieces if asked is None else asked // math.ceil(asked / lim)
        own = each // 2 - 1 if ring else each - 2
        if own < 1:
            kw["max_points"] = mx = 0
            lim, pieces = 10 ** 9, 1
        else:
            if asked is None:
                worst = 1
                for q in range(int(n), int(n) + 5):
                    k = math.ceil(q / lim)
                    worst = max(worst, chords / k / max(1, q // k // 2 - 1 if ring else q // k - 2))
                margin *= worst ** 2
            else:
                margin = 1.02 * R * (1 - math.cos(min(math.pi, max(abs(ts[1] - ts[0]), abs(tu[1] - tu[0]), math.pi if T > 3 else T) / pieces / own)))
        # (pieces are equal in angle, not in length)
        if len(r_ := {rx / ry, ix / iy if ring else 1}) > 1 or rx != ry:
            margin *= max(max(x, 1 / x) for x in r_) ** 2
    margin = min(margin, 4 * R)
    m.ctx(center=c, radius=(rx, ry), options=repr(kw))
    r = layer(rng, m, lambda k2: gdspy.Round(tuple(c) if rng.random() < 0.5 else c.copy(), arg, **dict(kw, **k2)))
    m.state("round", full, ring, rx == ry, ix == iy, asked, mx, tol and tol / s, round(T, 1))
    m.sample(dict(radius=(rx, ry), options=repr(kw), polygons=len(r.polygons)))
    pols = [np.asarray(p, dtype=float) for p in r.polygons]
    if asked is not None and (mx == 0 or asked <= mx):
        m.check([len(p) for p in pols] == [asked], "number-of-points", "polygons of %s points" % [len(p) for p in pols])
    if mx:
        m.check(max(len(p) for p in pols) <= mx, "max-points", "polygons of %s points" % [len(p) for p in pols])
    else:
        m.check(len(pols) == 1, "max-points", "%d polygons" % len(pols))
    D = 1500
    tt, ti = np.linspace(*ts, D), np.linspace(*tu, D)
    out = c + np.stack((rx * np.cos(tt), ry * np.sin(tt)), axis=1)
    inn = c + np.stack((ix * np.cos(ti), iy * np.sin(ti)), axis=1)
    exact = np.vstack((out, inn[::-1])) if ring else out if full else np.vstack((out, [c]))
    eps = 3e-6 * R * T
    # vertices: on the outer or the inner boundary, or the centre
    v = np.vstack(pols) - c
    on = np.abs((v[:, 0] / rx) ** 2 + (v[:, 1] / ry) ** 2 - 1) < 1e-6
    if ring:
        on |= np.abs((v[:, 0] / ix) ** 2 + (v[:, 1] / iy) ** 2 - 1) < 1e-6
    elif not full or len(pols) > 1:
        on |= np.hypot(*v.T) < 1e-9 * (R + np.abs(c).max())
    m.check(np.isfinite(v).all() and on.all(), "vertices-on-boundary", "vertex %s is not on the boundary" % v[~on][:1])
    if not full:
        # the limits are there exactly
        for t, (px, py) in [(ts[0], (rx, ry)), (ts[1], (rx, ry))] + ([(tu[0], (ix, iy)), (tu[1], (ix, iy))] if ring else []):
            q = (px * math.cos(t), py * math.sin(t))
            m.check(np.hypot(*(v - q).T).min() <= 1e-8 * (R + np.abs(c).max()), "vertices-on-boundary", "no vertex at the limit %s" % (q,))
    bad, n = stroke.compare(rng, pols, [exact], margin + eps, 60)
    m.count("points judged", n)
    m.check(bad is None, "round-region", "%s (margin %g)" % (bad, margin))
    area = abs(geom.signed_area(exact))
    got = sum(abs(geom.signed_area(p)) for p in pols)
    m.check(abs(got - area) <= 3 * (margin + eps) * (R + max(ix, iy)) * T + 1e-9 * area, "round-region", "area %r, exact %r" % (got, area))


# ---------------------------------------------------------------- text


def bitmap(polys, x, y, u):
    """Cells (of 8 by 11, from 1 to the left and 1 below) covered."""
    g = np.array([(x + (i + 0.5) * u, y + (j + 0.5) * u) for j in range(-1, 10) for i in range(-1, 7)])
    return geom.contains(polys, g).reshape(11, 8)


def wanted(ch):
    b = np.zeros((11, 8), dtype=bool)
    for j, row in enumerate(FONT.get(ch, [])):
        for i, x in enumerate(row):
            b[j + 1, i + 1] = x == "#"
    return b


CHARS = [chr(i) for i in range(33, 127)]


def case_glyph(index, rng, m):
    for ch in CHARS[index * 5 : index * 5 + 5]:
        s = rng.choice([9, 9.0, 1, 0.3])
        t = gdspy.Text(ch, s)
        u = s / 9.0
        m.state("glyph", ch)
        pols = [np.asarray(p) for p in t.polygons]
        m.ctx(character=ch, size=s)
        if not m.check((len(pols) > 0) == (ch in FONT), "glyphs", "%d polygons" % len(pols)):
            continue
        if not pols:
            continue
        b = bitmap(pols, 0, 0, u)
        m.check((b == wanted(ch)).all(), "glyphs", "covers\n" + "\n".join("".join(".#"[int(x)] for x in r) for r in b[::-1]))
        v = np.vstack(pols) / u
        m.check(v[:, 0].min() >= -1e-9 and v[:, 0].max() <= 5 + 1e-9 and v[:, 1].min() >= -1e-9 and v[:, 1].max() <= 9 + 1e-9, "glyphs", "leaves its box")
        a = sum(abs(geom.signed_area(p)) for p in pols) / u ** 2
        m.check(abs(a - b.sum()) <= 1e-6, "glyphs", "area %r for %d cells" % (a, b.sum()))


def case_text(rng, m, s):
    lines = ["".join(rng.choice(CHARS + [" ", " "]) for _ in range(rng.choice([0, 1, 2, 5, 9]))) for _ in range(rng.choice([1, 1, 2, 3]))]
    text = "\n".join(lines)
    size = rng.choice([9, 1, 0.37, 20.5]) * s
    pos = (rng.uniform(-5, 5) * s, rng.uniform(-5, 5) * s) if rng.random() < 0.7 else (0, 0)
    hor = rng.random() < 0.6
    m.ctx(text=text, size=size, position=pos, horizontal=hor)
    kw = {}
    if pos != (0, 0) or rng.random() < 0.3:
        kw["position"] = pos
    if not hor or rng.random() < 0.3:
        kw["horizontal"] = hor
    t = layer(rng, m, lambda k2: gdspy.Text(text, size, **dict(kw, **k2)))
    u = size / 9.0
    m.state("text", [len(x) for x in lines], hor, pos != (0, 0))
    pols = [np.asarray(p) for p in t.polygons]
    want, cells = {}, {}
    for j, l in enumerate(lines):
        for k, ch in enumerate(l):
            x, y = (8 * k, -11 * j) if hor else (8 * j, -11 * k)
            b = wanted(ch)
            for jj, ii in zip(*np.nonzero(b)):
                cells[(x + ii - 1, y + jj - 1)] = ch
    # every cell of the page
    h = max([len(l) for l in lines])
    nx, ny = (8 * h, 11 * len(lines)) if hor else (8 * len(lines), 11 * h)
    g = [(i, j) for j in range(-ny - 2, 12) for i in range(-2, nx + 2)]
    pts = np.array(g) + 0.5
    # (positions limit the accuracy)
    got = geom.contains(pols, pts * u + pos) if pols else np.zeros(len(g), dtype=bool)
    exp = np.array([c in cells for c in g])
    d = np.flatnonzero(got != exp)
    m.check(len(d) == 0, "text-layout", "cell %s is %s" % (g[d[0]] if len(d) else None, "covered" if len(d) and got[d[0]] else "empty"))
    a = sum(abs(geom.signed_area(p)) for p in pols)
    m.check(abs(a - exp.sum() * u * u) <= 1e-6 * u * u * (1 + exp.sum()), "text-layout", "area %r for %d cells" % (a, exp.sum()))
    # rotation around the position
    ang = rng.choice([math.pi / 2, math.pi, rng.uniform(-7, 7)])
    r = gdspy.Text(text, size, pos, hor, ang)
    R = np.array([[math.cos(ang), -math.sin(ang)], [math.sin(ang), math.cos(ang)]])
    ok = len(r.polygons) == len(pols) and all(np.abs((p - pos) @ R.T + pos - q).max() <= 1e-9 * (np.abs(p).max() + np.abs(pos).max()) for p, q in zip(pols, r.polygons))
    m.check(ok, "text-rigid", "angle %r does not rotate the text around its position" % ang)
    # columns of tabs: the text after a tab starts at one of equally spaced columns, after the text before it
    n = rng.randrange(0, 12)
    first = "".join(rng.choice("abcXYZ") for _ in range(n))
    a = gdspy.Text(first + "\tH", size, horizontal=hor)
    one = gdspy.Text("H", size)
    v = np.asarray(a.polygons[-1]).min(0) - np.asarray(one.polygons[0]).min(0)
    col, row = v / u
    along, across, step, ahead = (col, row, 32, 8 * n) if hor else (-row, col, 44, 11 * n)
    base = gdspy.Text("\tH", size, horizontal=hor)
    w = np.asarray(base.polygons[-1]).min(0) - np.asarray(one.polygons[0]).min(0)
    b0 = (w[0] if hor else -w[1]) / u
    k = (along - b0) / step
    m.check(abs(across) < 1e-6 and abs(k - round(k)) < 1e-6 and ahead - 1e-6 <= along <= ahead + step + 1e-6, "tabs", "a tab after %d characters moves to %s" % (n, (col, row)))
