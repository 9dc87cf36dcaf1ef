"""Random libraries, with a description of every element taken from what was
asked for (not from what gdspy writes)."""
import datetime
import math

import gdspy
import numpy as np

import gen
import geom

UNITS = [(1e-6, 1e-9), (1e-6, 1e-9), (1e-6, 5e-9), (1e-9, 1e-9), (1e-3, 1e-9), (1e-6, 1e-10), (2.54e-5, 1e-8), (1e-6, 2e-12), (1.0, 1e-3), (1e-6, 3e-9)]
PRINTABLE = "".join(chr(c) for c in range(32, 127))


def text(rng, maxlen=20, empty=False):
    n = rng.choice([1, 2, 3, 5, 8, maxlen] + ([0] if empty else []))
    return "".join(rng.choice(PRINTABLE) for _ in range(n))


def props(rng, p=0.3):
    if rng.random() > p:
        return {}
    long = 126 if rng.random() < 0.15 else 20
    return {rng.choice([1, 2, 17, 100, 127]): text(rng, long, empty=True) for _ in range(rng.choice([1, 1, 2, 3]))}


def lay(rng):
    return rng.choice([0, 1, 2, 5, 63, 255, 1000, 32767])


class Ctx(object):
    """Scale of the coordinates: s in user units, grid is one database unit."""

    def __init__(self, rng, units=None, scales=(1.0, 20.0, 500.0)):
        self.unit, self.precision = units or rng.choice(UNITS)
        self.grid = self.precision / self.unit
        self.mult = self.unit / self.precision
        self.s = min(rng.choice(scales), 1.5e8 * self.grid)
        self.s = max(self.s, 2000 * self.grid)
        self.snap = rng.choice(["free", "grid", "half", "free"])

    def pt(self, rng):
        return tuple(self.fix(np.array([rng.uniform(-self.s, self.s), rng.uniform(-self.s, self.s)])).tolist())

    def fix(self, p):
        if self.snap == "free":
            return p
        q = np.round(np.asarray(p, dtype=float) / self.grid)
        if self.snap == "half":
            q = q + 0.5
        return q * self.grid


def polygon_points(rng, c, n=None):
    if n is None:
        p = gen.polygon(rng, s=c.s)
        p = c.fix(p)
    else:
        t = 2 * np.pi * np.arange(n) / n
        r = 0.5 + 0.4 * np.cos(rng.choice([3, 5]) * t)
        p = np.stack([r * np.cos(t), r * np.sin(t)], 1) * c.s
    return p


def polyset(rng, c):
    t = rng.randrange(8)
    l, d = lay(rng), lay(rng)
    if t <= 2:
        o = gdspy.Polygon(polygon_points(rng, c), l, d)
    elif t == 3:
        o = gdspy.PolygonSet([polygon_points(rng, c) for _ in range(rng.choice([1, 2, 4]))], l, d)
        if rng.random() < 0.5:
            o.layers = [lay(rng) for _ in o.polygons]
            o.datatypes = [lay(rng) for _ in o.polygons]
    elif t == 4:
        a, b = c.pt(rng), c.pt(rng)
        o = gdspy.Rectangle(a, b, l, d)
    elif t == 5:
        o = gdspy.Round(c.pt(rng), 0.4 * c.s, tolerance=0.01 * c.s, layer=l, datatype=d)
    elif t == 6:
        o = gdspy.Text(text(rng, 4).strip() or "A", 0.3 * c.s, c.pt(rng), layer=l, datatype=d)
        if not o.polygons:
            o = gdspy.Polygon(polygon_points(rng, c), l, d)
    else:
        o = gdspy.Path(0.1 * c.s, c.pt(rng))
        o.segment(0.7 * c.s, "+y", layer=l, datatype=d).segment(0.4 * c.s, "-x", layer=d, datatype=l)
    o.properties = props(rng)
    return o


def polyline(rng, c, n, step=None):
    """Vertices with turns below 100 degrees and long segments."""
    step = step or 0.5 * c.s
    p = [np.array(c.pt(rng))]
    a = rng.uniform(0, 2 * math.pi)
    if rng.random() < 0.4:
        a = rng.randrange(4) * math.pi / 2
    axis = rng.random() < 0.4
    for _ in range(n - 1):
        l = step * rng.uniform(0.8, 1.5)
        p.append(p[-1] + l * np.array((math.cos(a), math.sin(a))))
        a += rng.choice([-1, 1]) * (math.pi / 2 if axis else rng.uniform(0.1, 1.7))
    return np.array(p)


def offset_line(line, off):
    """The line displaced to its left by off (corners where the displaced sides meet)."""
    line = np.asarray(line, dtype=float)
    d = line[1:] - line[:-1]
    d = d / np.hypot(d[:, 0], d[:, 1])[:, None]
    nrm = np.stack([-d[:, 1], d[:, 0]], 1)
    out = [line[0] + off * nrm[0]]
    for i in range(1, len(line) - 1):
        b = nrm[i - 1] + nrm[i]
        out.append(line[i] + off * 2 * b / np.dot(b, b))
    out.append(line[-1] + off * nrm[-1])
    return np.array(out)


def bent(line, r, k=60):
    """Dense polyline: corners of line replaced by arcs of radius r."""
    out = [line[0]]
    for i in range(1, len(line) - 1):
        p0, p, p1 = line[i - 1], line[i], line[i + 1]
        a, b = p - p0, p1 - p
        a, b = a / np.hypot(*a), b / np.hypot(*b)
        turn = math.atan2(a[0] * b[1] - a[1] * b[0], float(np.dot(a, b)))
        if abs(turn) < 1e-12:
            out.append(p)
            continue
        t = r * math.tan(abs(turn) / 2)
        s = 1 if turn > 0 else -1
        c = p - t * a + s * r * np.array((-a[1], a[0]))
        v = (p - t * a) - c
        for j in range(k + 1):
            g = turn * j / k
            out.append(c + np.array((v[0] * math.cos(g) - v[1] * math.sin(g), v[0] * math.sin(g) + v[1] * math.cos(g))))
    out.append(line[-1])
    return np.array(out)


def native_flex(rng, c, n=None, single=False):
    """(FlexPath with gdsii_path, [description of each element])."""
    w = 0.05 * c.s * rng.choice([0.2, 1.0, 1.0])
    k = 1 if single else rng.choice([1, 1, 2, 3])
    ends, desc_ends = [], []
    for _ in range(k):
        e = rng.choice(["flush", "round", "extended", "tuple"])
        if e == "tuple":
            e = (rng.uniform(-0.02, 0.1) * c.s, rng.uniform(-0.02, 0.1) * c.s)
        ends.append(e)
    widths = [w * rng.uniform(0.5, 1.0) for _ in range(k)]
    offs = [1.5 * w * (i - (k - 1) / 2.0) for i in range(k)]
    if rng.random() < 0.3:
        offs = [o + 0.7 * w for o in offs]
    if rng.random() < 0.3:
        offs = [0.0] * k
    big = n is not None
    if big:
        t = np.arange(n)
        line = np.stack([t * c.s / n, 0.1 * c.s * np.sin(t * 20.0 / n)], 1)
        offs = [0.0] * k
        bend = None
    else:
        bend = rng.choice([None, None, 0.12 * c.s])
        line = polyline(rng, c, rng.choice([2, 2, 3, 4, 6]), 0.85 * c.s if bend else None)
    layers = [lay(rng) for _ in range(k)]
    dts = [lay(rng) for _ in range(k)]
    kw = dict(ends=ends, gdsii_path=True, width_transform=rng.random() < 0.6, layer=layers, datatype=dts, tolerance=0.002 * c.s)
    if bend:
        kw.update(corners="circular bend", bend_radius=bend)
    path = gdspy.FlexPath(line if rng.random() < 0.5 else [tuple(p) for p in line.tolist()], widths, offs, **kw)
    path.properties = props(rng)
    out = []
    for i in range(k):
        ol = offset_line(line, offs[i])
        d = dict(kind="path", layer=layers[i], datatype=dts[i], width=widths[i], wt=kw["width_transform"], ends=ends[i], props=dict(path.properties))
        if bend:
            d.update(curve=bent(ol, bend), tol=2.3 * kw["tolerance"])
        else:
            d.update(xy=ol)
        out.append(d)
    return path, out


def native_robust(rng, c):
    w = 0.05 * c.s * rng.uniform(0.3, 1)
    k = rng.choice([1, 1, 2, 3])
    e = rng.choice(["flush", "round", "extended", (0.07 * c.s, -0.01 * c.s)])
    offs = [1.5 * w * (i - (k - 1) / 2.0) for i in range(k)]
    if rng.random() < 0.3:
        offs = [o + 0.7 * w for o in offs]
    layers, dts = [lay(rng) for _ in range(k)], [lay(rng) for _ in range(k)]
    wt = rng.random() < 0.6
    tol = 0.0005 * c.s
    p = np.array(c.pt(rng))
    path = gdspy.RobustPath(tuple(p), [w] * k, offs, ends=e, gdsii_path=True, width_transform=wt, layer=layers, datatype=dts, tolerance=tol)
    path.properties = props(rng)
    a = rng.uniform(0.3, 2.8) * rng.choice([-1, 1])
    lines = [[] for _ in range(k)]
    d = np.array((math.cos(a), math.sin(a)))

    def put(q, d):
        n = np.array((d[1], -d[0]))  # positive offsets are to the right here
        for i in range(k):
            lines[i].append(q + offs[i] * n)

    for i in range(rng.choice([1, 2, 3])):
        put(p, d)
        q = p + d * c.s * rng.uniform(0.3, 0.8)
        path.segment(tuple(q))
        put(q, d)
        p = q
        r, t = c.s * rng.uniform(0.3, 0.6), rng.choice([-1, 1]) * rng.uniform(0.2, 1.2)
        if abs(a + t) > 2.8:
            t = -t
        path.turn(r, t)
        s = 1 if t > 0 else -1
        ctr = p + s * r * np.array((-d[1], d[0]))
        v = p - ctr
        for j in range(1, 81):
            g = t * j / 80
            cg, sg = math.cos(g), math.sin(g)
            p = ctr + np.array((v[0] * cg - v[1] * sg, v[0] * sg + v[1] * cg))
            d2 = np.array((d[0] * cg - d[1] * sg, d[0] * sg + d[1] * cg))
            put(p, d2)
        d, a = d2, a + t
    return path, [dict(kind="path", layer=layers[i], datatype=dts[i], width=w, wt=wt, ends=e, props=dict(path.properties),
                       curve=np.array(lines[i]), tol=4 * tol) for i in range(k)]


def long_robust(rng, c, n):
    """RobustPath with gdsii_path through n points."""
    t = np.arange(n)
    line = np.stack([t * c.s / n, 0.1 * c.s * np.sin(t * 20.0 / n) + 0.3 * c.s / n * (t % 2)], 1)
    w, wt = 0.04 * c.s, rng.random() < 0.5
    path = gdspy.RobustPath(tuple(line[0]), w, gdsii_path=True, width_transform=wt, layer=lay(rng), datatype=lay(rng), tolerance=0.0005 * c.s)
    path.properties = props(rng)
    for q in line[1:]:
        path.segment(tuple(q))
    return path, [dict(kind="path", layer=path.layers[0], datatype=path.datatypes[0], width=w, wt=wt, ends="flush", props=dict(path.properties), xy=line)]


def poly_path(rng, c):
    """A path saved as polygons."""
    k = rng.choice([1, 2])
    w = 0.05 * c.s
    kw = dict(ends=rng.choice(["flush", "round", "extended", "smooth", (0.02 * c.s, 0.03 * c.s)]), layer=lay(rng), datatype=lay(rng), tolerance=0.002 * c.s, precision=max(c.grid, 1e-4 * c.s))
    if rng.random() < 0.6:
        kw["corners"] = rng.choice(["natural", "miter", "bevel", "round", "smooth", "circular bend"])
        kw["bend_radius"] = 0.12 * c.s
        p = gdspy.FlexPath(polyline(rng, c, rng.choice([2, 3, 5])), [w * 0.6] * k, w, **kw)
    else:
        p = gdspy.RobustPath(c.pt(rng), [w * 0.6] * k, w, **kw)
        p.segment((0.6 * c.s, 0.1 * c.s), relative=True).turn(0.3 * c.s, rng.uniform(0.3, 1.2))
    p.properties = props(rng)
    ps = gdspy.copy(p).to_polygonset()
    return p, [dict(kind="boundary", layer=l, datatype=d, xy=np.array(q), props=dict(p.properties)) for q, l, d in zip(ps.polygons, ps.layers, ps.datatypes)]


def label(rng, c):
    o = gdspy.Label(
        text(rng, 40, empty=True), c.pt(rng), rng.choice(["nw", "n", "ne", "w", "o", "e", "sw", "s", "se", "Top Left", "lower center"]),
        rng.choice([None, 0, 90, 33.5, -45.25, 1e-3]), rng.choice([None, 1, 0.5, 3.7]), rng.random() < 0.4, lay(rng), lay(rng))
    o.properties = props(rng)
    return o


ANCHORS = {0: "nw", 1: "n", 2: "ne", 4: "w", 5: "o", 6: "e", 8: "sw", 9: "s", 10: "se"}
ANCHOR_NUMBER = {"nw": 0, "n": 1, "ne": 2, "w": 4, "o": 5, "e": 6, "sw": 8, "s": 9, "se": 10}


def transform(rng):
    return dict(
        rotation=rng.choice([None, 0, 90, 180, 270, 33.0, -77.7, 400.0]),
        magnification=rng.choice([None, None, 1, 0.5, 2.5, 1e-3]),
        x_reflection=rng.random() < 0.4,
    )


def reference(rng, c, target, arrays=True):
    kw = transform(rng)
    kw["origin"] = c.pt(rng)
    if rng.random() < 0.3:
        kw["origin"] = np.array(kw["origin"])
    if not isinstance(target, gdspy.Cell):
        kw["ignore_missing"] = True
    if arrays and rng.random() < 0.5:
        o = gdspy.CellArray(target, rng.choice([1, 2, 3, 7]), rng.choice([1, 2, 5]), (rng.uniform(0.05, 0.3) * c.s, rng.uniform(0.05, 0.3) * c.s * rng.choice([1, -1])), **kw)
    else:
        o = gdspy.CellReference(target, **kw)
    o.properties = props(rng)
    return o


def library(rng, ncells=None, units=None, kinds=None, big=None, scales=(1.0, 20.0, 500.0)):
    """(GdsLibrary, Ctx, {cell name: [descriptions in file order]})."""
    c = Ctx(rng, units, scales)
    lib = gdspy.GdsLibrary(text(rng, 12), unit=c.unit, precision=c.precision)
    n = ncells or rng.choice([1, 2, 3, 5])
    cells, docs = [], {}
    for i in range(n):
        cell = gdspy.Cell(gen.name(rng, docs), exclude_from_current=True)
        doc = fill(rng, c, cell, cells, kinds, big if i == 0 else None)
        docs[cell.name] = doc
        cells.append(cell)
    order = list(cells)
    rng.shuffle(order)
    for x in order:
        lib.add(x, include_dependencies=False)
    return lib, c, docs


def fill(rng, c, cell, cells, kinds=None, big=None):
    polys, paths, labels, refs = [], [], [], []
    for k in range(rng.choice([0, 1, 3, 6]) if big is None else 1):
        kind = rng.choice(kinds or ["polygon", "polygon", "flex", "robust", "polypath", "label", "ref", "ref"])
        if big == "polygon":
            o = gdspy.Polygon(polygon_points(rng, c, rng.choice([8189, 8190, 8191, 8192, 16379, 16380, 16381, 20000])), 1, 2)
            o.properties = props(rng)
            cell.add(o)
            polys += polyset_doc(o)
        elif big == "path":
            o, d = native_flex(rng, c, rng.choice([8190, 8191, 8192, 16382, 16383, 20000]))
            cell.add(o)
            paths += d
        elif big == "robust":
            o, d = long_robust(rng, c, rng.choice([8190, 8191, 8192, 8193, 16383]))
            cell.add(o)
            paths += d
        elif kind == "polygon":
            o = polyset(rng, c)
            cell.add(o)
            polys += polyset_doc(o)
        elif kind == "flex":
            o, d = native_flex(rng, c)
            cell.add(o)
            paths += d
        elif kind == "robust":
            o, d = native_robust(rng, c)
            cell.add(o)
            paths += d
        elif kind == "polypath":
            o, d = poly_path(rng, c)
            cell.add(o)
            paths += d
        elif kind == "label":
            o = label(rng, c)
            cell.add(o)
            labels.append(label_doc(o))
        else:
            t = rng.choice(cells) if cells and rng.random() < 0.9 else "Missing_%d" % rng.randrange(10)
            o = reference(rng, c, t)
            cell.add(o)
            refs.append(ref_doc(o))
    return polys + paths + labels + refs


def polyset_doc(o):
    return [dict(kind="boundary", layer=l, datatype=d, xy=np.array(p, dtype=float), props=dict(o.properties)) for p, l, d in zip(o.polygons, o.layers, o.datatypes)]


def label_doc(o):
    return dict(kind="text", layer=o.layer, texttype=o.texttype, text=o.text, xy=np.array([o.position], dtype=float), anchor=o.anchor,
                rotation=o.rotation, magnification=o.magnification, x_reflection=bool(o.x_reflection), props=dict(o.properties))


def ref_doc(o):
    d = dict(sname=o.ref_cell.name if isinstance(o.ref_cell, gdspy.Cell) else o.ref_cell, xy=np.array([o.origin], dtype=float), rotation=o.rotation,
             magnification=o.magnification, x_reflection=bool(o.x_reflection), props=dict(o.properties), kind="sref")
    if isinstance(o, gdspy.CellArray):
        d.update(kind="aref", colrow=[o.columns, o.rows], spacing=tuple(o.spacing))
    return d


def timestamp(rng):
    return datetime.datetime(rng.choice([1900, 1970, 2000, 2024, 2099]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def stamp(t):
    return [t.year, t.month, t.day, t.hour, t.minute, t.second] * 2
