"""Random hierarchies of cells and their naive expansion (from public attributes)."""
import copy
import math

import gdspy
import numpy as np

import gen
import geom
import libgen


class C(object):
    """Scale of one case (no grid)."""

    def __init__(self, s):
        self.s = s
        self.grid = s * 1e-6

    def pt(self, rng):
        return (rng.uniform(-self.s, self.s), rng.uniform(-self.s, self.s))

    def fix(self, p):
        return p


LAY = [0, 1, 2, 3]


def lay(rng):
    return rng.choice(LAY)


def polyset(rng, c):
    o = libgen.polyset(rng, c)
    if len(o.polygons) > 12:
        o = gdspy.Rectangle(c.pt(rng), c.pt(rng))
    if rng.random() < 0.8:
        o.layers = [lay(rng) for _ in o.polygons] if rng.random() < 0.5 else [lay(rng)] * len(o.polygons)
        o.datatypes = [lay(rng) for _ in o.polygons] if rng.random() < 0.5 else [lay(rng)] * len(o.polygons)
    return o


def flexpath(rng, c):
    """A path whose polygons move with it exactly under any similarity."""
    k = rng.choice([1, 1, 2])
    w = 0.04 * c.s * rng.uniform(0.3, 1)
    line = libgen.polyline(rng, c, rng.choice([2, 3, 4]))
    l, d = [lay(rng) for _ in range(k)], [lay(rng) for _ in range(k)]
    if k == 2:
        l[1], d[1] = l[0], d[0]
    p = gdspy.FlexPath(
        line, [w] * k, 0 if k == 1 else 1.7 * w, corners=rng.choice(["natural", "miter", "bevel"]),
        ends=rng.choice(["flush", "extended"]), layer=l, datatype=d, gdsii_path=rng.random() < 0.3, width_transform=True,
        tolerance=0.002 * c.s, precision=1e-6 * c.s,
    )
    p.properties = libgen.props(rng)
    return p


def robustpath(rng, c):
    w = 0.04 * c.s * rng.uniform(0.3, 1)
    p = gdspy.RobustPath(c.pt(rng), w, tolerance=1e-3 * c.s, layer=lay(rng), datatype=lay(rng))
    a = rng.uniform(-2.5, 2.5)
    p.segment((0.5 * c.s * math.cos(a), 0.5 * c.s * math.sin(a)), relative=True)
    if rng.random() < 0.6:
        p.turn(0.4 * c.s, rng.uniform(0.2, 1.0))
    p.properties = libgen.props(rng)
    return p


def label(rng, c):
    return libgen_label(rng, c)


def libgen_label(rng, c):
    o = libgen.label(rng, c)
    if rng.random() < 0.8:
        o.layer, o.texttype = lay(rng), lay(rng)
    return o


def reference(rng, c, t, transform=None):
    o = libgen.reference(rng, c, t)
    if o.magnification is not None and o.magnification < 0.01:
        o.magnification = 0.3
    if isinstance(o, gdspy.CellArray):
        o.columns, o.rows = rng.choice([(1, 1), (2, 1), (1, 3), (3, 2), (2, 2)])
    return o


def element(rng, c, cells, kinds):
    k = rng.choice(kinds)
    if k == "poly":
        return polyset(rng, c)
    if k == "flex":
        return flexpath(rng, c)
    if k == "robust":
        return robustpath(rng, c)
    if k == "label":
        return label(rng, c)
    t = rng.choice(cells) if cells and rng.random() < 0.93 else "Missing%d" % rng.randrange(5)
    return reference(rng, c, t)


KINDS = ["poly", "poly", "flex", "robust", "label", "ref", "ref", "ref"]


def hierarchy(rng, n=None, kinds=KINDS, s=None, limit=1500):
    """(cells, C); the last cell is on top.  Every expansion is below limit elements."""
    c = C(s or rng.choice([1.0, 30.0, 1000.0]))
    cells = []
    size = {}
    for i in range(n or rng.choice([1, 2, 3, 4, 6])):
        cell = gdspy.Cell(gen.name(rng, [x.name for x in cells]), exclude_from_current=True)
        tot = 0
        for _ in range(rng.choice([0, 1, 2, 4, 7] if i < 2 else [2, 3, 5])):
            e = element(rng, c, cells[-4:], kinds)
            if isinstance(e, (gdspy.CellReference, gdspy.CellArray)):
                z = size.get(getattr(e.ref_cell, "name", None), 0) * (e.columns * e.rows if isinstance(e, gdspy.CellArray) else 1)
            else:
                z = len(e.polygons) if isinstance(e, gdspy.PolygonSet) else 2
            if tot + z > limit:
                continue
            tot += z
            cell.add(e)
        size[cell.name] = tot
        cells.append(cell)
    return cells, c


def maps(ref):
    """The affine maps of a reference or array."""
    kw = dict(origin=ref.origin, rotation=ref.rotation, magnification=ref.magnification, x_reflection=ref.x_reflection)
    if isinstance(ref, gdspy.CellArray):
        return [geom.a_ref(array=(i * ref.spacing[0], j * ref.spacing[1]), **kw) for i in range(ref.columns) for j in range(ref.rows)]
    return [geom.a_ref(**kw)]


class Expansion(object):
    """Naive recursive expansion; path polygons come from copies of the paths."""

    def __init__(self):
        self.path_cache = {}
        self.box_cache = {}

    def path_polys(self, path):
        k = id(path)
        if k not in self.path_cache:
            # (a translation discards the polygons the path keeps)
            q = copy.deepcopy(path).translate(0, 0).to_polygonset()
            self.path_cache[k] = (
                path,
                [] if q is None else [((l, d), np.array(p, dtype=float)) for p, l, d in zip(q.polygons, q.layers, q.datatypes)],
            )
        return self.path_cache[k][1]

    def own(self, cell):
        out = []
        for ps in cell.polygons:
            for p, l, d in zip(ps.polygons, ps.layers, ps.datatypes):
                out.append(((l, d), np.array(p, dtype=float)))
        for path in cell.paths:
            out += self.path_polys(path)
        return out

    def polys(self, cell, depth=None):
        """[(key, points)]: key is a (layer, datatype) pair or the name of a cell."""
        if depth is not None and depth < 0:
            b = self.box(cell)
            if b is None:
                return []
            return [(cell.name, np.array([b[0], (b[0][0], b[1][1]), b[1], (b[1][0], b[0][1])]))]
        out = self.own(cell)
        for r in cell.references:
            out += self.ref_polys(r, None if depth is None else depth - 1)
        return out

    def ref_polys(self, r, depth=None):
        if not isinstance(r.ref_cell, gdspy.Cell):
            return []
        sub = self.polys(r.ref_cell, depth)
        return [(k, geom.apply(m, p)) for m in maps(r) for k, p in sub]

    def points(self, cell):
        return [p for _, p in self.polys(cell)]

    def box(self, cell):
        k = id(cell)
        if k not in self.box_cache:
            pts = self.points(cell)
            self.box_cache[k] = (cell, geom.bbox(pts) if pts else None)
        return self.box_cache[k][1]

    def elements(self, cell, attr, depth=None):
        """[(map, element)] for every instance of the elements in cell.<attr>."""
        out = [(geom.aff(), e) for e in getattr(cell, attr)]
        if depth is None or depth > 0:
            for r in cell.references:
                out += self.ref_elements(r, attr, None if depth is None else depth - 1)
        return out

    def ref_elements(self, r, attr, depth=None):
        if not isinstance(r.ref_cell, gdspy.Cell):
            return []
        sub = self.elements(r.ref_cell, attr, depth)
        return [(m @ n, e) for m in maps(r) for n, e in sub]

    def cells_below(self, cell, recursive=True):
        out = {}
        for r in cell.references:
            if isinstance(r.ref_cell, gdspy.Cell):
                out[id(r.ref_cell)] = r.ref_cell
                if recursive:
                    out.update(self.cells_below(r.ref_cell))
        return out


def span(pairs):
    """Size of the numbers involved, for tolerances."""
    return max([1e-300] + [float(np.abs(p).max()) for _, p in pairs if len(p)])


def match_polys(got, want, tol):
    """None if the lists of (key, points) agree as multisets, else a message."""
    if len(got) != len(want):
        return "%d polygons, expected %d" % (len(got), len(want))
    if all(a[0] == b[0] and geom.close_polys(a[1], b[1], tol) for a, b in zip(got, want)):
        return None
    left = list(want)
    for k, p in got:
        for i, (k2, q) in enumerate(left):
            if k == k2 and geom.close_polys(p, q, tol):
                del left[i]
                break
        else:
            return "unexpected polygon %s %s" % (k, np.asarray(p).tolist()[:6])
    return None
