"""C13: bounding boxes follow the content through any history."""
import copy
import math

import gdspy
import numpy as np

import gen
import geom
import hier
import libgen

RULE = (
    "Random histories over a hierarchy of cells in a library: elements are added, removed, transformed, edited in place, references are "
    "redirected, cells replaced, flattened and copied, with queries in between (which fill any cache). After every change the boxes of "
    "cells, references, arrays and polygon sets are compared with those of a recursive expansion made from scratch. Non-trivial: the box "
    "of the judged object changed since it was last seen; distinct by operation, kind of object and number of steps since the last query."
)
ASSUMPTIONS = ["Public in-place edits only (attributes of paths that they document as internal are not changed directly)."]
REQUIRED = ["cell-box", "reference-box", "set-box", "changed-box", "no-geometry"]
KINDS = ["poly", "poly", "poly", "flex", "flex", "robust", "label", "ref", "ref", "ref"]


def cases(tier):
    k = 3 if tier == "quick" else 60
    return [("history", 220 * k), ("static", 160 * k)]


def judge(m, got, want, tol, clause, what):
    if want is None:
        m.seen("no-geometry")
        return m.check(got is None, clause, "%s is %s for no geometry" % (what, got))
    if got is None:
        return m.check(False, clause, "%s is None, expected %s" % (what, [list(want[0]), list(want[1])]))
    g = np.asarray(got, dtype=float)
    return m.check(g.shape == (2, 2) and np.abs(g - np.array(want)).max() <= tol, clause,
                   "%s is %s, expected %s" % (what, g.tolist(), [list(want[0]), list(want[1])]))


def box_of(polys):
    pts = [p for _, p in polys if len(p)]
    return geom.bbox(pts) if pts else None


class History(object):
    def __init__(self, rng, m):
        self.rng, self.m = rng, m
        self.cells, self.c = hier.hierarchy(rng, n=rng.choice([2, 3, 4, 5]), kinds=KINDS, limit=150)
        self.lib = gdspy.GdsLibrary("L")
        self.lib.add(self.cells)
        self.last = {}
        self.trace = []
        self.since = 0

    def rank(self, cell):
        return self.cells.index(cell)

    def pick(self, attr):
        """(cell, element) at random."""
        l = [(c, e) for c in self.cells for e in getattr(c, attr)]
        return self.rng.choice(l) if l else None

    def vec(self):
        return (self.rng.uniform(-1, 1) * self.c.s, self.rng.uniform(-1, 1) * self.c.s)

    def small(self, cell):
        n = sum(len(self.ex().polys(c)) for c in self.cells)
        return n < 1200

    def ex(self):
        return hier.Expansion()

    # -- operations: each returns the name of what it did, or None
    def op_add(self):
        c = self.rng.choice(self.cells)
        below = self.cells[: self.rank(c)]
        els = [hier.element(self.rng, self.c, below[-3:], KINDS) for _ in range(self.rng.choice([1, 1, 2]))]
        if not self.small(c):
            els = [e for e in els if not hasattr(e, "ref_cell")]
        els = [e for e in els if e is not None]
        if not els:
            return None
        if len(els) == 1 and self.rng.random() < 0.6:
            c.add(els[0])
        else:
            c.add(els)
        return "add " + " ".join(type(e).__name__ for e in els)

    def move(self, e, path=False):
        r = self.rng
        k = r.choice(["translate", "rotate", "scale", "mirror"] if not path else ["translate", "rotate", "scale", "transform"])
        if k == "translate":
            e.translate(*self.vec())
        elif k == "rotate":
            e.rotate(r.uniform(-3, 3), self.vec())
        elif k == "scale":
            e.scale(r.uniform(0.5, 1.4), center=self.vec())
        elif k == "transform":
            e.transform(np.array(self.vec()), r.uniform(-3, 3), r.uniform(0.6, 1.3), r.random() < 0.5)
        else:
            e.mirror(self.vec(), self.vec())
        return k

    def op_polyset(self):
        p = self.pick("polygons")
        if p is None:
            return None
        e = p[1]
        k = self.rng.randrange(6)
        if k <= 2:
            return "PolygonSet." + self.move(e)
        i = self.rng.randrange(len(e.polygons))
        if k == 3:
            e.polygons[i] = np.array(e.polygons[i]) + np.array(self.vec())
            return "polygons[i] ="
        if k == 4:
            if getattr(e.polygons[i], "flags", None) is not None and e.polygons[i].flags.writeable and e.polygons[i].dtype.kind == "f":
                e.polygons[i][0] += np.array(self.vec()) * 0.2
                return "polygons[i][0] +="
            return None
        if len(e.polygons) > 1:
            del e.polygons[i], e.layers[i], e.datatypes[i]
            return "del polygons[i]"
        return None

    def op_path(self):
        p = self.pick("paths")
        if p is None:
            return None
        e = p[1]
        if self.rng.random() < 0.3 and isinstance(e, gdspy.FlexPath):
            d = e.points[-1] - e.points[-2]
            e.segment(tuple(d / np.hypot(*d) * 0.3 * self.c.s), relative=True)
            return "FlexPath.segment"
        return type(e).__name__ + "." + self.move(e, True)

    def op_ref(self):
        p = self.pick("references")
        if p is None:
            return None
        c, e = p
        r = self.rng
        k = r.choice(["origin", "translate", "rotation", "magnification", "x_reflection", "target", "array"])
        if k == "origin":
            e.origin = self.vec()
        elif k == "translate":
            e.translate(*self.vec())
        elif k == "rotation":
            e.rotation = r.choice([None, 0, 90, 45.0, 123.4, -90, 180])
        elif k == "magnification":
            e.magnification = r.choice([None, 0.5, 1.7])
        elif k == "x_reflection":
            e.x_reflection = not e.x_reflection
        elif k == "target":
            t = r.choice(self.cells[: self.rank(c)] + ["Gone"])
            old = e.ref_cell
            e.ref_cell = t
            if not self.small(c):
                e.ref_cell = old
                return None
        else:
            if not isinstance(e, gdspy.CellArray):
                return None
            if r.random() < 0.5:
                e.spacing = (0.3 * r.random() * self.c.s, -0.3 * r.random() * self.c.s)
            else:
                old = e.columns, e.rows
                e.columns, e.rows = r.choice([(1, 1), (2, 2), (3, 1)])
                if not self.small(c):
                    e.columns, e.rows = old
                    return None
        return "reference " + k

    def op_remove(self):
        c = self.rng.choice(self.cells)
        r = self.rng
        k = r.choice(["remove_polygons", "remove_paths", "remove_labels", "polygons.pop", "paths.clear", "references.pop", "elements"])
        if k == "remove_polygons":
            l = r.choice([0, 1, 2, 3])
            if r.random() < 0.5:
                c.remove_polygons(lambda pts, layer, dt: layer == l)
            else:
                x = r.uniform(-1, 1) * self.c.s
                c.remove_polygons(lambda pts, layer, dt: np.asarray(pts)[:, 0].mean() > x)
        elif k == "remove_paths":
            c.remove_paths(lambda p: r.random() < 0.5)
        elif k == "remove_labels":
            c.remove_labels(lambda p: r.random() < 0.5)
        elif k == "polygons.pop" and c.polygons:
            c.polygons.pop(r.randrange(len(c.polygons)))
        elif k == "paths.clear":
            c.paths.clear()
        elif k == "references.pop" and c.references:
            c.references.pop(r.randrange(len(c.references)))
        elif k == "elements":
            c.polygons, c.paths, c.references = [], [], []
        return k

    def op_flatten(self):
        c = self.rng.choice(self.cells)
        if any(isinstance(e, gdspy.RobustPath) for _, e in self.ex().elements(c, "paths")):
            return None
        c.flatten()
        return "flatten"

    def op_library(self):
        r = self.rng
        k = r.choice(["remove", "replace", "rename", "add-overwrite"])
        c = r.choice(self.cells)
        if k == "remove":
            if len(self.cells) < 3:
                return None
            self.lib.remove(c)
            self.cells.remove(c)
            for x in self.cells:
                for ref in x.references:
                    if ref.ref_cell is c:
                        self.m.violate("harness", "reference to removed cell")
        elif k == "replace":
            i = self.rank(c)
            n = gdspy.Cell(c.name, exclude_from_current=True)
            if r.random() < 0.8:
                n.add(hier.polyset(r, self.c))
            self.lib.add(n, overwrite_duplicate=True)
            self.cells[i] = n
        elif k == "rename":
            self.lib.rename_cell(c, gen.name(r, [x.name for x in self.cells]))
        else:
            i = self.rank(c)
            n = c.copy("tmp", deep_copy=True)
            n.name = c.name
            self.lib.add(n, include_dependencies=False, overwrite_duplicate=True)
            self.cells[i] = n
        return "library " + k

    def op_copy(self):
        c = self.rng.choice(self.cells)
        if not self.small(c) or len(self.cells) > 7:
            return None
        kw = {}
        if self.rng.random() < 0.5 and not c.paths:
            kw = dict(translation=self.vec(), rotation=self.rng.uniform(-3, 3), x_reflection=self.rng.random() < 0.5)
        n = c.copy(gen.name(self.rng, [x.name for x in self.cells]), deep_copy=True, **kw)
        self.lib.add(n, include_dependencies=False)
        self.cells.insert(self.rank(c) + 1, n)
        return "copy"

    def op_query(self):
        c = self.rng.choice(self.cells)
        k = self.rng.choice(["bbox", "polygons", "area", "depth", "refbox"])
        if k == "bbox":
            c.get_bounding_box()
        elif k == "polygons":
            c.get_polygons()
        elif k == "area":
            c.area()
        elif k == "depth":
            c.get_polygons(depth=self.rng.choice([-1, 0, 1]))
        elif c.references:
            self.rng.choice(c.references).get_bounding_box()
        return "query " + k

    OPS = ["op_add"] * 3 + ["op_polyset"] * 4 + ["op_path"] * 3 + ["op_ref"] * 4 + ["op_remove"] * 2 + ["op_flatten", "op_library", "op_library", "op_copy"] + ["op_query"] * 4

    def step(self):
        name = getattr(self, self.rng.choice(self.OPS))()
        if name is None:
            return
        self.trace.append(name)
        self.since += 1
        self.m.ctx(trace=self.trace[-14:])

    def look(self, what=None):
        m, r = self.m, self.rng
        ex = self.ex()
        # (in any order: what one question finds out must not be needed by, nor spoil, the next)
        todo = []
        for c in r.sample(self.cells, min(len(self.cells), r.choice([1, 1, 2, 9]))):
            todo.append((self.look_cell, c))
            todo += [(self.look_ref, e) for e in r.sample(c.references, min(2, len(c.references)))]
            todo += [(self.look_set, e) for e in c.polygons[:2]]
        r.shuffle(todo)
        if r.random() < 0.3:
            todo = [t for t in todo if t[0] != self.look_cell] or todo
        for f, x in todo:
            f(ex, x)
        self.since = 0

    def look_cell(self, ex, c):
        m = self.m
        polys = ex.polys(c)
        want = box_of(polys)
        tol = 1e-8 * max(hier.span(polys), self.c.s)
        judge(m, c.get_bounding_box(), want, tol, "cell-box", "box of the cell after %s" % self.trace[-3:])
        key = None if want is None else (tuple(want[0].round(9)), tuple(want[1].round(9)))
        if id(c) in self.last and self.last[id(c)][1] != key:
            m.seen("changed-box")
        m.state(self.trace[-1] if self.trace else "", min(self.since, 4), id(c) in self.last and self.last[id(c)][1] != key, want is None, len(c.references) > 0)
        self.last[id(c)] = (c, key)

    def look_ref(self, ex, e):
        rp = ex.ref_polys(e)
        judge(self.m, e.get_bounding_box(), box_of(rp), 1e-8 * max(hier.span(rp), self.c.s), "reference-box", "box of the reference after %s" % self.trace[-3:])

    def look_set(self, ex, e):
        sp = [(0, np.array(p, dtype=float)) for p in e.polygons]
        judge(self.m, e.get_bounding_box(), box_of(sp), 0 if not sp else 1e-12 * hier.span(sp), "set-box", "box of the set")


def run_case(kind, index, rng, m):
    h = History(rng, m)
    if kind == "static":
        ex = h.ex()
        for c in h.cells:
            h.look()
        b = h.cells[-1].get_bounding_box()
        if b is not None:  # the box handed out is the caller's
            b0 = b.copy()
            b += 17.0
            m.check(np.array_equal(h.cells[-1].get_bounding_box(), b0), "own-copy", "changing a box changes the next answer")
        m.check(gdspy.PolygonSet([]).get_bounding_box() is None, "set-box", "empty set")
        return
    h.look()
    for _ in range(rng.choice([4, 10, 25])):
        h.step()
        if rng.random() < 0.5:
            h.look()
    h.look()
    m.count("operations", len(h.trace))
    m.sample(h.trace)
