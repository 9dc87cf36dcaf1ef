"""C01: what is read back from a file is what was written."""
import io
import math
import os
import pathlib
import tempfile
import warnings

import gdspy
import numpy as np

import gds
import gdscmp
import geom
import libgen
import readback
from props.c02 import write

RULE = (
    "Random libraries (all element types, options, unit pairs, coordinates on, between and off the grid, vertex counts around the record limit) "
    "are written, read back by name, path, file or buffer with every units option, and compared with what was asked for; native paths are compared, as regions, with "
    "the same paths saved as polygons. Non-trivial: the library has elements; distinct by the multiset of element kinds and options."
)
ASSUMPTIONS = ["Coordinates fit in 32 bit database units.", "Texts and names are printable ASCII.", "Corners of native paths are natural or circular bends (others are documented as unsupported)."]
REQUIRED = ["element", "array", "layout-native", "layout-file", "rewritten", "units", "linked"]
CPU_LIMIT = 90


def cases(tier):
    k = 1 if tier == "quick" else 25
    return [("library", 450 * k), ("native", 150 * k), ("arrays", 100 * k), ("big", 24 * k), ("layout", 160 * k)]


def read(rng, data, lib, **kw):
    t = rng.randrange(5)
    if t == 0:
        b = io.BytesIO(data)
        r = lib.read_gds(b, **kw)
        assert not b.closed
        return r
    fd, name = tempfile.mkstemp(".gds", dir=".")
    os.close(fd)
    try:
        with open(name, "wb") as f:
            f.write(data)
        if t == 1:
            return lib.read_gds(name, **kw)
        if t == 2:
            return lib.read_gds(pathlib.Path(name), **kw)
        if t == 3:
            with open(name, "rb") as f:
                return lib.read_gds(f, **kw)
        return gdspy.GdsLibrary(lib.name, infile=name, unit=lib.unit, precision=lib.precision, **kw)
    finally:
        os.unlink(name)


def differs(e, d, c):
    if e["kind"] == "aref" == d["kind"]:
        # corners are on the grid: every step is right up to that, divided by their number
        e2, d2 = dict(e, kind="sref"), dict(d, kind="sref")
        r = gdscmp.differs(e2, dict(d2, colrow=d["colrow"]), c)
        if r:
            return r
        for k in range(2):
            w = d["spacing"][k] * c.mult
            if not abs(e["spacing"][k] - w) * d["colrow"][k] <= 1.5 + 1e-9 * (abs(w) * d["colrow"][k] + np.abs(d["xy"]).max() * c.mult):
                return "spacing %r, wanted %r" % (e["spacing"], [s * c.mult for s in d["spacing"]])
        return None
    return gdscmp.differs(e, d, c)


def compare(m, got, docs, c, where):
    m.seen("element", len(got))
    m.seen("array", sum(e["kind"] == "aref" for e in got))
    rest = list(got)
    if len(rest) == len(docs) and all(differs(e, d, c) is None for e, d in zip(rest, docs)):
        return
    for d in docs:
        for i, e in enumerate(rest):
            if differs(e, d, c) is None:
                del rest[i]
                break
        else:
            same = [e for e in rest if e["kind"] == d["kind"]][:3]
            m.violate("element", "%s: %s not read back: %s" % (where, gdscmp.brief(d), "; ".join("%s: %s" % (gdscmp.brief(e), differs(e, d, c)) for e in same)))
            return
    if rest:
        m.violate("element", "%s: unexpected %s" % (where, gdscmp.brief(rest[0])))


def run_case(kind, index, rng, m):
    if kind == "layout":
        return layout(rng, m)
    kinds = {"native": ["flex", "robust"], "arrays": ["ref", "polygon"]}.get(kind)
    big = rng.choice(["polygon", "path"]) if kind == "big" else None
    lib, c, docs = libgen.library(rng, ncells=1 if kind == "big" else (rng.choice([2, 4]) if kind == "arrays" else None), kinds=kinds, big=big)
    ts = libgen.timestamp(rng)
    data = write(rng, lib, timestamp=ts)
    units = rng.choice(["skip", "import", "convert"])
    f = 1.0
    if units == "skip":
        lib2 = gdspy.GdsLibrary("x", unit=c.unit, precision=c.precision)
        kw = {"units": units} if rng.random() < 0.5 else {}
    elif units == "import":
        lib2 = gdspy.GdsLibrary("x", unit=1e-3, precision=1e-5)
        kw = {"units": units}
    else:
        u = rng.choice([1e-6, 1e-9, 1e-3, c.unit, 2.5e-6])
        lib2 = gdspy.GdsLibrary("x", unit=u, precision=rng.choice([1e-9, 1e-10]))
        f = c.unit / u
        kw = {"units": units}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        lib2 = read(rng, data, lib2, **kw)
    # (a name that is not a cell of the file may well be warned about)
    lost = [str(w.message) for w in ws if "not found" in str(w.message) and any(n in str(w.message).split() for n in docs)]
    m.check(not lost, "references-resolved", "reading the library warns %r" % lost[:1])
    m.ctx(units=units, unit=c.unit, precision=c.precision)
    m.check(lib2.name == lib.name, "library-name", "%r, wanted %r" % (lib2.name, lib.name))
    if units == "import":
        m.check(abs(lib2.unit / c.unit - 1) < 1e-14 and abs(lib2.precision / c.precision - 1) < 1e-14, "units", "%r %r for %r %r" % (lib2.unit, lib2.precision, c.unit, c.precision))
    m.check(sorted(lib2.cells) == sorted(docs) and all(n == x.name for n, x in lib2.cells.items()), "cells", "%r, wanted %r" % (sorted(lib2.cells), sorted(docs)))
    kinds = []
    for n in docs:
        if n not in lib2.cells:
            continue
        try:
            got = readback.elements(lib2.cells[n], lib2, c.mult / f)
            m.seen("linked")
        except readback.Bad as e:
            m.violate("element", "cell %s: %s" % (n, e))
            continue
        compare(m, got, docs[n], c, "cell " + n)
        kinds += [e["kind"] for e in got]
    if kinds:
        m.state(kind, sorted(kinds), c.grid, c.snap, units)
    m.count("elements", len(kinds))
    # a second generation: what was read, written again
    if units != "convert":
        again = io.BytesIO()
        lib2.write_gds(again, timestamp=ts)
        try:
            a, b = gds.parse(data), gds.parse(again.getvalue())
            same_parse(m, a, b)
        except gds.Malformed as e:
            m.violate("rewritten", str(e))
    m.sample({"units": units, "cells": len(docs), "elements": sorted(set(kinds))})


def same_parse(m, a, b):
    ca, cb = {x["name"]: x for x in a["cells"]}, {x["name"]: x for x in b["cells"]}
    for n in ca:
        ea, eb = ca[n]["elements"], cb.get(n, {"elements": []})["elements"]
        if not m.check(len(ea) == len(eb), "rewritten", "cell %s: %d elements, wanted %d" % (n, len(eb), len(ea))):
            continue
        for x, y in zip(*[sorted(e, key=lambda x: x["kind"]) for e in (ea, eb)]):
            x, y = dict(x), dict(y)
            slack = 1 if x["kind"] == "aref" else 0
            del x["xyrecords"], y["xyrecords"]
            px, py = np.array(x.pop("xy")), np.array(y.pop("xy"))
            if x["kind"] == "path":  # repeated points mean nothing in a path
                px, py = [p[np.append(True, np.any(p[1:] != p[:-1], 1))] for p in (px, py)]
            for e in (x, y):
                if not e.get("strans") and e.get("angle", 0) == 0 and e.get("mag", 1) == 1:
                    for k in ("strans", "angle", "mag"):
                        e.pop(k, None)
            m.check(x == y and px.shape == py.shape and np.abs(px - py).max() <= slack, "rewritten",
                    "cell %s: %s became %s" % (n, gdscmp.brief(dict(x, xy=px.tolist())), gdscmp.brief(dict(y, xy=py.tolist()))))


def layout(rng, m):
    """Native against polygonal paths, and memory against file, as regions."""
    lib, c, docs = libgen.library(rng, ncells=1, units=rng.choice([(1e-6, 1e-9), (1e-6, 5e-9), (1e-9, 1e-12), (1e-3, 1e-6)]), kinds=["flex", "robust"], scales=(20.0, 500.0))
    (name, doc), = docs.items()
    cell = lib.cells[name]
    if not doc:
        libgen_cell = libgen.fill(rng, c, cell, [], ["flex"])
        doc = libgen_cell
    if not doc:
        m.skip("empty")
        return
    poly = gdspy.GdsLibrary("poly", unit=c.unit, precision=c.precision)
    other = cell.copy(name, deep_copy=True)
    poly.add(other)
    for p in other.paths:
        p.gdsii_path = False
    views = {}
    for k, l in (("native", lib), ("polygons", poly)):
        b = io.BytesIO()
        l.write_gds(b)
        b.seek(0)
        r = gdspy.GdsLibrary("r", unit=c.unit, precision=c.precision).read_gds(b)
        views[k] = r.cells[name]
    m.check(len(views["native"].paths) == len(doc) and not views["native"].polygons, "layout-kind", "%s for %d native paths" % (views["native"], len(doc)))
    m.check(not views["polygons"].paths and views["polygons"].polygons, "layout-kind", "%s for polygonal paths" % views["polygons"])
    margin = 3 * c.grid + 5 * 0.002 * c.s + 3e-3
    if any(d["ends"] == "round" for d in doc):
        margin += 0.025
    ref = cell.get_polygons(by_spec=True)
    m.state("layout", [(type(p).__name__, str(p.ends[0])[:1], p.n, len(docs)) for p in cell.paths], c.s, c.grid)
    for k, clause in (("native", "layout-native"), ("polygons", "layout-file")):
        got = views[k].get_polygons(by_spec=True)
        if not m.check(set(got) == set(ref), clause, "layers %r, wanted %r" % (sorted(got), sorted(ref))):
            continue
        for spec in ref:
            both = list(ref[spec]) + list(got[spec])
            p = geom.sample_points(rng, both, margin, 200)
            bad = geom.contains(ref[spec], p) != geom.contains(got[spec], p)
            m.seen(clause, len(p))
            if bad.any():
                m.violate(clause, "the region of %r differs at %r (margin %g)" % (spec, p[bad][0].tolist(), margin), paths=[str(x) for x in cell.paths], ends=[str(d["ends"]) for d in doc])
