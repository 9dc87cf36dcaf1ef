"""C02: the bytes written, judged by an independent strict parser."""
import io
import os
import pathlib
import tempfile
import warnings

import gdspy
import numpy as np

import gds
import gdscmp
import libgen

RULE = (
    "Random libraries (every element type, properties, transformations, unit pairs, on-grid, half-grid and free coordinates, polygons and "
    "paths around the 8190 vertex limit) are written to names, paths, files and buffers, whole or by lists of cells, and the bytes are parsed by a "
    "strict independent parser. Non-trivial: the library has elements; distinct by the multiset of element kinds and options."
)
ASSUMPTIONS = ["Coordinates fit in 32 bit database units.", "Texts and names are printable ASCII."]
REQUIRED = ["well-formed", "element", "long-robust-path"]
CPU_LIMIT = 60


def cases(tier):
    k = 1 if tier == "quick" else 30
    return [("library", 420 * k), ("native", 150 * k), ("big", 24 * k), ("long", 8 + k), ("header", 60 * k), ("cells", 80 * k)]


def write(rng, lib, **kw):
    t = rng.randrange(4)
    if t == 0:
        b = io.BytesIO()
        lib.write_gds(b, **kw)
        assert not b.closed
        return b.getvalue()
    fd, name = tempfile.mkstemp(".gds", dir=".")
    os.close(fd)
    try:
        if t == 1:
            lib.write_gds(name, **kw)
        elif t == 2:
            lib.write_gds(pathlib.Path(name), **kw)
        else:
            with open(name, "wb") as f:
                lib.write_gds(f, **kw)
        with open(name, "rb") as f:
            return f.read()
    finally:
        os.unlink(name)


def parse(m, data):
    try:
        p = gds.parse(data)
        m.seen("well-formed")
        return p
    except gds.Malformed as e:
        m.violate("well-formed", str(e))
        from mon import Stop
        raise Stop()


def judge(m, data, lib, c, docs, names, ts):
    p = parse(m, data)
    m.check(p["name"] == lib.name, "library-name", "%r, wanted %r" % (p["name"], lib.name))
    m.check(abs(p["units"][0] * c.mult - 1) < 1e-14 and abs(p["units"][1] / c.precision - 1) < 1e-14, "units", "%r for %r" % (p["units"], (c.unit, c.precision)))
    if ts is not None:
        m.check(p["bgnlib"] == libgen.stamp(ts), "timestamp", "library %r, wanted %r" % (p["bgnlib"], ts))
        for x in p["cells"]:
            m.check(x["bgnstr"] == libgen.stamp(ts), "timestamp", "cell %r, wanted %r" % (x["bgnstr"], ts))
    m.check(sorted(x["name"] for x in p["cells"]) == sorted(names), "cells", "%r, wanted %r" % ([x["name"] for x in p["cells"]], names))
    for x in p["cells"]:
        if x["name"] in docs:
            r = gdscmp.compare(x["elements"], docs[x["name"]], c)
            m.seen("element", len(x["elements"]))
            if r:
                m.violate("element", "cell %s: %s" % (x["name"], r), unit=c.unit, precision=c.precision)
    return p


def run_case(kind, index, rng, m):
    kinds = {"native": ["flex", "robust"]}.get(kind)
    big = "robust" if kind == "long" else rng.choice(["polygon", "path"]) if kind == "big" else None
    lib, c, docs = libgen.library(rng, ncells=1 if kind in ("big", "header", "long") else None, kinds=kinds, big=big)
    ts = libgen.timestamp(rng) if rng.random() < 0.7 else None
    kw = {"timestamp": ts}
    names = list(docs)
    if kind == "cells":
        pick = [n for n in names if rng.random() < 0.6] or names[:1]
        kw["cells"] = [lib.cells[n] if rng.random() < 0.5 else n for n in pick]
        names = pick
        if rng.random() < 0.4:  # a cell that is not in the library
            x = gdspy.Cell("Foreign_cell", exclude_from_current=True)
            docs[x.name] = libgen.fill(rng, c, x, [])
            kw["cells"].append(x)
            names = names + [x.name]
    data = write(rng, lib, **kw)
    p = judge(m, data, lib, c, docs, names, ts)
    if kind == "long":
        m.seen("long-robust-path")
    els = [e["kind"] for x in p["cells"] for e in x["elements"]]
    m.count("elements", len(els))
    m.count("bytes", len(data))
    if els:
        m.state(kind, sorted(els), c.grid, c.snap)
    # writing again gives the same bytes
    if ts is not None:
        again = write(rng, lib, **kw)
        m.check(again == data, "repeatable", "the second write differs")
    m.sample({"cells": len(p["cells"]), "elements": sorted(set(els)), "unit": c.unit, "precision": c.precision})
