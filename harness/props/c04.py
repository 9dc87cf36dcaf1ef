"""C04: legal streams from any writer, and the import options."""
import copy
import io

import gdspy

import gdscmp
import libgen
import readback
import streams
from props.c01 import differs, read

RULE = (
    "Legal GDSII streams that gdspy itself does not write (optional records present or absent in every combination, split XY records, boxes, nodes, flags, header records, "
    "block padding, any order of cells, unlinked references, extreme coordinates) are generated with a description, read with every combination of import options, and "
    "every element found in memory is compared with the description. Non-trivial: the file has elements; distinct by options and multiset of elements."
)
ASSUMPTIONS = ["The steps of arrays are along their (transformed) axes, the only arrays gdspy can hold.", "Real numbers are within the precision of a double."]
REQUIRED = ["element", "cells", "linked", "units", "maps", "duplicate"]
CPU_LIMIT = 60


def cases(tier):
    k = 1 if tier == "quick" else 40
    return [("plain", 400 * k), ("options", 500 * k), ("twice", 80 * k), ("duplicate", 40 * k)]


class Grid(object):
    mult = 1.0
    grid = 1.0
    s = 1.0


def mapping(rng, docs, key):
    vals = sorted({d[key] for ds in docs.values() for d in ds if key in d})
    out = {}
    for v in vals:
        if rng.random() < 0.5:
            out[v] = rng.choice([0, 1, 2, 77, 255, 1001])
    out[12345] = 3
    return out


def run_case(kind, index, rng, m):
    data, lib, docs = streams.stream(rng)
    if kind == "duplicate":
        return duplicate(rng, m, lib)
    kw = {}
    units = rng.choice(["skip", "import", "convert", None])
    if units is not None:
        kw["units"] = units
    u0, p0 = rng.choice([(1e-6, 1e-9), (1e-3, 1e-9), (1e-9, 1e-10), (1e-6, 5e-9)])
    into = gdspy.GdsLibrary("x", unit=u0, precision=p0)
    dbu, dbm = lib["units"]
    factor = dbm / u0 if units == "convert" else dbu
    template = "{name}"
    rename, layers, datatypes, texttypes = {}, {}, {}, {}
    if kind == "options":
        if rng.random() < 0.5:
            names = [n for n in docs if rng.random() < 0.5] + ["NOT_HERE1", "NOBODY"]
            rename = {n: "R_%d$" % i for i, n in enumerate(names)}
            kw["rename"] = rename
        if rng.random() < 0.5:
            template = rng.choice(["pre-{name}", "{name}_post", "<{name}>"])
            kw["rename_template"] = template
        if rng.random() < 0.6:
            kw["layers"] = layers = mapping(rng, docs, "layer")
        if rng.random() < 0.6:
            kw["datatypes"] = datatypes = mapping(rng, docs, "datatype")
        if rng.random() < 0.6:
            kw["texttypes"] = texttypes = mapping(rng, docs, "texttype")

    def new(n):
        return rename[n] if n in rename else template.format(name=n)

    want = {}
    for n, ds in docs.items():
        out = []
        for d in ds:
            d = dict(d)
            if "layer" in d:
                d["layer"] = layers.get(d["layer"], d["layer"])
            if "datatype" in d:
                d["datatype"] = datatypes.get(d["datatype"], d["datatype"])
            if "texttype" in d:
                d["texttype"] = texttypes.get(d["texttype"], d["texttype"])
            if "sname" in d:
                d["sname"] = new(d["sname"])
            out.append(d)
        want[new(n)] = out
    before = copy.deepcopy(kw)
    here = None
    if kind == "twice":
        # a reference may find its cell in what the library already has
        here = gdspy.Cell("NOT_HERE2", exclude_from_current=True)
        into.add(here)
    r = read(rng, data, into, **kw)
    m.ctx(options=kw, lib_units=lib["units"], into=(u0, p0))
    m.check(before == kw, "options-untouched", "options changed to %r" % kw)
    m.check(r.name == lib["name"], "library-name", "%r, wanted %r" % (r.name, lib["name"]))
    if units == "import":
        m.check(abs(r.unit / (dbm / dbu) - 1) < 1e-14 and abs(r.precision / dbm - 1) < 1e-14, "units", "%r %r" % (r.unit, r.precision))
    elif r is into:
        m.check((r.unit, r.precision) == (u0, p0), "units", "%r %r, should stay %r" % (r.unit, r.precision, (u0, p0)))
    names = set(want) | ({"NOT_HERE2"} if here is not None and r is into else set())
    m.check(set(r.cells) == names and all(x.name == n for n, x in r.cells.items()), "cells", "%r, wanted %r" % (sorted(r.cells), sorted(names)))
    kinds = []
    for n, ds in want.items():
        if n not in r.cells:
            continue
        c = r.cells[n]
        try:
            got = readback.elements(c, r, 1.0 / factor)
            m.seen("linked", len(c.references))
        except readback.Bad as e:
            m.violate("element", "cell %s: %s" % (n, e))
            continue
        kinds += [e["kind"] for e in got]
        # gdspy keeps the order within polygons, paths, labels and references
        group = {"boundary": 0, "path": 1, "text": 2, "sref": 3, "aref": 3}
        ds = sorted(ds, key=lambda d: group[d["kind"]])
        if not m.check(len(got) == len(ds), "element", "cell %s: %d elements, wanted %d" % (n, len(got), len(ds))):
            continue
        for e, d in zip(got, ds):
            w = differs(e, d, Grid)
            m.check(w is None, "element", "cell %s: %s read as %s: %s" % (n, gdscmp.brief(d), gdscmp.brief(e), w))
        if layers or datatypes or texttypes or rename:
            m.seen("maps", len(ds))
    if kinds:
        m.state(sorted(set(kinds)), units, bool(rename), template, bool(layers), bool(datatypes), bool(texttypes), lib["units"])
    m.count("elements", len(kinds))
    m.sample({"units": units, "cells": len(docs), "kinds": sorted(set(kinds)), "options": sorted(kw)})


def duplicate(rng, m, lib):
    """Two cells of one name, in the file or after renaming, are refused."""
    import gds

    if len(lib["cells"]) < 2:
        m.skip("too few cells")
        return
    a, b = rng.sample(lib["cells"], 2)
    kw = {}
    if rng.random() < 0.5:
        kw["rename"] = {a["name"]: b["name"]}
    else:
        a["name"] = b["name"]
    try:
        gdspy.GdsLibrary("x").read_gds(io.BytesIO(gds.library_bytes(lib)), **kw)
        m.violate("duplicate", "two cells named %r were read" % b["name"])
    except ValueError:
        m.seen("duplicate")
    m.state("duplicate", sorted(kw))
