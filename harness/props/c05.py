"""C05: incremental writing, binary cells and units."""
import io
import os
import pathlib
import tempfile

import gdspy

import gds
import gdscmp
import libgen
import readback
import streams
from props.c01 import compare
from props.c02 import write

RULE = (
    "Random libraries are written at once and cell by cell (with the streaming writer, to every kind of destination) and the bytes compared; cells taken in binary form "
    "from files written by gdspy and by other (generated) programs are compared byte by byte with the source, mixed with other cells in new files, and these are parsed and read. "
    "Distinct by kind, number and size of cells."
)
ASSUMPTIONS = ["Coordinates fit in 32 bit database units."]
REQUIRED = ["same-bytes", "binary-cell", "spliced", "units", "read-spliced"]
CPU_LIMIT = 60


def cases(tier):
    k = 1 if tier == "quick" else 30
    return [("writer", 250 * k), ("binary", 250 * k), ("foreign", 200 * k), ("units", 100 * k)]


class Out(object):
    """One of the destinations the writers accept."""

    def __init__(self, rng):
        self.t = rng.randrange(4)
        if self.t == 0:
            self.target = io.BytesIO()
            return
        fd, self.name = tempfile.mkstemp(".gds", dir=".")
        os.close(fd)
        self.target = {1: self.name, 2: pathlib.Path(self.name)}.get(self.t)
        if self.t == 3:
            self.target = open(self.name, "wb")

    def data(self):
        if self.t == 0:
            return self.target.getvalue()
        if self.t == 3:
            self.target.close()
        with open(self.name, "rb") as f:
            d = f.read()
        os.unlink(self.name)
        return d


def source(rng, data):
    """The bytes as something the readers accept, and a clean-up."""
    t = rng.randrange(4)
    if t == 0:
        return io.BytesIO(data), lambda: None
    fd, name = tempfile.mkstemp(".gds", dir=".")
    os.write(fd, data)
    os.close(fd)
    if t == 3:
        f = open(name, "rb")
        return f, lambda: (f.close(), os.unlink(name))
    return (name if t == 1 else pathlib.Path(name)), lambda: os.unlink(name)


def binary_cells(rng, data):
    s, done = source(rng, data)
    try:
        return gdspy.get_binary_cells(s)
    finally:
        done()


def units_of(rng, data):
    s, done = source(rng, data)
    try:
        return gdspy.get_gds_units(s)
    finally:
        done()


def slices(data):
    """{cell name: its bytes}, [header bytes], trailer."""
    out, start, name, head = {}, None, None, None
    for t, dt, p, pos in gds.records(data):
        if t == gds.BGNSTR:
            start = pos
            if head is None:
                head = data[:pos]
        elif t == gds.STRNAME:
            name = p.rstrip(b"\0").decode("ascii")
        elif t == gds.ENDSTR:
            out[name] = data[start : pos + 4]
        elif t == gds.ENDLIB and head is None:
            head = data[:pos]
    return out, head


def strip(data):
    """Without the padding after ENDLIB."""
    pos = 0
    while True:
        size, t = int.from_bytes(data[pos : pos + 2], "big"), data[pos + 2]
        pos += size
        if t == gds.ENDLIB:
            return data[:pos]


def run_case(kind, index, rng, m):
    if kind == "foreign":
        return foreign(rng, m)
    lib, c, docs = libgen.library(rng, ncells=rng.choice([1, 2, 3, 5]))
    ts = libgen.timestamp(rng)
    whole = write(rng, lib, timestamp=ts)
    if kind == "units":
        u, p = units_of(rng, whole)
        m.check(abs(u / c.unit - 1) < 1e-14 and abs(p / c.precision - 1) < 1e-14, "units", "%r %r for %r %r" % (u, p, c.unit, c.precision))
        m.state("units", c.unit, c.precision)
        return
    m.state(kind, len(docs), sorted({d["kind"] for ds in docs.values() for d in ds}))
    m.sample({"cells": len(docs), "bytes": len(whole)})
    order = list(lib.cells)
    if kind == "writer":
        out = Out(rng)
        w = gdspy.GdsWriter(out.target, lib.name, unit=lib.unit, precision=lib.precision, timestamp=ts)
        mode = rng.choice(["objects", "objects", "binary", "mixed"])
        binary = binary_cells(rng, whole)
        for n in order:
            if mode == "objects" or (mode == "mixed" and rng.random() < 0.5):
                r = w.write_cell(lib.cells[n], timestamp=ts)
            else:
                r = w.write_binary_cells([binary[n]])
            m.check(r is w, "chain", "the writer is not returned")
        w.close()
        if out.t == 0:
            m.check(not out.target.closed, "left-open", "the buffer given was closed")
        m.check(out.data() == whole, "same-bytes", "the streaming writer gives other bytes (%s)" % mode, mode=mode)
        # without a timestamp, all but the time stamps is still the same
        out = Out(rng)
        w = gdspy.GdsWriter(out.target, lib.name, unit=lib.unit, precision=lib.precision)
        for n in order:
            w.write_cell(lib.cells[n])
        w.close()
        p, q = gds.parse(out.data()), gds.parse(whole)
        for x in [p, q] + p["cells"] + q["cells"]:
            x.pop("bgnlib", None)
            x.pop("bgnstr", None)
        m.check(p == q, "same-bytes", "the streaming writer gives other contents")
        return
    # binary cells of a file and of memory
    want, head = slices(whole)
    got = binary_cells(rng, whole)
    m.check(set(got) == set(want), "binary-cell", "cells %r, wanted %r" % (sorted(got), sorted(want)))
    for n in want:
        m.check(got.get(n) == want[n], "binary-cell", "cell %r differs from its bytes in the file" % n)
        b = io.BytesIO()
        lib.cells[n].to_gds(b, c.unit / c.precision, timestamp=ts)
        m.check(b.getvalue() == want[n], "converted", "cell %r converted differs from the file" % n)
    # half of the cells as objects, the others in binary, in another library
    pick = [n for n in order if rng.random() < 0.5]
    rest = [n for n in order if n not in pick]
    other = gdspy.GdsLibrary("other", unit=lib.unit, precision=lib.precision)
    for n in pick:
        other.add(lib.cells[n], include_dependencies=False)
    bins = [got[n] for n in rest if n in got]
    if rng.random() < 0.5:
        bins = tuple(bins)
    elif rng.random() < 0.5:
        bins = iter(bins)
    data = write(rng, other, timestamp=ts, binary_cells=bins) if pick or rng.random() < 0.5 else write(rng, lib, cells=[], timestamp=ts, binary_cells=bins)
    try:
        p = gds.parse(data)
    except gds.Malformed as e:
        m.violate("spliced", str(e))
        return
    after, head = slices(data)
    m.check([x["name"] for x in p["cells"]] == pick + rest, "spliced", "cells %r, wanted %r" % ([x["name"] for x in p["cells"]], pick + rest))
    for n in rest:
        m.check(after.get(n) == want[n], "spliced", "cell %r changed" % n)
    r = gdspy.GdsLibrary("r", unit=lib.unit, precision=lib.precision).read_gds(io.BytesIO(data))
    m.check(set(r.cells) == set(docs), "read-spliced", "cells %r, wanted %r" % (sorted(r.cells), sorted(docs)))
    for n in docs:
        if n in r.cells:
            try:
                compare(m, readback.elements(r.cells[n], r, c.mult), docs[n], c, "cell " + n)
                m.seen("read-spliced")
            except readback.Bad as e:
                m.violate("read-spliced", "cell %s: %s" % (n, e))


def foreign(rng, m):
    """Files of other programs: cells are moved without being interpreted."""
    data, lib, docs = streams.stream(rng)
    want, head = slices(strip(data))
    got = binary_cells(rng, data)
    m.check(set(got) == set(want) and all(got[n] == want[n] for n in want), "binary-cell", "cells taken from the file differ from their bytes in it")
    u, p = units_of(rng, data)
    dbu, dbm = lib["units"]
    m.check(abs(u / (dbm / dbu) - 1) < 1e-14 and abs(p / dbm - 1) < 1e-14, "units", "%r %r for %r" % (u, p, lib["units"]))
    new = gdspy.GdsLibrary("new", unit=dbm / dbu, precision=dbm)
    c = gdspy.Cell("OWN_CELL", exclude_from_current=True)
    c.add(gdspy.Rectangle((0, 0), (1, 1)))
    new.add(c)
    order = list(want)
    rng.shuffle(order)
    out = write(rng, new, binary_cells=[got[n] for n in order if n in got])
    after, head = slices(out)
    m.check(list(after) == ["OWN_CELL"] + order and all(after[n] == want[n] for n in order), "spliced", "cells %r" % list(after))
    r = gdspy.GdsLibrary("r").read_gds(io.BytesIO(out))
    m.check(set(r.cells) == set(want) | {"OWN_CELL"}, "read-spliced", "cells %r" % sorted(r.cells))
    m.state("foreign", len(docs), len(data) // 500)
