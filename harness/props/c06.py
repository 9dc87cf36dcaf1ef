"""C06: what GDSII hashes and timestamps depend on."""
import datetime
import hashlib
import io
import os
import pathlib
import tempfile

import gdspy

import gds
import libgen
import streams
from props.c02 import write

RULE = (
    "Files written by gdspy and by other (generated) programs are changed in one respect: timestamps, order of the cells, header, or one record of one cell "
    "(a bit of a payload, a record removed or repeated, an element moved, a cell removed or renamed); the hashes of the two files are compared. Timestamps are replaced and the files compared "
    "byte by byte. Distinct by kind of change, record changed and number of cells."
)
ASSUMPTIONS = ["sha1 and the other engines used have no collisions on the files generated."]
REQUIRED = ["hash-ignores-time", "hash-ignores-order", "hash-sees-content", "hash-engine", "timestamp-bytes", "timestamp-elsewhere"]


def cases(tier):
    k = 1 if tier == "quick" else 30
    return [("hash", 500 * k), ("stamp", 300 * k), ("write", 100 * k)]


class File(object):
    def __init__(self, rng, data):
        fd, name = tempfile.mkstemp(".gds", dir=".")
        os.write(fd, data)
        os.close(fd)
        self.name = name
        self.arg = name if rng.random() < 0.5 else pathlib.Path(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        os.unlink(self.name)

    def data(self):
        with open(self.name, "rb") as f:
            return f.read()


def digest(rng, data, engine=None):
    with File(rng, data) as f:
        h = gdspy.gdsii_hash(f.arg) if engine is None else gdspy.gdsii_hash(f.arg, engine=engine)
        assert f.data() == data
        return h


def source(rng):
    if rng.random() < 0.5:
        data, lib, docs = streams.stream(rng, ncells=rng.choice([1, 2, 3, 5]), pad=False)
        return data
    lib, c, docs = libgen.library(rng, ncells=rng.choice([1, 2, 3, 5]))
    return write(rng, lib, timestamp=libgen.timestamp(rng))


def pieces(data):
    """(header bytes, [cell bytes], trailer bytes)."""
    cells, start, head, end = [], None, None, None
    for t, dt, p, pos in gds.records(data):
        if t == gds.BGNSTR:
            start = pos
            if head is None:
                head = data[:pos]
        elif t == gds.ENDSTR:
            cells.append(data[start : pos + 4])
        elif t == gds.ENDLIB:
            end = pos
    return (data[:end] if head is None else head), cells, data[end:]


def restamp(rng, b):
    """Other time stamps in a cell or header."""
    for t, dt, p, pos in loose(b):
        if t in (gds.BGNLIB, gds.BGNSTR):
            b = b[: pos + 4] + bytes(rng.getrandbits(8) for _ in range(24)) + b[pos + 28 :]
    return b


def loose(b):
    out, pos = [], 0
    while pos < len(b):
        size = int.from_bytes(b[pos : pos + 2], "big")
        out.append((b[pos + 2], b[pos + 3], b[pos + 4 : pos + size], pos))
        pos += size
    return out


def run_case(kind, index, rng, m):
    if kind == "stamp":
        return stamp(rng, m)
    if kind == "write":
        return written(rng, m)
    data = source(rng)
    head, cells, tail = pieces(data)
    h = digest(rng, data)
    m.check(isinstance(h, str) and len(h) == 40 and int(h, 16) >= 0, "hash-form", "%r" % (h,))
    m.check(digest(rng, data) == h, "hash-repeats", "the hash of the same file changes")
    other = restamp(rng, head) + b"".join(restamp(rng, c) for c in cells) + tail
    m.check(digest(rng, other) == h, "hash-ignores-time", "the hash depends on the timestamps")
    perm = list(cells)
    rng.shuffle(perm)
    m.check(digest(rng, head + b"".join(perm) + tail) == h, "hash-ignores-order", "the hash depends on the order of the cells")
    both = restamp(rng, head) + b"".join(restamp(rng, c) for c in perm) + tail + bytes(rng.choice([0, 2, 4, 2048]))
    m.check(digest(rng, both) == h, "hash-ignores-order", "the hash depends on the order of the cells, timestamps or padding")
    # engines: the same contents go in
    name = rng.choice(["md5", "sha256", "sha1", "blake2b"])
    e = digest(rng, data, hashlib.new(name))
    m.check(len(e) == 2 * hashlib.new(name).digest_size, "hash-engine", "%s gives %r" % (name, e))
    m.check(e == digest(rng, both, hashlib.new(name)), "hash-engine", "%s depends on the order or timestamps" % name)
    if name == "sha1":
        m.check(e == h, "hash-engine", "sha1 is not the default")
    # one change in the contents of one cell
    for _ in range(6):
        k = rng.randrange(len(cells))
        recs = loose(cells[k])
        what = rng.choice(["bit", "bit", "bit", "drop-cell", "drop-record", "repeat-record", "rename"])
        b = cells[k]
        new = list(cells)
        if what == "bit":
            usable = [(t, p, pos) for t, dt, p, pos in recs if p and t != gds.BGNSTR]
            t, p, pos = rng.choice(usable)
            at = pos + 4 + rng.randrange(len(p))
            new[k] = b[:at] + bytes([b[at] ^ (1 << rng.randrange(7))]) + b[at + 1 :]
            what = "bit of %02x" % t
        elif what == "drop-cell":
            del new[k]
        elif what in ("drop-record", "repeat-record"):
            inner = [r for r in recs if r[0] not in (gds.BGNSTR, gds.ENDSTR, gds.STRNAME)]
            if not inner:
                m.skip("no record to change")
                continue
            t, dt, p, pos = rng.choice(inner)
            r = b[pos : pos + 4 + len(p)]
            new[k] = b[:pos] + (b"" if what == "drop-record" else r + r) + b[pos + len(r) :]
            what += " %02x" % t
        else:
            t, dt, p, pos = [r for r in recs if r[0] == gds.STRNAME][0]
            new[k] = b[:pos] + gds.rec(gds.STRNAME, p.rstrip(b"\0").decode("ascii") + "x") + b[pos + 4 + len(p) :]
        hh = digest(rng, head + b"".join(new) + tail)
        m.check(hh != h, "hash-sees-content", "a change (%s) in cell %d of %d does not change the hash" % (what, k, len(cells)), change=what)
        m.state(what, len(cells))
    m.sample({"cells": len(cells), "bytes": len(data)})


def stamp(rng, m):
    data = source(rng)
    pad = bytes(rng.choice([0, 0, 2, 4, 100, -len(data) % 2048]))
    data += pad
    t = datetime.datetime(rng.choice([1, 99, 1900, 1970, 2024, 9999]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999999))
    with File(rng, data) as f:
        gdspy.set_gdsii_timestamp(f.arg, t)
        out = f.data()
    want, places = bytearray(data), 0
    s = b"".join(v.to_bytes(2, "big") for v in (t.year, t.month, t.day, t.hour, t.minute, t.second)) * 2
    for r in loose(data[: len(data) - len(pad)]):
        if r[0] in (gds.BGNLIB, gds.BGNSTR):
            want[r[3] + 4 : r[3] + 28] = s
            places += 1
    m.check(len(out) == len(data), "timestamp-elsewhere", "the size changed from %d to %d" % (len(data), len(out)))
    bad = [i for i in range(min(len(out), len(data))) if out[i] != want[i]]
    inside = set()
    for r in loose(data[: len(data) - len(pad)]):
        if r[0] in (gds.BGNLIB, gds.BGNSTR):
            inside.update(range(r[3] + 4, r[3] + 28))
    m.seen("timestamp-bytes", places)
    m.seen("timestamp-elsewhere")
    for i in bad[:1]:
        m.violate("timestamp-bytes" if i in inside else "timestamp-elsewhere", "byte %d is %02x, wanted %02x (was %02x); %d bytes differ" % (i, out[i], want[i], data[i], len(bad)))
    m.state("stamp", places, len(pad) % 4, len(data) // 1000)


def written(rng, m):
    """The hash of a library does not depend on when or in which order it is
    written, and changes with its contents."""
    lib, c, docs = libgen.library(rng, ncells=rng.choice([1, 2, 4]))
    a = write(rng, lib, timestamp=libgen.timestamp(rng))
    h = digest(rng, a)
    names = list(lib.cells)
    rng.shuffle(names)
    m.check(digest(rng, write(rng, lib, cells=names, timestamp=libgen.timestamp(rng))) == h, "hash-ignores-order", "the hash of a library depends on how it is written")
    cell = lib.cells[rng.choice(names)]
    cell.add(gdspy.Label("x", (0, 0)) if rng.random() < 0.5 else gdspy.Rectangle((0, 0), (c.s, c.s)))
    m.check(digest(rng, write(rng, lib, timestamp=libgen.timestamp(rng))) != h, "hash-sees-content", "an element added does not change the hash")
    m.state("written", len(names), len(a) // 1000)
