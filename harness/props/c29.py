"""C29: files, handles and faults of input and output."""
import builtins
import io
import os
import pathlib
import tempfile

import gdspy

import gds
import libgen
import snap
import streams

RULE = (
    "Libraries are written and read through destinations that fail after a chosen number of bytes, files cut at every kind of place, streams that have nothing but read() or write(), "
    "handles opened somewhere in the middle of a container, names, pathlib paths and other path-like objects, while every file opened during the call is recorded. Judged are the exception seen by the "
    "caller, the bytes that reached the destination before it, the library afterwards, the result of trying again, the handles left open or closed, and what is found in the part of a file that is left. "
    "Distinct by operation, kind of destination or source and the record at which the fault happens."
)
ASSUMPTIONS = [
    "After a failed call only the operands, the files and a second attempt are judged, not whether files opened by the call are closed at once.",
    "A file that ends too early may be refused with an exception or read as far as it goes.",
]
REQUIRED = ["write-fault-raised", "write-fault-prefix", "write-fault-library", "write-retry", "read-fault-raised", "read-retry", "cut-cells", "cut-binary-cells", "handle-open", "file-closed", "minimal-stream", "container"]
CPU_LIMIT = 60


def cases(tier):
    k = 1 if tier == "quick" else 40
    return [("write", 160 * k), ("read", 140 * k), ("cut", 160 * k), ("handles", 160 * k)]


class Fault(OSError):
    pass


class Sink(object):
    """A destination with nothing but write(), that fails after some bytes."""

    def __init__(self, room=None):
        self.data, self.room = bytearray(), room

    def write(self, b):
        b = bytes(b)
        if self.room is not None and len(self.data) + len(b) > self.room:
            self.data += b[: self.room - len(self.data)]
            raise Fault(28, "No space left on device")
        self.data += b
        return len(b)


class TextSink(object):
    def __init__(self, room=None):
        self.data, self.room = "", room

    def write(self, b):
        if not isinstance(b, str):
            raise TypeError("bytes written to a text file")
        if self.room is not None and len(self.data) + len(b) > self.room:
            self.data += b[: self.room - len(self.data)]
            raise Fault(28, "No space left on device")
        self.data += b
        return len(b)


class Source(object):
    """A stream with nothing but read(), that fails after some bytes."""

    def __init__(self, data, room=None):
        self.data, self.pos, self.room = data, 0, room

    def read(self, n=-1):
        e = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        if self.room is not None and e > self.room:
            raise Fault(5, "Input/output error")
        b = self.data[self.pos : e]
        self.pos = e
        return b


class PathLike(object):
    def __init__(self, name):
        self.name = name

    def __fspath__(self):
        return self.name


class Opened(object):
    """Records every file opened while it is active (and keeps it alive)."""

    def __enter__(self):
        self.files = []
        self.saved = builtins.open, io.open, os.open
        real = builtins.open

        def watched(*a, **k):
            f = real(*a, **k)
            self.files.append(f)
            return f

        builtins.open = io.open = watched
        self.fds = len(os.listdir("/proc/self/fd"))
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.saved[:2]

    def leaked(self):
        return [f.name for f in self.files if not f.closed]


def make_lib(rng):
    lib, c, docs = libgen.library(rng, ncells=rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.5:
        # elements that write nothing or next to nothing
        for cell in lib.cells.values():
            for _ in range(rng.choice([0, 1, 2])):
                e = rng.choice([gdspy.PolygonSet([]), gdspy.Path(c.s), gdspy.Label("", (0, 0)), gdspy.Polygon([(0, 0)] * 3), gdspy.Rectangle((0, 0), (0, 0))])
                e.properties = libgen.props(rng)
                k = rng.randrange(len(cell.polygons) + 1)
                cell.add(e)
                if isinstance(e, gdspy.PolygonSet):
                    cell.polygons.insert(k, cell.polygons.pop())
    return lib, libgen.timestamp(rng)


WRITERS = ["write_gds", "GdsWriter", "to_gds", "binary"]


def writer(rng, lib, ts, how=None, binary=None):
    """A function that writes the library to a destination."""
    how = how or rng.choice(WRITERS)
    if how == "write_gds":
        return how, lambda f: lib.write_gds(f, timestamp=ts)
    if how == "GdsWriter":

        def go(f):
            w = gdspy.GdsWriter(f, name=lib.name, unit=lib.unit, precision=lib.precision, timestamp=ts)
            for c in lib.cells.values():
                w.write_cell(c, ts)
            w.close()

        return how, go
    if how == "to_gds":

        def go(f):
            for c in lib.cells.values():
                c.to_gds(f, lib.unit / lib.precision, ts)

        return how, go
    return how, lambda f: lib.write_gds(f, cells=list(lib.cells)[:1], timestamp=ts, binary_cells=iter(binary))


def where(data, k):
    """Type of the record in which byte number k is."""
    pos = 0
    while pos + 4 <= len(data):
        size = int.from_bytes(data[pos : pos + 2], "big")
        if size < 4:
            break
        if k < pos + size:
            return data[pos + 2]
        pos += size
    return None


def write_case(rng, m):
    if rng.random() < 0.2:
        return svg_case(rng, m)
    lib, ts = make_lib(rng)
    binary = [bytes(rng.randrange(256) for _ in range(rng.choice([4, 30, 200]))) for _ in range(rng.choice([1, 3]))]
    how, go = writer(rng, lib, ts, binary=binary)
    good = Sink()
    go(good)
    good = bytes(good.data)
    if how in ("write_gds", "binary"):
        f = io.BytesIO()
        writer(rng, lib, ts, how, binary)[1](f)
        m.check(f.getvalue() == good, "minimal-stream", "%s: a stream that has only write() gets %d bytes, a BytesIO %d" % (how, len(good), len(f.getvalue())))
    before = snap.snap(lib)
    for _ in range(rng.choice([1, 3, 6])):
        k = rng.choice([0, len(good) - 1, max(0, len(good) - 4), rng.randrange(len(good)), rng.randrange(len(good))])
        m.ctx(how=how, fault_at=k, of=len(good), record=where(good, k))
        bad = Sink(k)
        try:
            go(bad)
            m.check(False, "write-fault-raised", "%s: the destination refused byte %d of %d and the caller did not notice" % (how, k, len(good)))
        except Fault:
            m.seen("write-fault-raised")
        m.check(bytes(bad.data) == good[:k], "write-fault-prefix", "%s: what was written before the fault is not the start of the file" % how)
        d = snap.differs(before, snap.snap(lib))
        m.check(d is None, "write-fault-library", "%s: a fault of the destination changed the library: %s" % (how, d))
        again = Sink()
        go(again)
        m.check(bytes(again.data) == good, "write-retry", "%s: after a fault at byte %d the library is written differently" % (how, k))
        m.state("write", how, where(good, k))


def svg_case(rng, m):
    lib, ts = make_lib(rng)
    cells = [c for c in lib.cells.values() if c.get_bounding_box() is not None]
    if not cells:
        m.skip("nothing to draw")
        return
    cell = rng.choice(cells)
    good = TextSink()
    cell.write_svg(good)
    before = snap.snap(lib)
    n = len(good.data)
    for _ in range(3):
        k = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])
        bad = TextSink(k)
        try:
            cell.write_svg(bad)
            m.check(False, "write-fault-raised", "write_svg: the destination refused character %d of %d and the caller did not notice" % (k, n))
        except Fault:
            m.seen("write-fault-raised")
        m.check(bad.data[:40] == good.data[: min(k, 40)], "write-fault-prefix", "write_svg: start of the file")
        d = snap.differs(before, snap.snap(lib))
        m.check(d is None, "write-fault-library", "write_svg: a fault of the destination changed the library: %s" % d)
        again = TextSink()
        cell.write_svg(again)
        m.check(sorted(again.data) == sorted(good.data), "write-retry", "write_svg: after a fault the cell is drawn differently")
        m.state("svg", k * 8 // n)


def some_file(rng):
    """Bytes of a GDSII file, written here or by another program."""
    if rng.random() < 0.4:
        return streams.stream(rng, ncells=rng.choice([1, 2, 4]), pad=False)[0]
    lib, ts = make_lib(rng)
    f = io.BytesIO()
    lib.write_gds(f, timestamp=ts)
    return f.getvalue()


def content(lib):
    out = [lib.name, lib.unit, lib.precision]
    for n, c in lib.cells.items():
        out.append([n, c.name] + [[strip_ref(snap.snap(e)) for e in l] for l in (c.polygons, c.paths, c.labels, c.references)])
    return out


def strip_ref(s):
    """Targets by name, resolved or not."""
    if isinstance(s, list) and s and s[0] in ("CellReference", "CellArray"):
        t = s[1]
        return [s[0], t if isinstance(t, str) else t[2]] + s[2:]
    return s


def read_case(rng, m):
    data = some_file(rng)
    how = rng.choice(["read_gds", "read_gds", "constructor", "get_binary_cells", "get_gds_units"])

    def call(f):
        if how == "read_gds":
            return content(gdspy.GdsLibrary("x").read_gds(f))
        if how == "constructor":
            return content(gdspy.GdsLibrary("x", infile=f))
        if how == "get_binary_cells":
            return list(gdspy.get_binary_cells(f).items())
        return list(gdspy.get_gds_units(f))

    want = call(io.BytesIO(data))
    d = snap.differs(want, call(Source(data)))
    m.check(d is None, "minimal-stream", "%s of a stream that has only read(): %s" % (how, d))
    need = len(data)
    if how == "get_gds_units":
        for t, dt, p, pos in gds.records(data):
            if t == gds.UNITS:
                need = pos + 4 + len(p)
    for _ in range(rng.choice([1, 3, 6])):
        k = rng.choice([0, need - 1, max(0, need - 4), rng.randrange(need), rng.randrange(need)])
        m.ctx(how=how, fault_at=k, of=len(data), record=where(data, k))
        try:
            call(Source(data, k))
            m.check(False, "read-fault-raised", "%s: the source failed at byte %d of %d and the caller did not notice" % (how, k, len(data)))
        except Fault:
            m.seen("read-fault-raised")
        d = snap.differs(want, call(Source(data)))
        m.check(d is None, "read-retry", "%s: after a fault at byte %d the file is read differently: %s" % (how, k, d))
        m.state("read", how, where(data, k))
    if how == "read_gds":
        # a library that was being filled, read again
        lib = gdspy.GdsLibrary("x")
        k = rng.randrange(need)
        try:
            lib.read_gds(Source(data, k))
        except Fault:
            pass
        for n in list(lib.cells):
            lib.remove(n)
        lib.name = "x"
        lib.read_gds(io.BytesIO(data))
        d = snap.differs(want, content(lib))
        m.check(d is None, "read-retry", "a library emptied after a failed import reads the file differently: %s" % d)
        loose = [r for c in lib.cells.values() for r in c.references if isinstance(r.ref_cell, str) and r.ref_cell in lib.cells]
        m.check(not loose, "read-retry", "references not resolved in a library emptied after a failed import")


def cut_case(rng, m):
    data = some_file(rng)
    full = gdspy.GdsLibrary("x").read_gds(io.BytesIO(data))
    fullc = {row[0]: row for row in content(full)[3:]}
    fullb = gdspy.get_binary_cells(io.BytesIO(data))
    ends, names, name = [], [], None
    for t, dt, p, pos in gds.records(data):
        if t == gds.STRNAME:
            name = p.rstrip(b"\0").decode("ascii")
        if t == gds.ENDSTR:
            ends.append(pos + 4)
            names.append(name)
    for _ in range(6):
        cuts = [rng.randrange(len(data)), len(data) - 4, len(data) - 1] + ends + [e - 1 for e in ends] + [e - 4 for e in ends] + [e + 5 for e in ends]
        k = min(len(data) - 1, rng.choice(cuts))
        done = [n for e, n in zip(ends, names) if e <= k]
        part = data[:k]
        m.ctx(cut=k, of=len(data), record=where(data, k))
        lib = gdspy.GdsLibrary("x")
        refused = False
        try:
            lib.read_gds(io.BytesIO(part))
        except Exception as e:
            refused = True
            m.count("cut files refused (%s)" % type(e).__name__)
        rows = {row[0]: row for row in content(lib)[3:]}
        for n in done:
            if m.check(n in rows, "cut-cells", "cell %r is complete in a file cut at %d and was not read" % (n, k)):
                d = snap.differs(fullc[n], rows[n])
                m.check(d is None, "cut-cells", "cell %r, complete in a file cut at %d: %s" % (n, k, d))
        m.check(len(rows) <= len(done) + 1, "cut-cells", "%d cells read from a file with %d complete ones" % (len(rows), len(done)))
        try:
            b = gdspy.get_binary_cells(io.BytesIO(part))
        except Exception as e:
            m.count("cut files refused (%s)" % type(e).__name__)
            b = None
        if b is not None:
            m.check(b == {n: fullb[n] for n in done}, "cut-binary-cells", "binary cells %s of a file cut at %d, complete are %s" % (sorted(b), k, done))
        m.state("cut", where(data, k), refused, len(done) > 0)


def as_name(rng, name):
    k = rng.choice(["str", "Path", "PathLike"])
    return k, {"str": name, "Path": pathlib.Path(name), "PathLike": PathLike(name)}[k]


def handle_case(rng, m):
    data = some_file(rng)
    lib, ts = make_lib(rng)
    d = tempfile.mkdtemp(dir=".")
    src, dst = os.path.join(d, "in.gds"), os.path.join(d, "out")
    with open(src, "wb") as f:
        f.write(data)
    try:
        for op in rng.sample(["write_gds", "GdsWriter", "write_svg", "read_gds", "constructor", "get_gds_units", "get_binary_cells", "gdsii_hash", "set_gdsii_timestamp"], 5):
            kind, n = as_name(rng, src if op in ("read_gds", "constructor", "get_gds_units", "get_binary_cells", "gdsii_hash", "set_gdsii_timestamp") else dst)
            if kind == "PathLike" and op == "write_svg":
                kind, n = "Path", pathlib.Path(dst)
            calls = dict(
                read_gds=lambda x: gdspy.GdsLibrary("x").read_gds(x),
                constructor=lambda x: gdspy.GdsLibrary("x", infile=x),
                get_gds_units=gdspy.get_gds_units,
                get_binary_cells=gdspy.get_binary_cells,
                gdsii_hash=gdspy.gdsii_hash,
                set_gdsii_timestamp=lambda x: gdspy.set_gdsii_timestamp(x, ts),
                write_gds=lambda x: lib.write_gds(x, timestamp=ts),
                GdsWriter=writer(rng, lib, ts, "GdsWriter")[1],
                write_svg=lambda x: list(lib.cells.values())[0].write_svg(x),
            )
            with Opened() as w:
                calls[op](n)
            left = w.leaked()
            m.check(not left, "file-closed", "%s(%s) leaves %s open" % (op, kind, [os.path.basename(str(x)) for x in left]))
            if not w.files:
                m.skip("no file seen to be opened by %s" % op)
            m.check(sorted(os.listdir(d)) in (["in.gds"], ["in.gds", "out"]), "file-closed", "%s left %s" % (op, sorted(os.listdir(d))))
            if op in ("write_gds", "GdsWriter"):
                f = io.BytesIO()
                calls[op](f)
                got = open(dst, "rb").read()
                m.check(got == f.getvalue(), "file-content", "%s(%s): %d bytes in the file, %d in a stream" % (op, kind, len(got), len(f.getvalue())))
                m.check(not f.closed, "handle-open", "%s closes the stream given" % op)
            if op in ("read_gds", "constructor", "get_gds_units", "get_binary_cells"):
                # a handle somewhere in the middle of a container
                head = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 100])))
                box = os.path.join(d, "box")
                with open(box, "wb") as f:
                    f.write(head + data)
                want = calls[op](io.BytesIO(data))
                with open(box, "rb") as f:
                    f.seek(len(head))
                    with Opened() as w:
                        got = calls[op](f)
                    m.check(not f.closed, "handle-open", "%s closes the file given" % op)
                    m.check(not w.files, "handle-open", "%s opens another file" % op)
                same = snap.differs(content(want), content(got)) if isinstance(want, gdspy.GdsLibrary) else (None if want == got else "differs")
                m.check(same is None, "container", "%s of a handle at byte %d: %s" % (op, len(head), same))
                os.remove(box)
            if op in ("write_gds", "GdsWriter"):
                head = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 100])))
                ref = io.BytesIO()
                calls[op](ref)
                box = os.path.join(d, "box")
                with open(box, "wb") as f:
                    f.write(head)
                    with Opened() as w:
                        calls[op](f)
                    m.check(not f.closed, "handle-open", "%s closes the file given" % op)
                    m.check(not w.files, "handle-open", "%s opens another file" % op)
                    f.write(b"tail")
                got = open(box, "rb").read()
                m.check(got == head + ref.getvalue() + b"tail", "container", "%s writes %d bytes after byte %d of a container instead of %d" % (op, len(got) - len(head) - 4, len(head), len(ref.getvalue())))
                os.remove(box)
            m.state("handles", op, kind)
            if os.path.exists(dst):
                os.remove(dst)
    finally:
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        os.rmdir(d)


def run_case(kind, index, rng, m):
    {"write": write_case, "read": read_case, "cut": cut_case, "handles": handle_case}[kind](rng, m)
