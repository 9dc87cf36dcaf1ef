"""C30: results depend on the operands only."""
import gc
import hashlib
import io
import json
import locale
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import gdspy
import numpy as np

import gen
import hier
import libgen
import pathspec
import snap
from props import c14, c16, c20, c27, c29

RULE = (
    "Small random programs over the whole interface (shapes and their transformations, curves, flexible and robust paths, polygon operations, hierarchies and the queries on them, libraries written, read, hashed and "
    "drawn, registries) make their own objects and record every result. Each program is run again after all objects and results of the earlier runs were overwritten, or deleted so that addresses are used again; after other programs; at the same time as other "
    "programs in several threads that are switched as often as possible; and in a new process with another hash seed and the programs in another order. The recorded results must be the same. "
    "The state of the interpreter (warning filters, error modes and print options of numpy, random generators, locale, directory, environment, signal handlers, limits) and the public names of the module are compared around the programs. "
    "Distinct by program, kind of repetition and shape of the results."
)
ASSUMPTIONS = [
    "Threads do not share objects.",
    "The order of cells in sets and what follows from it (the order of definitions in an SVG file) are not part of a result.",
]
VARIANTS = ["plain"]
REQUIRED = ["after-overwriting", "after-deleting", "after-others", "threads", "new-process", "interpreter-state", "public-names"]
CPU_LIMIT = 120
HARNESS = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = ["world", "shapes", "curve", "flex", "robust", "library", "file", "registry", "operations", "defaults", "imports", "imports", "paths"]


def cases(tier):
    k = 1 if tier == "quick" else 25
    return [("history", 130 * k), ("threads", 70 * k), ("process", 24 * k)]


# -- results

def clean(x):
    """Results without addresses."""
    if isinstance(x, (tuple, list)):
        if len(x) == 3 and x[0] == "id":
            return x[2]
        return [clean(v) for v in x]
    if isinstance(x, bytes):
        return hashlib.sha1(x).hexdigest() + ":%d" % len(x)
    return x


def canon(o):
    if isinstance(o, gdspy.GdsLibrary):
        return c29.content(o)
    if isinstance(o, str) and "<svg" in o[:400]:
        return sorted(o.split("\n"))
    if isinstance(o, str) and " object at 0x" in o:
        return o.split(" at 0x")[0]
    return clean(c27.canon(o))


class Record(object):
    def __init__(self):
        self.out, self.live = [], []

    def __call__(self, name, f):
        try:
            r = f()
        except Exception as e:  # the same error is expected in the other runs
            r = "%s: %s" % (type(e).__name__, str(e)[:80])
        self.out.append([name, canon(r)])
        self.live.append(r)
        return r


# -- programs

def p_world(rng, R):
    pool, cells, c = c27.world(rng)
    R.live.append(pool)
    for _ in range(10):
        if rng.random() < 0.3:
            name, args, f = c27.operation(rng, pool, c)
        else:
            o = rng.choice(pool)
            if isinstance(o, np.ndarray):
                continue
            name, f = rng.choice(c27.questions(rng, o, c))
            if isinstance(o, gdspy.GdsLibrary) and name == "top_level":
                g = f
                f = lambda: sorted(x.name for x in g())
        R(name, f)


def p_shapes(rng, R):
    c = hier.C(rng.choice([1.0, 30.0]))
    for _ in range(3):
        o, k = c16.shape(rng, c)
        R.live.append(o)
        R(k, lambda: o)
        for _ in range(rng.choice([0, 1, 3])):
            c16.step(rng, o, c)
        if rng.random() < 0.4:
            o.fracture(rng.choice([5, 20]), 1e-4 * c.s)
        elif rng.random() < 0.4 and k not in ("text",):
            o.fillet(0.01 * c.s, points_per_2pi=rng.choice([8, 32]))
        R(k + " changed", lambda: o)
        R("text", lambda: str(o))
        R("box", lambda: o.get_bounding_box())


def p_curve(rng, R):
    s = rng.choice([1.0, 100.0])
    cv = gdspy.Curve(0, 0, tolerance=0.01 * s)
    p = np.zeros(2)
    last = (None, None)
    for _ in range(rng.choice([2, 5])):
        name, args, kw, secs, last, n = c20.command(rng, s, p, last)
        if secs:
            getattr(cv, name)(*args, **kw)
            p = np.array(cv.points[-1], dtype=float)
    pts = [(rng.uniform(-s, s), rng.uniform(-s, s)) for _ in range(rng.choice([1, 2, 4]))]
    kw = dict(cycle=rng.random() < 0.4 and len(pts) > 1)
    if rng.random() < 0.5:
        kw["angles"] = [rng.choice([None, rng.uniform(-3, 3)]) for _ in range(len(pts) + 1)]
        kw["t_in"] = rng.choice([1, 1.5])
    R("interpolation", lambda: cv.I(pts, **kw))
    R.live += [cv, pts, kw]
    R("points", lambda: cv.get_points())


def p_path(rng, R, make):
    d = make(rng, rng.choice([1.0, 50.0]))
    p = R("path", lambda: pathspec.build(d))
    R.live.append(d)
    for name in rng.sample(["get_polygons", "spec", "set", "gds", "area", "svg", "again"], 4):
        R(name, {
            "get_polygons": lambda: p.get_polygons(), "spec": lambda: p.get_polygons(True), "set": lambda: p.to_polygonset(), "gds": lambda: c27.data(lambda f: p.to_gds(f, 1000.0 / d["s"])),
            "area": lambda: p.area(), "svg": lambda: c27.text(lambda f: p.to_svg(f, 1.0, 4)), "again": lambda: p.translate(d["s"], 0).rotate(0.3),
        }[name])


def p_flex(rng, R):
    p_path(rng, R, pathspec.flex)


def p_robust(rng, R):
    p_path(rng, R, pathspec.robust)


def p_library(rng, R):
    lib, c, docs = libgen.library(rng, ncells=rng.choice([1, 2, 3]))
    R.live += [lib]
    data = R("bytes", lambda: c27.data(lambda f: lib.write_gds(f, timestamp=c27.NOW)))
    R("read", lambda: gdspy.GdsLibrary("r").read_gds(io.BytesIO(data)))
    R("binary", lambda: sorted(gdspy.get_binary_cells(io.BytesIO(data)).items()))
    R("units", lambda: gdspy.get_gds_units(io.BytesIO(data)))
    cell = rng.choice(list(lib.cells.values()))
    R("svg", lambda: c27.text(lambda f: cell.write_svg(f)))
    R("flat", lambda: cell.copy("flat", deep_copy=True).flatten())


def p_file(rng, R):
    lib, c, docs = libgen.library(rng, ncells=rng.choice([1, 2]))
    R.live += [lib]
    fd, name = tempfile.mkstemp(".gds", dir=".")
    os.close(fd)
    try:
        R("write", lambda: lib.write_gds(name, timestamp=c27.NOW))
        R("hash", lambda: gdspy.gdsii_hash(name))
        R("stamp", lambda: gdspy.set_gdsii_timestamp(name, c27.NOW))
        R("read", lambda: gdspy.GdsLibrary(infile=name, units=rng.choice(["skip", "import", "convert"])))
        with open(name, "rb") as f:
            data = f.read()
        R("bytes", lambda: data)
    finally:
        os.unlink(name)


def p_imports(rng, R):
    """Files with few names, imported with all kinds of options."""
    lib = gdspy.GdsLibrary(rng.choice(["L", "M"]), unit=rng.choice([1e-6, 1e-6, 1e-3]), precision=rng.choice([1e-9, 5e-9]))
    cells = [gdspy.Cell(n, True) for n in rng.sample("ABCD", 3)]
    for i, x in enumerate(cells):
        x.add(gdspy.Rectangle((0, 0), (rng.randrange(1, 9), 5), rng.choice([1, 2]), rng.choice([0, 3])))
        x.add(gdspy.Label(rng.choice(["a", "b"]), (rng.randrange(9), 0), layer=rng.choice([1, 2]), texttype=rng.choice([0, 3])))
        x.add(gdspy.FlexPath([(0, 0), (rng.randrange(1, 9), 0)], 1, gdsii_path=True, layer=rng.choice([1, 2])))
        for y in cells[:i]:
            x.add(rng.choice([lambda: gdspy.CellReference(y, (1, 2)), lambda: gdspy.CellArray(y, 2, 3, (4, 5))])())
        lib.add(x, include_dependencies=False)
    name = "again-%d.gds" % threading.get_ident()
    data = R("bytes", lambda: c27.data(lambda f: lib.write_gds(f, timestamp=c27.NOW)))
    R.live.append(lib)
    for _ in range(5):
        kw = {"units": rng.choice(["skip", "import", "convert"])}
        if rng.random() < 0.6:
            kw["rename_template"] = rng.choice(["X_{name}", "{name}_Y", "{name}"])
        if rng.random() < 0.4:
            kw["rename"] = {n: n + rng.choice(["1", "2"]) for n in rng.sample("ABCD", 2)}
        for k in ("layers", "datatypes", "texttypes"):
            if rng.random() < 0.4:
                kw[k] = {rng.choice([0, 1, 2, 3]): rng.choice([7, 8]) for _ in range(2)}
        if rng.random() < 0.5:
            with open(name, "wb") as f:
                f.write(data)
            try:
                R("read a file", lambda: gdspy.GdsLibrary("r").read_gds(name, **kw))
                R("binary", lambda: sorted(gdspy.get_binary_cells(name).items()))
                R("hash", lambda: gdspy.gdsii_hash(name))
                R("units", lambda: gdspy.get_gds_units(name))
            finally:
                os.unlink(name)
        else:
            R("read", lambda: gdspy.GdsLibrary("r", infile=io.BytesIO(data), **kw))
        R.live.append(kw)
    other = gdspy.GdsLibrary("o")
    for n in rng.sample(sorted(lib.cells), 2):
        R("add", lambda: sorted(c29.content(other.add(lib.cells[n], overwrite_duplicate=True, update_references=rng.random() < 0.5))[3:]))
    x = rng.choice(cells)
    R("copy", lambda: x.copy("Z", deep_copy=rng.random() < 0.5, translation=(1, 2), rotation=rng.choice([None, 0.5])))


def p_paths(rng, R):
    """Calls of the drawing methods with and without their options."""
    s = rng.choice([1.0, 10.0])
    p = gdspy.Path(0.1 * s, (0, 0), rng.choice([1, 2]), 0.3 * s)
    R.live.append(p)
    for _ in range(4):
        k = rng.choice(["segment", "arc", "turn", "parametric", "bezier", "smooth"])
        kw = {}
        if rng.random() < 0.4:
            kw = dict(layer=rng.choice([0, 3]), datatype=rng.choice([0, 4]))
        if rng.random() < 0.3:
            kw["final_width"] = 0.05 * s
        R(k, {
            "segment": lambda: p.segment(s, rng.choice(["+x", "-y", 0.3]), **kw), "arc": lambda: p.arc(s, 0, rng.choice([1, 2]), **kw), "turn": lambda: p.turn(s, rng.choice(["l", "r", "ll", 0.4]), **kw),
            "parametric": lambda: p.parametric(lambda u: (s * u, s * u * u), **kw), "bezier": lambda: p.bezier([(s, 0), (s, s)], **kw), "smooth": lambda: p.smooth([(s, 0.1 * s), (2 * s, s)], **kw),
        }[k])
    q = gdspy.FlexPath([(0, 0)], 0.1 * s) if rng.random() < 0.5 else gdspy.RobustPath((0, 0), 0.1 * s)
    R.live.append(q)
    for _ in range(3):
        k = rng.choice(["segment", "arc", "turn", "bezier", "smooth"])
        R(k, {
            "segment": lambda: q.segment((s, 0.1 * s), relative=True), "arc": lambda: q.arc(s, 0, rng.choice([1, 2])), "turn": lambda: q.turn(s, rng.choice(["l", "r", 0.4])) if len(getattr(q, "points", [0, 0])) > 1 else q,
            "bezier": lambda: q.bezier([(s, 0), (s, s)]), "smooth": lambda: q.smooth([(s, 0.1 * s), (2 * s, s)]),
        }[k])


class Quiet(object):
    """Stands in for the monitor of C14: only the operations are wanted here."""

    violations = ()

    def __getattr__(self, name):
        return lambda *a, **k: True


def p_registry(rng, R):
    h = c14.History(rng, Quiet())
    for _ in range(8):
        R("step", lambda: h.step() and None)
        R("registry", lambda: [[n, [getattr(r.ref_cell, "name", r.ref_cell) for r in x.references]] for n, x in sorted(h.lib.cells.items())])
        R("top", lambda: sorted(x.name for x in h.lib.top_level()))
    R.live.append(h.lib)


def p_operations(rng, R):
    s = 10.0
    a = [gen.polygon(rng, s=s) for _ in range(rng.choice([1, 3]))]
    b = [gen.polygon(rng, s=s) for _ in range(rng.choice([1, 2]))]
    R.live += [a, b]
    for op in rng.sample(["or", "and", "xor", "not"], 2):
        R(op, lambda: gdspy.boolean(a, b, op, 1e-3, rng.choice([0, 199])))
    R("offset", lambda: gdspy.offset(a, rng.choice([0.1, -0.1]), rng.choice(["miter", "bevel", "round"])))
    R("slice", lambda: gdspy.slice(a, [0, 0.3 * s], rng.choice([0, 1]), 1e-3))
    R("inside", lambda: gdspy.inside([(rng.uniform(-s, s), rng.uniform(-s, s)) for _ in range(5)], b))


def p_defaults(rng, R):
    """Everything made with as few arguments as possible."""
    s = rng.choice([1, 10])
    make = {
        "Polygon": lambda: gdspy.Polygon([(0, 0), (s, 0), (0, s)]), "Rectangle": lambda: gdspy.Rectangle((0, 0), (s, s)), "Round": lambda: gdspy.Round((0, 0), s), "Text": lambda: gdspy.Text("Ab1", s),
        "Path": lambda: gdspy.Path(0.1 * s).segment(s, "+x").turn(s, "l"), "L1Path": lambda: gdspy.L1Path((0, 0), "+x", 0.1 * s, [s, s], [1]), "PolyPath": lambda: gdspy.PolyPath([(0, 0), (s, 0), (s, s)], 0.1 * s),
        "FlexPath": lambda: gdspy.FlexPath([(0, 0), (s, 0), (s, s)], 0.1 * s), "RobustPath": lambda: gdspy.RobustPath((0, 0), 0.1 * s).segment((s, 0)), "Label": lambda: gdspy.Label("t", (0, s)),
        "CellReference": lambda: gdspy.CellReference(gdspy.Cell("c", True)), "CellArray": lambda: gdspy.CellArray(gdspy.Cell("c", True), 2, 3, (s, s)), "Curve": lambda: gdspy.Curve(0).L(s, s, s, 0).get_points(),
        "GdsLibrary": lambda: gdspy.GdsLibrary(), "Cell": lambda: gdspy.Cell("c", True), "new_cell": lambda: gdspy.GdsLibrary().new_cell("n"), "CellReference-name": lambda: gdspy.CellReference("c", ignore_missing=True),
        "PolygonSet": lambda: gdspy.PolygonSet([[(0, 0), (s, 0), (s, s)]]),
    }
    for k in rng.sample(sorted(make), 6):
        o = R(k, make[k])
        if hasattr(o, "properties"):
            R(k + " properties", lambda: dict(o.properties))
        if isinstance(o, gdspy.Cell):
            o.add(gdspy.Label("x", (1, 2)))
            R("labels", lambda: o.get_labels())
        if isinstance(o, gdspy.GdsLibrary):
            R("cells", lambda: sorted(o.cells))
            o.new_cell("MORE")


def program(name, seed):
    """(results, everything made)."""
    R = Record()
    globals()["p_" + name](random.Random("%s:%s" % (name, seed)), R)
    return R.out, R.live


# -- the interpreter

def interpreter():
    st = np.random.get_state()
    return {
        "warning filters": repr(warnings.filters), "numpy error modes": np.geterr(), "numpy print options": repr(np.get_printoptions()), "random": hash(random.getstate()),
        "numpy random": (hashlib.sha1(st[1].tobytes()).hexdigest(), st[2]), "locale": locale.setlocale(locale.LC_ALL), "directory": os.getcwd(), "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(), "signals": [repr(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)], "collector": gc.isenabled(), "path": list(sys.path),
        "threads": threading.active_count(), "hooks": [repr(sys.excepthook), repr(sys.displayhook), repr(warnings.showwarning), repr(sys.stdout)], "trace": [sys.gettrace(), sys.getprofile()],
    }


def public():
    out = {}
    for n in sorted(vars(gdspy)):
        v = getattr(gdspy, n)
        if n.startswith("_") or type(v).__name__ == "module":
            continue
        if isinstance(v, gdspy.GdsLibrary):
            v = (id(v), sorted(v.cells), v.name, v.unit, v.precision)
        elif callable(v):
            v = id(v)
        out[n] = repr(v)
    out["use_current_library"] = gdspy.library.use_current_library
    return out


def around(m, f, what):
    a, p = interpreter(), public()
    r = f()
    b, q = interpreter(), public()
    bad = [k for k in a if a[k] != b[k]]
    m.check(not bad, "interpreter-state", "%s changed: %s" % (what, ["%s from %s to %s" % (k, str(a[k])[:200], str(b[k])[:200]) for k in bad]))
    bad = [k for k in set(p) | set(q) if p.get(k) != q.get(k)]
    m.check(not bad, "public-names", "%s changed %s" % (what, ["gdspy.%s from %s to %s" % (k, p.get(k), q.get(k)) for k in bad]))
    return r


def overwrite(live, rng):
    for o in live:
        c27.destroy(o, rng, ())
    for o in live:
        if isinstance(getattr(o, "properties", None), dict):
            o.properties[7] = "changed"


def plan(rng, n):
    return [(rng.choice(NAMES), rng.randrange(10 ** 9)) for _ in range(n)]


def size(out):
    return (len(out), min(len(repr(out)) // 2000, 8))


def same(m, want, got, clause, what):
    d = snap.differs(want, got)
    return m.check(d is None, clause, "%s: %s" % (what, d))


def case_history(rng, m):
    progs = plan(rng, 4)
    first = {}
    for k in progs:
        m.ctx(program=k)
        out, live = around(m, lambda: program(*k), "program %s" % k[0])
        first[k] = out
        mode = rng.choice(["over", "delete"])
        if mode == "over":
            overwrite(live, rng)
        else:
            del live
            gc.collect()
        again, live2 = program(*k)
        same(m, out, again, "after-overwriting" if mode == "over" else "after-deleting", "program %s run twice" % k[0])
        m.state(mode, k[0], size(out))
        if rng.random() < 0.5:
            overwrite(live2, rng)
        del live2
    for k in rng.sample(progs, len(progs)):
        m.ctx(program=k)
        out, live = program(*k)
        same(m, first[k], out, "after-others", "program %s after others" % k[0])
        m.state("others", k[0], size(out))
    m.sample({"programs": progs, "results": {k[0]: [r[0] for r in v][:12] for k, v in first.items()}})


def case_threads(rng, m):
    n = rng.choice([2, 3, 4])
    plans = [plan(rng, 3) for _ in range(n)]
    if rng.random() < 0.4:
        plans = [[(plans[0][i][0], rng.randrange(10 ** 9)) for i in range(3)] for _ in range(n)]  # the same kinds in step
    want = [[program(*k)[0] for k in p] for p in plans]
    got = [[] for _ in plans]
    errors = []
    gate = threading.Barrier(n)

    def work(i):
        try:
            np.seterr(all="ignore")
            gate.wait()
            for k in plans[i]:
                got[i].append(program(*k)[0])
        except BaseException as e:  # noqa
            errors.append("%s: %r" % (plans[i], e))

    def all_of_them():
        old = sys.getswitchinterval()
        sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
        try:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)

    m.ctx(programs=plans)
    around(m, all_of_them, "programs in threads")
    m.check(not errors, "threads", "in threads: %s" % errors[:2])
    for i, p in enumerate(plans):
        for j, k in enumerate(p):
            if j < len(got[i]):
                same(m, want[i][j], got[i][j], "threads", "program %s at the same time as %s" % (k[0], [q[j][0] for q in plans]))
        m.state("threads", n, p[0][0], p[1][0], p[2][0])


def child(spec):
    """In the new process: run the programs, print the results."""
    gdspy.library.use_current_library = False
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    out = [[k, clean(program(*k)[0])] for k in spec]
    print(json.dumps(out))


def case_process(rng, m):
    progs = plan(rng, 8)
    spec = rng.sample(progs, len(progs))
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 4000000)))
    code = "import sys, json; sys.path.insert(0, %r); import props.c30 as p; p.child([tuple(k) for k in json.loads(sys.argv[1])])" % HARNESS
    r = subprocess.run([sys.executable, "-c", code, json.dumps(spec)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if not m.check(r.returncode == 0, "new-process", "programs end with status %d in a new process: %s" % (r.returncode, r.stderr[-600:])):
        return
    got = {tuple(k): v for k, v in json.loads(r.stdout)}
    for k in progs:
        m.ctx(program=k)
        want = json.loads(json.dumps(clean(program(*k)[0])))
        same(m, want, got[k], "new-process", "program %s in a new process" % k[0])
        m.state("process", k[0], size(want))


def run_case(kind, index, rng, m):
    globals()["case_" + kind](rng, m)
