"""C27: queries and operations never change their operands."""
import copy
import datetime
import io
import math
import warnings

import gdspy
import numpy as np

import gen
import hier
import libgen
import operands
import snap

RULE = (
    "A world of objects of every type (polygon sets, paths, labels, references, cells of a hierarchy, a library, curves, and plain arrays, lists and "
    "dictionaries used as arguments) is questioned in random order: every query, conversion, copy, output and geometric operation of the public interface. "
    "A deep fingerprint of the whole world is taken around each call; then everything that was returned is overwritten, the fingerprint must hold again, and the "
    "same question asked again (now, and later after other questions) must get the answer it got at first. Constructors and in-place operations must leave the "
    "sequences they were given alone. Non-trivial: the answer is not empty; distinct by question, type of the operand and shape of the answer."
)
ASSUMPTIONS = [
    "Paths here have no coincident consecutive points (FlexPath drops those from its own points).",
    "Cells found in an answer (dependencies, top level cells, references of a copy) are the cells themselves, as documented, and are not overwritten.",
    "A shallow Cell.copy shares its elements, as documented; only its lists are its own.",
]
VARIANTS = ["plain"]
REQUIRED = ["operands-unchanged", "returned-is-owned", "same-answer", "same-answer-later", "arguments-unchanged", "constructor-arguments", "mutable-defaults"]
NOW = datetime.datetime(2021, 2, 3, 4, 5, 6)


def cases(tier):
    k = 8 if tier == "quick" else 120
    return [("world", 60 * k), ("construct", 150 * k), ("library", 40 * k), ("inplace", 100 * k)]


# -- answers

def canon(o):
    if isinstance(o, (set, frozenset)):
        return ["set"] + sorted(repr(canon(x)) for x in o)
    if isinstance(o, gdspy.Cell):
        return snap.snap(o)
    if isinstance(o, (list, tuple)):
        return [canon(x) for x in o]
    if isinstance(o, dict):
        return ["dict"] + [[repr(k), canon(v)] for k, v in sorted(o.items(), key=lambda kv: repr(kv[0]))]
    if isinstance(o, (gdspy.PolygonSet, gdspy.FlexPath, gdspy.RobustPath, gdspy.Label, gdspy.CellReference, gdspy.CellArray, gdspy.GdsLibrary)):
        return snap.snap(o)
    return snap.val(o)


def destroy(o, rng, mine, depth=0):
    """Overwrite everything in an answer; mine: ids of the cells of the world."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in "fiu":
            o += 17
        return
    if isinstance(o, list):
        for x in o:
            destroy(x, rng, mine, depth + 1)
        o.append("changed")
        del o[: len(o) // 2]
    elif isinstance(o, tuple):
        for x in o:
            destroy(x, rng, mine, depth + 1)
    elif isinstance(o, dict):
        for x in o.values():
            destroy(x, rng, mine, depth + 1)
        o.clear()
        o["changed"] = 1
    elif isinstance(o, set):
        o.clear()
    elif isinstance(o, gdspy.Cell):
        if id(o) not in mine:
            for x in list(o.polygons) + list(o.paths) + list(o.labels) + list(o.references):
                if id(x) not in mine:
                    snap.scramble(x, rng)
            for l in (o.polygons, o.paths, o.labels, o.references):
                del l[:]
            o.name = "changed"
    elif isinstance(o, gdspy.GdsLibrary):
        o.cells.clear()
    elif isinstance(o, (gdspy.PolygonSet, gdspy.FlexPath, gdspy.RobustPath, gdspy.Label, gdspy.CellReference, gdspy.CellArray)):
        if id(o) not in mine:
            snap.scramble(o, rng)


# -- questions

def text(f):
    s = io.StringIO()
    f(s)
    return s.getvalue()


def data(f):
    s = io.BytesIO()
    f(s)
    return s.getvalue()


def questions(rng, o, c):
    """[(name, function of nothing)] for an object."""
    q = [("str", lambda: str(o)), ("repr", lambda: repr(o) if hasattr(type(o), "__repr__") and type(o).__repr__ is not object.__repr__ else None)]
    if isinstance(o, (gdspy.PolygonSet, gdspy.FlexPath, gdspy.RobustPath, gdspy.CellReference, gdspy.CellArray, gdspy.Cell)):
        q += [("area", lambda: o.area()), ("area-by-spec", lambda: o.area(True))]
    if isinstance(o, (gdspy.PolygonSet, gdspy.CellReference, gdspy.CellArray, gdspy.Cell)):
        q += [("get_bounding_box", lambda: o.get_bounding_box())]
    if isinstance(o, (gdspy.PolygonSet, gdspy.FlexPath, gdspy.RobustPath, gdspy.Label, gdspy.CellReference, gdspy.CellArray)):
        mult = rng.choice([1000, 1, 37.5])
        mult = min(mult, 1e8 / max(c.s, 1))
        dx, dy = rng.choice([(0, 0), (1.5, -2)])
        q += [
            ("to_gds", lambda: data(lambda f: o.to_gds(f, mult))), ("to_svg", lambda: text(lambda f: o.to_svg(f, 10, 6))),
            ("gdspy.copy", lambda: gdspy.copy(o, dx, dy)),
        ]
        if not isinstance(o, (gdspy.CellReference, gdspy.CellArray)):
            q.append(("deepcopy", lambda: copy.deepcopy(o)))
    if isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)):
        q += [("get_polygons", lambda: o.get_polygons()), ("get_polygons-by-spec", lambda: o.get_polygons(True)), ("to_polygonset", lambda: o.to_polygonset())]
    if isinstance(o, gdspy.RobustPath):
        u, arm = rng.uniform(0, len(o)), rng.choice([-1, 0, 1])
        q += [("evaluate", lambda: o(u, arm)), ("grad", lambda: o.grad(u, arm, rng.choice("+-"))), ("width", lambda: o.width(u)), ("len", lambda: len(o))]
        q[-3] = ("grad", lambda: o.grad(u, arm, "-"))
    if isinstance(o, (gdspy.CellReference, gdspy.CellArray, gdspy.Cell)):
        depth = rng.choice([None, None, 0, 1, 2])
        key = (hier.lay(rng), hier.lay(rng))
        st = rng.random() < 0.5
        q += [
            ("get_polygons", lambda: o.get_polygons(depth=depth)), ("get_polygons-by-spec", lambda: o.get_polygons(True, depth)), ("get_polygons-spec", lambda: o.get_polygons(key, depth)),
            ("get_polygonsets", lambda: o.get_polygonsets(depth)), ("get_paths", lambda: o.get_paths(depth)), ("get_labels", lambda: o.get_labels(depth, st)),
        ]
    if isinstance(o, gdspy.Cell):
        kw = dict(translation=rng.choice([None, (1, 2)]), rotation=rng.choice([None, 0.5]), scale=rng.choice([None, 2]), x_reflection=rng.random() < 0.3)
        rec = rng.random() < 0.5
        style = {(0, 0): {"fill": "red"}}
        q += [
            ("copy-shallow", lambda: o.copy("X")), ("copy-deep", lambda: o.copy("X", True)), ("copy-transformed", lambda: o.copy("X", **kw)),
            ("get_layers", lambda: o.get_layers()), ("get_datatypes", lambda: o.get_datatypes()), ("get_texttypes", lambda: o.get_texttypes()),
            ("get_svg_classes", lambda: o.get_svg_classes()), ("get_dependencies", lambda: o.get_dependencies(rec)),
            ("to_gds", lambda: data(lambda f: o.to_gds(f, min(1000, 1e8 / c.s), NOW))), ("write_svg", lambda: text(lambda f: o.write_svg(f, 5, style, precision=5))),
            ("iterate", lambda: list(o)),
        ]
    if isinstance(o, gdspy.GdsLibrary):
        some = [x.name for x in o.cells.values()][: rng.choice([1, 2])]
        q += [
            ("write_gds", lambda: data(lambda f: o.write_gds(f, timestamp=NOW))), ("write_gds-cells", lambda: data(lambda f: o.write_gds(f, some, NOW))),
            ("top_level", lambda: set(o.top_level())), ("iterate", lambda: list(o)),
        ]
    if isinstance(o, gdspy.Curve):
        q += [("get_points", lambda: o.get_points())]
    return q


def operation(rng, pool, c):
    """(name, arguments, function of nothing)."""
    geo = [o for o in pool if isinstance(o, (gdspy.PolygonSet, gdspy.FlexPath, gdspy.RobustPath, gdspy.CellReference, gdspy.CellArray))]
    raw = [o for o in pool if isinstance(o, np.ndarray) and o.ndim == 2]
    lists = [[tuple(p) for p in o.tolist()] for o in raw[:1]]

    def operand(empty=True):
        if rng.random() < 0.45:
            return rng.choice(geo)
        if empty and rng.random() < 0.1:
            return rng.choice([None, []])
        return [rng.choice(geo + raw + lists) for _ in range(rng.choice([1, 2, 3]))]

    prec = 1e-4 * c.s
    a = operand(False)
    k = rng.choice(["boolean", "boolean", "offset", "slice", "inside"])
    if k == "boolean":
        b = operand()
        op = rng.choice(["or", "and", "xor", "not"])
        if rng.random() < 0.2:
            b = a
        mp = rng.choice([199, 0, 5])
        return "boolean-" + op, [a, b], lambda: gdspy.boolean(a, b, op, prec, mp, 3, 4)
    if k == "offset":
        j = rng.choice(["miter", "bevel", "round"])
        d = rng.choice([1, -1]) * 0.02 * c.s
        jf = rng.random() < 0.5
        return "offset", [a], lambda: gdspy.offset(a, d, j, 0.01 * c.s if j == "round" else 2, prec, jf, rng.choice([199]), 3, 4)
    if k == "slice":
        pos = [rng.uniform(-0.6, 0.6) * c.s for _ in range(rng.choice([1, 2, 3]))]
        lay, dt = rng.choice([[1], [1, 2], 5]), rng.choice([[1, 2, 3], 7])
        ax = rng.choice([0, 1])
        return "slice", [a, pos, lay, dt], lambda: gdspy.slice(a, pos, ax, prec, lay, dt)
    pts = rng.choice([np.array, list])([c.pt(rng) for _ in range(rng.choice([1, 4]))])
    if rng.random() < 0.4:
        pts = [pts, [c.pt(rng)]]
    sc = rng.choice(["any", "all"])
    return "inside", [a, pts], lambda: gdspy.inside(pts, a, sc, prec)


def world(rng):
    cells, c = hier.hierarchy(rng, n=rng.choice([1, 2, 3]), limit=80)
    lib = gdspy.GdsLibrary("W")
    for x in cells:
        lib.add(x, include_dependencies=False)
    pool = [lib] + list(cells)
    for x in cells:
        pool += x.polygons + x.paths + x.labels + x.references
    pool = pool[:16]
    for _ in range(3):
        pool.append(hier.polyset(rng, c))
    pool += [hier.flexpath(rng, c), hier.robustpath(rng, c), hier.label(rng, c), hier.reference(rng, c, cells[0])]
    pool += [gen.polygon(rng, s=c.s) for _ in range(2)]
    pool.append(gdspy.Curve(0, 0, tolerance=0.01 * c.s).L(c.s, 0).C(c.s, 0.5 * c.s, 0, 0.2 * c.s, 0.1 * c.s, c.s))
    if rng.random() < 0.5:
        pool.append(gdspy.Path(0.05 * c.s, c.pt(rng), rng.choice([1, 2]), 0.1 * c.s).segment(0.4 * c.s, "+x").turn(0.4 * c.s, 1, tolerance=0.01 * c.s))
    return pool, cells, c


def state(pool):
    out = []
    for o in pool:
        if isinstance(o, gdspy.Curve):
            out.append(["Curve", [snap.val(p) for p in o.points], repr(o.last_c), repr(o.last_q), o.tol])
        else:
            out.append(snap.snap(o))
    return out


def same(m, before, pool, clause, what):
    d = snap.differs(before, state(pool))
    return m.check(d is None, clause, "%s: %s" % (what, d))


def shape(a):
    if isinstance(a, (list, tuple, set, dict)):
        return (type(a).__name__, min(len(a), 6))
    return type(a).__name__


def run_case(kind, index, rng, m):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["case_" + kind](rng, m)


def case_world(rng, m):
    pool, cells, c = world(rng)
    mine = {id(o) for o in pool}
    for x in cells:
        mine |= {id(e) for e in x.polygons + x.paths + x.labels + x.references}
    before = state(pool)
    asked = []
    for step in range(14):
        args = []
        if rng.random() < 0.3:
            name, args, f = operation(rng, pool, c)
            o = None
        else:
            o = rng.choice(pool)
            if isinstance(o, np.ndarray):
                continue
            name, f = rng.choice(questions(rng, o, c))
        what = "%s of %s" % (name, type(o).__name__ if o is not None else [type(x).__name__ for x in args])
        m.ctx(step=step, asked=[a[0] for a in asked], question=what)
        given = [snap.snap(x) for x in args], [[id(e) for e in x] if isinstance(x, list) else None for x in args]
        r = f()
        first = canon(r)
        m.state(what if o is not None else name, shape(r))
        if not same(m, before, pool, "operands-unchanged", what):
            return
        now = [snap.snap(x) for x in args], [[id(e) for e in x] if isinstance(x, list) else None for x in args]
        if not m.check(given == now, "arguments-unchanged", "%s changes its arguments: %s" % (what, snap.differs(list(given), list(now)))):
            return
        destroy(r, rng, mine)
        if not same(m, before, pool, "returned-is-owned", "changing the answer to " + what):
            return
        m.check(given == ([snap.snap(x) for x in args], given[1]), "returned-is-owned", "changing the answer to %s changes its arguments" % what)
        r2 = f()
        d = snap.differs(first, canon(r2))
        if not m.check(d is None, "same-answer", "%s asked again: %s" % (what, d)):
            return
        destroy(r2, rng, mine)
        asked.append((what, f, first))
        if asked and rng.random() < 0.5:
            what, f, first = rng.choice(asked)
            d = snap.differs(first, canon(f()))
            if not m.check(d is None, "same-answer-later", "%s asked later: %s" % (what, d)):
                return
    same(m, before, pool, "operands-unchanged", "all questions")


def case_construct(rng, m):
    """What is given to a constructor or method stays, also when the object changes."""
    s = rng.choice([1.0, 40.0])
    c = hier.C(s)
    arr = rng.choice([np.array, list, lambda x: [list(p) for p in x], lambda x: [np.array(p) for p in x]])
    pts = arr([c.pt(rng) for _ in range(4)])
    pt = rng.choice([list, np.array])(c.pt(rng))
    lay = [hier.lay(rng) for _ in range(2)]
    dts = [hier.lay(rng) for _ in range(2)]
    wid = [0.03 * s, 0.05 * s]
    off = [-0.05 * s, 0.06 * s]
    ctr = rng.choice([list, np.array])(c.pt(rng))
    k = rng.choice(["Polygon", "PolygonSet", "Rectangle", "Round", "Text", "Path", "L1Path", "PolyPath", "FlexPath", "RobustPath", "Label", "CellReference", "CellArray", "Curve", "Cell.add", "Library.add", "fillet"])
    box = [pts, pt, lay, dts, wid, off, ctr]
    extra = []
    before = None

    def snapall():
        return [snap.snap(x) for x in box + extra]

    before = snapall()
    tol = dict(tolerance=0.01 * s)
    o = None
    if k == "Polygon":
        o = gdspy.Polygon(pts)
    elif k == "PolygonSet":
        o = gdspy.PolygonSet([pts, pts])
    elif k == "Rectangle":
        o = gdspy.Rectangle(pt, ctr)
    elif k == "Round":
        extra = [[0.3 * s, 0.2 * s], [0.1 * s, 0.05 * s]]
        before = snapall()
        o = gdspy.Round(pt, extra[0], extra[1], tolerance=0.01 * s)
    elif k == "Text":
        o = gdspy.Text("aB8", s, pt)
    elif k == "Path":
        o = gdspy.Path(0.05 * s, pt, 2, 0.2 * s)
        o.segment(s, 0.3, layer=lay, datatype=dts)
        o.bezier(arr([(s, 0), (s, s)]), layer=lay, datatype=dts, **tol)
        o.turn(s, 0.5, layer=lay, datatype=dts, **tol)
    elif k == "L1Path":
        extra = [[1, -1, 1], [s, 2 * s, s, s]]
        before = snapall()
        o = gdspy.L1Path(pt, "+x", 0.05 * s, extra[1], extra[0], 2, 0.2 * s, layer=lay, datatype=dts)
    elif k == "PolyPath":
        o = gdspy.PolyPath(pts, wid, 2, [0.2 * s, 0.3 * s], ends=rng.choice(["flush", "extended", "round"]), layer=lay, datatype=dts)
    elif k == "FlexPath":
        corners = ["miter", "bevel"]
        ends = ["flush", (0.1, 0.2)]
        br = [0.01 * s, None]
        extra = [corners, ends]
        before = snapall()
        o = gdspy.FlexPath(pts, wid, off, corners, ends, layer=lay, datatype=dts, **tol)
        q = arr([(s, 0), (s, s)])
        extra.append(q)
        before = snapall()
        o.segment(rng.choice([pt, (5 * s, 5 * s)]), wid, off)
        o.bezier(q, wid, off)
        if rng.random() < 0.5:
            o.smooth(arr([(2 * s, 1.5 * s), (3 * s, -s)]), width=wid, offset=off)
    elif k == "RobustPath":
        ends = ["flush", (0.1, 0.2)]
        extra = [ends]
        before = snapall()
        o = gdspy.RobustPath(pt, wid, off, ends, layer=lay, datatype=dts, **tol)
        o.segment((5 * s, 5 * s), wid, off)
        q = arr([(s, 0), (s, s)])
        extra.append(q)
        before = snapall()
        o.bezier(q, wid, off)
        if rng.random() < 0.5:
            o.smooth(arr([(2 * s, 1.5 * s), (3 * s, -s)]), width=wid, offset=off)
    elif k == "Label":
        o = gdspy.Label("x", pt)
    elif k in ("CellReference", "CellArray"):
        cell = gdspy.Cell("A", exclude_from_current=True).add(gdspy.Rectangle((0, 0), (s, s)))
        sp = rng.choice([list, np.array])((s, 2 * s))
        extra = [sp, cell]
        before = snapall()
        if k == "CellReference":
            o = gdspy.CellReference(cell, pt, 30, 2, True)
        else:
            o = gdspy.CellArray(cell, 2, 2, sp, pt, 30, 2, True)
        o.get_polygons(), o.get_bounding_box(), o.get_labels(), o.area(), data(lambda f: o.to_gds(f, 1))
        h = gdspy.Cell("H", exclude_from_current=True).add(o)
        h.get_polygons(True)
        h.copy("H2", translation=pt, rotation=0.3)
        if rng.random() < 0.5:
            h.flatten()
    elif k == "Curve":
        u = gdspy.Curve(pt[0], pt[1], tolerance=0.01 * s)
        extra = [{0: 0.1}.copy(), rng.choice([[None] * 5, [0.1, None, None, None, None]])]
        before = snapall()
        u.I(pts, angles=extra[1])
        u.i(pts)
        g = u.get_points()
        want = np.array(g)
        g += 1
        m.check(np.array_equal(u.get_points(), want), "returned-is-owned", "the points of a Curve are those it keeps")
        u.L(1, 2)
    elif k == "Cell.add":
        items = [hier.polyset(rng, c), hier.label(rng, c)]
        extra = [items]
        before = snapall()
        cell = gdspy.Cell("A", exclude_from_current=True).add(items)
        cell.add(hier.label(rng, c))
        cell.remove_labels(lambda l: True)
        n = len(cell.polygons)
        items.append(hier.polyset(rng, c))
        m.check(len(cell.polygons) == n, "constructor-arguments", "Cell.add keeps the list it was given")
        items.pop()
    elif k == "Library.add":
        items = [gdspy.Cell("A", exclude_from_current=True), gdspy.Cell("B", exclude_from_current=True)]
        extra = [items]
        before = snapall()
        lib = gdspy.GdsLibrary()
        lib.add(items)
        lib.remove("A")
    else:
        o = gdspy.PolygonSet([gen.polygon(rng, s=s), gen.polygon(rng, s=s)])
        n = [len(p) for p in o.polygons]
        r = rng.choice([[0.01 * s, 0.02 * s], [[0.01 * s] * n[0], 0.02 * s], [0.01 * s] * sum(n)])
        extra = [r, [np.array(p) for p in o.polygons]]
        o = gdspy.PolygonSet(extra[1])
        before = snapall()
        o.fillet(r)
    what = k
    m.ctx(constructor=k)
    d = snap.differs(before, snapall())
    if not m.check(d is None, "constructor-arguments", "%s changes its arguments: %s" % (what, d)):
        return
    m.state(k, type(pts).__name__, type(pt).__name__, type(ctr).__name__)
    if o is None:
        return
    done = []
    for _ in range(rng.choice([1, 2, 4])):
        ops = ["translate"]
        if isinstance(o, gdspy.PolygonSet):
            ops += ["rotate", "scale", "mirror", "fracture"]
        elif isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)):
            ops += ["rotate", "scale", "transform", "query"]
        op = rng.choice(ops)
        done.append(op)
        m.ctx(constructor=k, operations=done)
        if op == "translate":
            o.translate(1.5, 2)
        elif op == "rotate":
            o.rotate(0.3, ctr)
        elif op == "scale":
            o.scale(1.5, center=ctr)
        elif op == "mirror":
            o.mirror(ctr, pt)
        elif op == "fracture":
            o.fracture(5, 1e-4 * s)
        elif op == "transform":
            o.transform(ctr, 0.3, 1.5, True)
        else:
            o.to_polygonset()
        d = snap.differs(before, snapall())
        if not m.check(d is None, "arguments-unchanged", "%s of %s changes what %s was made of: %s" % (op, k, k, d)):
            return
    # the lists of the object are its own
    if k in ("FlexPath", "RobustPath", "PolyPath", "Path", "L1Path", "PolygonSet", "Polygon"):
        snap.scramble(o, rng)
        d = snap.differs(before, snapall())
        m.check(d is None, "constructor-arguments", "%s keeps what it was given: %s" % (k, d))


def case_library(rng, m):
    """Reading: the options given and mutable defaults."""
    pool, cells, c = world(rng)
    lib = pool[0]
    if not any(x.references or x.polygons for x in cells):
        return
    c_mult = min(1e3, 1e8 / c.s)
    lib = gdspy.GdsLibrary("W", unit=1e-6, precision=1e-6 / c_mult)
    for x in cells:
        lib.add(x, include_dependencies=False)
    raw = data(lambda f: lib.write_gds(f, timestamp=NOW))
    names = list(lib.cells)
    rename = {n: "new" + n for n in names[: rng.choice([0, 1, 2])]}
    maps = [{i: i + 10 for i in range(rng.choice([0, 1, 4]))} for _ in range(3)]
    given = copy.deepcopy((rename, maps))
    before = state(cells)

    def read(plain=False):
        if plain:
            return gdspy.GdsLibrary(infile=io.BytesIO(raw))
        return gdspy.GdsLibrary(infile=io.BytesIO(raw), rename=rename, layers=maps[0], datatypes=maps[1], texttypes=maps[2])

    def state_of(l):
        return [l.name, l.unit, l.precision, list(l.cells)] + [[snap.attrs(e, "PolygonSet") for e in x.polygons] + [snap.snap(e) for e in x.paths + x.labels] + [
            (getattr(r.ref_cell, "name", r.ref_cell), snap.snap(r)[2:]) for r in x.references] for x in l.cells.values()]

    m.ctx(cells=names)
    plain = state_of(read(True))
    a = read()
    first = state_of(a)
    m.check((rename, maps) == given, "arguments-unchanged", "read_gds changes the dictionaries it was given")
    b = read()
    m.check(snap.differs(first, state_of(b)) is None, "same-answer", "reading again: %s" % snap.differs(first, state_of(b)))
    for x in a.cells.values():
        for e in list(x):
            snap.scramble(e, rng)
        x.name = "changed"
    a.cells.clear()
    m.check(snap.differs(first, state_of(b)) is None, "returned-is-owned", "libraries read from one stream share: %s" % snap.differs(first, state_of(b)))
    d = snap.differs(plain, state_of(read(True)))
    m.check(d is None, "mutable-defaults", "reading without options after reading with them: %s" % d)
    same(m, before, cells, "operands-unchanged", "writing and reading")
    # binary cells and units
    f = io.BytesIO(raw)
    bc = gdspy.get_binary_cells(f)
    keep = dict(bc)
    g = io.BytesIO()
    vals = rng.choice([list, tuple])(bc.values())
    w = gdspy.GdsWriter(g, "W", unit=1e-6, precision=1e-6 / c_mult, timestamp=NOW)
    w.write_binary_cells(vals)
    w.close()
    m.check(g.getvalue() == raw, "same-answer", "binary cells written again differ")
    m.check(list(vals) == list(keep.values()), "arguments-unchanged", "write_binary_cells changes its argument")
    m.check(gdspy.get_binary_cells(io.BytesIO(raw)) == keep and gdspy.get_gds_units(io.BytesIO(raw)) == gdspy.get_gds_units(io.BytesIO(raw)), "same-answer", "binary cells and units")
    # new objects do not share their empty containers
    x, y = gdspy.GdsLibrary(), gdspy.GdsLibrary()
    x.add(gdspy.Cell("A", exclude_from_current=True))
    p, q = gdspy.Rectangle((0, 0), (1, 1)), gdspy.Rectangle((0, 0), (1, 1))
    p.properties[1] = "a"
    r, t = gdspy.CellReference("A", ignore_missing=True), gdspy.CellReference("A", ignore_missing=True)
    r.properties[1] = "a"
    u, v = gdspy.Cell("U", exclude_from_current=True), gdspy.Cell("V", exclude_from_current=True)
    u.add([p, r, gdspy.Label("x", (0, 0)), gdspy.FlexPath([(0, 0), (1, 1)], 0.1)])
    m.check(not y.cells and not q.properties and not t.properties and not list(v), "mutable-defaults", "new objects share containers")
    m.state("library", len(names), len(rename), [len(x) for x in maps])


def case_inplace(rng, m):
    """In-place operations change their object only; copies made before stay."""
    c = hier.C(rng.choice([1.0, 30.0]))
    k = rng.choice(["poly", "flex", "robust", "label", "ref", "set"])
    cell = gdspy.Cell("A", exclude_from_current=True).add([gdspy.Polygon(gen.polygon(rng, s=c.s)), gdspy.Label("t", (0, 0))])
    o = dict(poly=hier.polyset, flex=hier.flexpath, robust=hier.robustpath, label=hier.label, ref=lambda r, x: hier.reference(r, x, cell),
             set=lambda r, x: gdspy.PolygonSet([gen.polygon(r, s=x.s), gen.polygon(r, s=x.s)]))[k](rng, c)
    copies = [copy.deepcopy(o) if not isinstance(o, (gdspy.CellReference, gdspy.CellArray)) else gdspy.copy(o), gdspy.copy(o)]
    host = gdspy.Cell("H", exclude_from_current=True).add(gdspy.copy(o))
    answers = []
    if isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)):
        answers = [o.get_polygons(), o.get_polygons(True), o.to_polygonset()]
    elif isinstance(o, (gdspy.CellReference, gdspy.CellArray)):
        answers = [o.get_polygons(), o.get_polygons(True), o.get_polygonsets(), o.get_labels(), o.get_bounding_box()]
    elif isinstance(o, gdspy.PolygonSet):
        answers = [o.get_bounding_box(), o.area(True), list(o.polygons)]
    before = [snap.snap(x) for x in copies + [host, cell]], [canon(a) for a in answers]
    done = []
    for _ in range(rng.choice([1, 2, 3])):
        ops = [("translate", lambda: o.translate(1.5, -2))]
        if isinstance(o, gdspy.PolygonSet):
            ops += [
                ("rotate", lambda: o.rotate(0.4, (1, 2))), ("scale", lambda: o.scale(1.3, 0.7)), ("mirror", lambda: o.mirror((1, 2), (3, 5))),
                ("fracture", lambda: o.fracture(5, 1e-4 * c.s)), ("fillet", lambda: o.fillet(0.02 * c.s, 16, 199, 1e-4 * c.s)),
            ]
        elif isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)):
            ops += [
                ("rotate", lambda: o.rotate(0.4, (1, 2))), ("scale", lambda: o.scale(1.3, (1, 2))), ("transform", lambda: o.transform((1, 2), 0.3, 1.2, True)),
                ("segment", lambda: o.segment((3 * c.s, 0.1 * c.s), relative=True)), ("turn", lambda: o.turn(0.5 * c.s, 0.5)),
                ("layers", lambda: o.layers.__setitem__(0, 44)),
            ]
        n, f = rng.choice(ops)
        done.append(n)
        m.ctx(operations=done, object=k)
        f()
        now = [snap.snap(x) for x in copies + [host, cell]], [canon(a) for a in answers]
        d = snap.differs(before[0], now[0])
        if not m.check(d is None, "operands-unchanged", "%s of %s changes copies made before: %s" % (n, k, d)):
            return
        d = snap.differs(before[1], now[1])
        if not m.check(d is None, "returned-is-owned", "%s of %s changes answers given before: %s" % (n, k, d)):
            return
    m.state("inplace", type(o).__name__, tuple(done))
