"""C26: labels are found and placed correctly through the hierarchy."""
import copy
import math

import gdspy
import numpy as np

import geom
import hier
import libgen
import snap

RULE = (
    "Random hierarchies with labels of every anchor, rotation, magnification, reflection, layer, texttype and properties (positions assigned as tuples, lists, integer and float arrays) are asked for their labels at every level and depth, through cells, references and arrays, with and without "
    "set_transform; answers are compared with the expansion of the public attributes by composition of affine maps, then destroyed and asked again. "
    "Histories add, translate, remove, copy and flatten labels between queries. Non-trivial: labels two levels deep under a reflection or an array; "
    "distinct by hierarchy, depth and query."
)
ASSUMPTIONS = ["The orientation of a label is compared as the linear map that its x_reflection, magnification and rotation name (full turns are equal)."]
VARIANTS = ["plain"]
REQUIRED = ["positions", "attributes", "orientation", "orientation-kept", "originals", "independent", "depth", "anchors", "translate", "remove", "copy", "flatten", "below-reflection", "below-array"]

KINDS = ["label", "label", "label", "poly", "ref", "ref", "ref"]
NAMES = {
    "nw": 0, "top left": 0, "upper left": 0, "n": 1, "top center": 1, "upper center": 1, "ne": 2, "top right": 2, "upper right": 2,
    "w": 4, "middle left": 4, "o": 5, "middle center": 5, "e": 6, "middle right": 6, "sw": 8, "bottom left": 8, "lower left": 8,
    "s": 9, "bottom center": 9, "lower center": 9, "se": 10, "bottom right": 10, "lower right": 10,
}


def cases(tier):
    k = 5 if tier == "quick" else 80
    return [("query", 150 * k), ("deep", 20 * k), ("history", 80 * k), ("single", 200 * k)]


def linear(o):
    """Linear map named by the attributes of a label or reference."""
    r = math.radians(o.rotation or 0)
    g = 1.0 if o.magnification is None else o.magnification
    c, s = g * math.cos(r), g * math.sin(r)
    f = -1.0 if o.x_reflection else 1.0
    return np.array([[c, -s * f], [s, c * f]])


def ident(l):
    return (l.text, l.anchor, l.layer, l.texttype, dict(l.properties))


def compare(m, got, inst, tol, transform, what, flat=False):
    """got: labels; inst: [(map, label)]."""
    if not m.check(isinstance(got, list) and all(isinstance(l, gdspy.Label) for l in got), "depth", "%s is %r" % (what, type(got))):
        return False
    if not m.check(len(got) == len(inst), "depth", "%s: %d labels, expected %d" % (what, len(got), len(inst))):
        return False
    want = [(geom.apply(mp, [l.position])[0], l, mp[:2, :2]) for mp, l in inst]

    def pos(g, w):
        return np.shape(g.position) == (2,) and np.abs(np.asarray(g.position, dtype=float) - w[0]).max() <= tol

    def same(g, w):
        return pos(g, w) and ident(g) == ident(w[1])

    def oriented(g, w):
        want = w[2] @ linear(w[1]) if transform else linear(w[1])
        return np.abs(linear(g) - want).max() <= 1e-9 * max(1e-3, np.abs(want).max())

    def kept(g, w):
        return (g.rotation, g.magnification, bool(g.x_reflection)) == (w[1].rotation, w[1].magnification, bool(w[1].x_reflection))

    def show(b):
        if b is None or not isinstance(b, tuple):
            return repr(b)[:500]
        return repr([None if x is None else (str(x) if isinstance(x, gdspy.Label) else (x[0].tolist(), str(x[1]))) for x in b])[:700]

    def agree(eq):
        return None if all(eq(g, w) for g, w in zip(got, want)) else geom.match_multiset(got, want, eq)

    bad = agree(pos)
    if not m.check(bad is None, "positions", "%s: positions %s" % (what, show(bad))):
        return False
    bad = agree(same)
    if not m.check(bad is None, "attributes", "%s: attributes %s" % (what, show(bad))):
        return False
    if transform:
        bad = agree(lambda g, w: same(g, w) and oriented(g, w))
        return m.check(bad is None, "orientation", "%s: orientation %s" % (what, show(bad)))
    bad = agree(lambda g, w: same(g, w) and kept(g, w))
    return m.check(bad is None, "orientation-kept", "%s: orientation %s" % (what, show(bad)))


def relabel(rng, cells, c):
    """Positions of other types and orientation of every kind."""
    for x in cells:
        for l in x.labels:
            r = rng.random()
            p = tuple(float(v) for v in l.position)
            if r < 0.2:
                l.position = np.array([int(10 * p[0] / c.s), int(10 * p[1] / c.s)])
            elif r < 0.3:
                l.position = p
            elif r < 0.4:
                l.position = list(p)
            if rng.random() < 0.5:
                l.rotation = rng.choice([None, 0, 30, 90, 180, -45.25, 359.0, rng.uniform(-400, 400)])
                l.magnification = rng.choice([None, 1, 2, 0.25, rng.uniform(0.1, 5)])


def ask(rng, m, ex, target, top, depth, transform, tol):
    kw = {}
    if depth is not None or rng.random() < 0.3:
        kw["depth"] = depth
    if transform or rng.random() < 0.3:
        kw["set_transform"] = transform
    inst = ex.elements(top, "labels", depth) if target is top else ex.ref_elements(target, "labels", depth)
    got = target.get_labels(**kw)
    ok = compare(m, got, inst, tol, transform, "%s.get_labels(%s)" % (type(target).__name__, kw))
    return ok, got, inst, kw


def run_case(kind, index, rng, m):
    if kind == "single":
        return single(rng, m)
    if kind == "history":
        return history(rng, m)
    cells, c = hier.hierarchy(rng, n=rng.choice([6, 8]) if kind == "deep" else rng.choice([1, 2, 3, 4]), kinds=KINDS, limit=600)
    relabel(rng, cells, c)
    top = cells[-1] if rng.random() < 0.8 else rng.choice(cells)
    ex = hier.Expansion()
    tol = 1e-8 * c.s * 4 ** 3
    full = ex.elements(top, "labels")
    tol = 1e-9 * max([c.s] + [float(np.abs(geom.apply(mp, [l.position])).max()) for mp, l in full])
    m.ctx(hierarchy=describe(cells), top=top.name)
    m.sample(dict(hierarchy=describe(cells)[:3], labels=len(full)))
    m.count("expanded labels", len(full))
    target = top
    if top.references and rng.random() < 0.5:
        target = rng.choice(top.references)
    if any(np.linalg.det(mp) < 0 for mp, _ in full):
        m.seen("below-reflection")
    if isinstance(target, gdspy.CellArray):
        m.seen("below-array")
    before = [snap.snap(x) for x in cells]
    for depth in [None, 0, 1, 2, 3] if kind == "query" else [None, rng.choice([0, 1, 2, 4])]:
        for transform in (False, True):
            ok, got, inst, kw = ask(rng, m, ex, target, top, depth, transform, tol)
            m.state(len(cells), type(target).__name__, depth, transform, min(len(inst), 30), len({id(l) for _, l in inst}))
            if not ok:
                return
            d = snap.differs(before, [snap.snap(x) for x in cells])
            if not m.check(d is None, "originals", "get_labels(%s) changes the cells: %s" % (kw, d)):
                return
            # what was returned belongs to the caller
            if len({id(l) for l in got}) != len(got):
                m.violate("independent", "the same label is returned more than once")
            own = {id(l) for x in cells for l in x.labels}
            m.check(not any(id(l) in own for l in got), "independent", "a label of the cell itself is returned")
            if got and rng.random() < 0.4:
                keep = rng.randrange(len(got))
                s = snap.snap(got[keep])
                for i, l in enumerate(got):
                    if i != keep:
                        snap.scramble(l, rng)
                d = snap.differs(s, snap.snap(got[keep]))
                m.check(d is None, "independent", "labels returned together are not independent: %s" % d)
                snap.scramble(got[keep], rng)
                d = snap.differs(before, [snap.snap(x) for x in cells])
                if not m.check(d is None, "independent", "changing the labels returned changes the cells: %s" % d):
                    return
                got2 = target.get_labels(**kw)
                compare(m, got2, inst, tol, transform, "second %s.get_labels(%s)" % (type(target).__name__, kw))


def describe(cells):
    return [
        dict(name=x.name, labels=[str(l) for l in x.labels],
             refs=[dict(to=getattr(r.ref_cell, "name", r.ref_cell), origin=list(r.origin), rot=r.rotation, mag=r.magnification, x=r.x_reflection,
                        arr=[r.columns, r.rows, list(r.spacing)] if isinstance(r, gdspy.CellArray) else None) for r in x.references])
        for x in cells
    ]


def history(rng, m):
    """Changes between queries: the answer is always that of the current content."""
    cells, c = hier.hierarchy(rng, n=rng.choice([2, 3, 4]), kinds=KINDS, limit=200)
    relabel(rng, cells, c)
    top = cells[-1]
    for step in range(6):
        op = rng.choice(["add", "translate", "attr", "remove", "copy", "deepcopy", "ref", "flatten", "refattr"])
        cell = rng.choice(cells)
        m.ctx(step=step, op=op, cell=cell.name, hierarchy=describe(cells))
        if op == "add":
            ls = [hier.label(rng, c) for _ in range(rng.choice([1, 3]))]
            before = list(cell.labels)
            r = cell.add(ls if len(ls) > 1 or rng.random() < 0.5 else ls[0])
            m.check(r is cell and len(cell.labels) == len(before) + len(ls) and all(a is b for a, b in zip(cell.labels, before + ls)), "add", "labels after add")
        elif op == "translate" and cell.labels:
            l = rng.choice(cell.labels)
            p = np.array(l.position, dtype=float)
            s = snap.snap(l)
            dx, dy = rng.choice([0, 1, rng.uniform(-1, 1)]) * c.s, rng.uniform(-1, 1) * c.s
            others = [snap.snap(x) for x in cell.labels if x is not l]
            r = l.translate(dx, dy)
            m.check(r is l and np.abs(np.asarray(l.position, dtype=float) - p - (dx, dy)).max() <= 1e-12 * (np.abs(p).max() + c.s * 2), "translate", "translate(%r, %r) of %s gives %s" % (dx, dy, p, l.position))
            a = [x for x in s[1:] if x[0] != "position"]
            b = [x for x in snap.snap(l)[1:] if x[0] != "position"]
            m.check(a == b, "translate", "translate changes other attributes")
            d = snap.differs(others, [snap.snap(x) for x in cell.labels if x is not l])
            m.check(d is None, "translate", "translate changes other labels: %s" % d)
        elif op == "attr" and cell.labels:
            l = rng.choice(cell.labels)
            l.position = c.pt(rng)
            l.layer, l.texttype, l.text = hier.lay(rng), hier.lay(rng), libgen.text(rng)
            l.x_reflection = not l.x_reflection
        elif op == "remove" and cell.labels:
            key = rng.choice(["layer", "texttype", "text"])
            v = getattr(rng.choice(cell.labels), key)
            asked = []

            def test(l):
                asked.append(l)
                return getattr(l, key) == v

            keep = [l for l in cell.labels if getattr(l, key) != v]
            n = len(cell.labels)
            others = [snap.snap(x) for x in cells if x is not cell]
            r = cell.remove_labels(test)
            m.check(r is cell and len(cell.labels) == len(keep) and all(a is b for a, b in zip(cell.labels, keep)), "remove", "%d labels left of %d, expected %d" % (len(cell.labels), n, len(keep)))
            m.check(len(asked) == n, "remove", "%d labels asked of %d" % (len(asked), n))
            d = snap.differs(others, [snap.snap(x) for x in cells if x is not cell])
            m.check(d is None, "remove", "other cells change: %s" % d)
        elif op in ("copy", "deepcopy"):
            s = snap.snap(cell)
            if op == "copy":
                new = cell.copy("CP%d" % step, deep_copy=True) if rng.random() < 0.7 else cell.copy("CP%d" % step, True)
            else:
                new = copy.deepcopy(cell)
            a, b = [snap.snap(l) for l in cell.labels], [snap.snap(l) for l in new.labels]
            m.check(snap.differs(a, b) is None, "copy", "labels of the copy: %s" % snap.differs(a, b))
            if op == "deepcopy" or rng.random() < 0.5:
                if all(x is not y for x in new.labels for y in cell.labels):
                    for l in new.labels:
                        snap.scramble(l, rng)
                new.remove_labels(lambda l: True)
                d = snap.differs(s, snap.snap(cell))
                m.check(d is None, "copy", "changing the copy changes the cell: %s" % d)
        elif op == "ref" and cell is not cells[0]:
            below = cells[: cells.index(cell)]
            if len(hier.Expansion().elements(top, "labels")) < 400:
                cell.add(hier.reference(rng, c, rng.choice(below)))
        elif op == "refattr" and cell.references:
            r = rng.choice(cell.references)
            t = libgen.transform(rng)
            r.rotation, r.magnification, r.x_reflection = t["rotation"], t["magnification"], t["x_reflection"]
            r.origin = c.pt(rng)
        elif op == "flatten":
            ex = hier.Expansion()
            inst = [(mp, copy.copy(l)) for mp, l in ex.elements(cell, "labels")]
            tt = rng.choice([None, 0, 6])
            ll = rng.choice([None, 0, 5])
            tol = 1e-9 * max([c.s] + [float(np.abs(geom.apply(mp, [l.position])).max()) for mp, l in inst])
            for _, l in inst:
                l.layer = l.layer if ll is None else ll
                l.texttype = l.texttype if tt is None else tt
            others = [snap.snap(x) for x in cells if x is not cell]
            cell.flatten(ll, None, tt)
            m.seen("flatten")
            m.check(not cell.references, "flatten", "references left")
            compare(m, cell.labels, inst, tol, False, "labels after flatten(%s, None, %s)" % (ll, tt))
            d = snap.differs(others, [snap.snap(x) for x in cells if x is not cell])
            m.check(d is None, "flatten", "other cells change: %s" % d)
        if op == "copy":
            # a transformed copy in place of the cell
            kw = dict(translation=rng.choice([None, c.pt(rng)]), rotation=rng.choice([None, 0.5 * math.pi, rng.uniform(-4, 4)]), scale=rng.choice([None, 2, 0.5]), x_reflection=rng.random() < 0.5)
            new = cell.copy("TR%d" % step, **kw)
            mp = geom.a_ref(kw["translation"] or (0, 0), None if kw["rotation"] is None else math.degrees(kw["rotation"]), kw["scale"], kw["x_reflection"])
            inst = [(mp, l) for l in cell.labels]
            tol = 1e-9 * max([c.s] + [float(np.abs(geom.apply(mp, [l.position])).max()) for mp, l in inst])
            m.ctx(kw=kw)
            compare(m, new.labels, inst, tol, True, "labels of the transformed copy")
            if len(new.references) == 0:
                r = gdspy.CellReference(new, (0, 0), rng.choice([None, 90, 30.0]), rng.choice([None, 2]), rng.random() < 0.5)
                compare(m, r.get_labels(set_transform=True), [(hier.maps(r)[0] @ mp, l) for l in cell.labels], 4 * tol, True, "labels of a reference to the transformed copy")
        ex = hier.Expansion()
        full = ex.elements(top, "labels")
        if len(full) > 2000:
            return
        tol = 1e-9 * max([c.s] + [float(np.abs(geom.apply(mp, [l.position])).max()) for mp, l in full])
        m.state("history", op, len(full), step)
        target = rng.choice(top.references) if top.references and rng.random() < 0.4 else top
        if not ask(rng, m, ex, target, top, rng.choice([None, None, 0, 1, 2]), rng.random() < 0.5, tol)[0]:
            return
        m.check(top.get_texttypes() == {l.texttype for x in [top] + list(ex.cells_below(top).values()) for l in x.labels}, "texttypes", "get_texttypes")


def single(rng, m):
    """The label alone, and one label below one chain of references."""
    c = hier.C(rng.choice([1.0, 30.0, 1e4]))
    nm = rng.choice(list(NAMES))
    given = "".join(ch.upper() if rng.random() < 0.3 else ch for ch in nm)
    p = rng.choice([tuple, list, np.array])(c.pt(rng))
    kw = dict(rotation=rng.choice([None, 0, 45, rng.uniform(-360, 360)]), magnification=rng.choice([None, 1, 2.5]), x_reflection=rng.random() < 0.5, layer=hier.lay(rng), texttype=hier.lay(rng))
    txt = libgen.text(rng, 30, empty=True)
    m.ctx(anchor=given, kw=kw)
    l = gdspy.Label(txt, p, given, **kw)
    m.check(l.anchor == NAMES[nm], "anchors", "anchor %r is %r" % (given, l.anchor))
    m.check(l.text == txt and list(l.position) == list(p) and all(getattr(l, k) == v for k, v in kw.items()) and l.properties == {}, "anchors", "attributes of a new label: %s" % l)
    if isinstance(p, np.ndarray):
        p += 1
        m.check(list(l.position) == list(p - 1) or np.abs(l.position - (p - 1)).max() <= 1e-9 * c.s, "independent", "the label keeps the array given as its position")
    if rng.random() < 0.3:
        bad = rng.choice(["", "x", "nn", "c", "center", "north", "left top", " o", "o "])
        try:
            gdspy.Label(txt, (0, 0), bad)
            m.violate("anchors", "anchor %r is accepted" % bad)
        except ValueError:
            m.seen("anchors")
    l.properties = libgen.props(rng, 0.6)
    q = rng.choice([copy.copy, copy.deepcopy, gdspy.copy])(l) if rng.random() < 0.7 else gdspy.copy(l, 1.5, -2)
    dx = (0, 0)
    if not np.allclose(q.position, l.position, rtol=0, atol=1e-12):
        dx = (1.5, -2)
    m.check(ident(q) == ident(l) and np.abs(np.asarray(q.position) - l.position - dx).max() <= 1e-12 * c.s + 1e-12 and (q.rotation, q.magnification, q.x_reflection) == (l.rotation, l.magnification, l.x_reflection), "copy", "copy of a label: %s" % q)
    s = snap.snap(l)
    q.translate(3, 4)
    q.text = "other"
    m.check(snap.differs(s, snap.snap(l)) is None, "copy", "moving the copy moves the label")
    # chain
    x = gdspy.Cell("L", exclude_from_current=True).add(l)
    mp = geom.aff()
    chain = []
    for i in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.7:
            r = gdspy.CellReference(x, c.pt(rng), rng.choice([None, 0, 90, -90, 180, rng.uniform(-400, 400)]), rng.choice([None, 1, 2, 0.5]), rng.random() < 0.5)
        else:
            r = gdspy.CellArray(x, 1, 1, (1, 1), c.pt(rng), rng.choice([None, 0, 90, -90, 180, rng.uniform(-400, 400)]), rng.choice([None, 1, 2, 0.5]), rng.random() < 0.5)
            m.seen("below-array")
        chain.append((type(r).__name__, list(r.origin), r.rotation, r.magnification, r.x_reflection))
        m.check(True, "chain", "")
        mp = hier.maps(r)[0] @ mp
        x = gdspy.Cell("R%d" % i, exclude_from_current=True).add(r)
    m.ctx(chain=chain)
    if np.linalg.det(mp) < 0:
        m.seen("below-reflection")
    tol = 1e-9 * max(c.s, float(np.abs(mp).max()))
    for target in (r, x):
        for t in (False, True):
            m.state("single", [(a, b is None, g is None, f) for a, _, b, g, f in chain], kw["rotation"] is None, kw["x_reflection"], t)
            compare(m, target.get_labels(set_transform=t), [(mp, l)], tol, t, "%s.get_labels(set_transform=%s)" % (type(target).__name__, t))
            if len(chain) > 1:
                k = len(chain) - 1 if target is r else len(chain)
                m.check(len(target.get_labels(k, t)) == 1 and target.get_labels(k - 1, t) == [], "depth", "label found at a depth of %d" % (k - 1))
