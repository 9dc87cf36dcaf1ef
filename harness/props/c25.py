"""C25: the SVG file is well formed and draws what the cell contains."""
import io
import math
import os
import pathlib
import re
import tempfile
import urllib.parse
import xml.etree.ElementTree as ET

import gdspy
import numpy as np

import geom
import hier
import snap

RULE = (
    "Random hierarchies of cells (polygon sets, rounds, both kinds of paths, labels with any printable text and some beyond ASCII, references and "
    "arrays with any transformation, missing references, integer coordinates, any names) are written with write_svg to files, paths and streams, with any scaling, "
    "styles, background, margin and number of digits. The file is parsed with an XML parser and expanded by an interpreter of SVG (g, use, transform "
    "lists, polygon, text); the result is compared with the naive expansion of the hierarchy. Non-trivial: at least one element drawn; distinct by "
    "kinds of elements, options and depth of the hierarchy."
)
ASSUMPTIONS = [
    "Style values are plain CSS (no characters special to XML).",
    "Cells without any polygon or path have no bounding box and no file is written for them.",
]
REQUIRED = ["well-formed", "polygons", "labels", "styles", "image-size", "background", "operands", "no-file"]
CPU_LIMIT = 40

NS = "{http://www.w3.org/2000/svg}"
HREF = "{http://www.w3.org/1999/xlink}href"


def cases(tier):
    k = 3 if tier == "quick" else 60
    return [("random", 500 * k), ("names", 120 * k), ("digits", 150 * k), ("single", 150 * k), ("empty", 20 * k), ("collision", 1)]


# -- an interpreter of the part of SVG that is needed ----------------------------
def transform(text):
    m = geom.aff()
    rest = re.sub(r"(\w+)\s*\(([^)]*)\)\s*,?", "", text or "").strip()
    if rest:
        raise ValueError("transform " + text)
    for f, a in re.findall(r"(\w+)\s*\(([^)]*)\)", text or ""):
        v = [float(x) for x in re.split(r"[\s,]+", a.strip())]
        if f == "translate":
            t = geom.a_translate(v[0], v[1] if len(v) > 1 else 0.0)
        elif f == "scale":
            t = geom.a_scale(v[0], v[1] if len(v) > 1 else v[0])
        elif f == "rotate":
            t = geom.a_rotate(math.radians(v[0]))
            if len(v) == 3:
                t = geom.a_about(t, v[1:])
        elif f == "matrix":
            t = geom.aff(v[0], v[2], v[1], v[3], v[4], v[5])
        else:
            raise ValueError("transform " + text)
        m = m @ t
    return m


class Drawing(object):
    def __init__(self, data):
        self.root = ET.fromstring(data)
        if self.root.tag != NS + "svg":
            raise ValueError("root element " + self.root.tag)
        self.ids = {}
        self.duplicates = []
        for e in self.root.iter():
            i = e.get("id")
            if i is not None:
                if i in self.ids:
                    self.duplicates.append(i)
                self.ids[i] = e
        self.polygons, self.texts, self.rects, self.dangling = [], [], [], []
        self.depth = 0
        for e in self.root:
            if e.tag != NS + "defs":
                self.draw(e, geom.aff(), 1)

    def draw(self, e, m, depth):
        self.depth = max(self.depth, depth)
        if depth > 60:
            raise ValueError("endless recursion of use elements")
        m = m @ transform(e.get("transform"))
        if e.tag == NS + "g":
            for c in e:
                self.draw(c, m, depth)
        elif e.tag == NS + "use":
            h = e.get(HREF) or e.get("href")
            if not h or h[0] != "#":
                raise ValueError("reference %r" % (h,))
            t = self.ids.get(h[1:])
            if t is None:
                t = self.ids.get(urllib.parse.unquote(h[1:]))
            if t is None:
                self.dangling.append(h[1:])
            else:
                m = m @ geom.a_translate(float(e.get("x", 0)), float(e.get("y", 0)))
                self.draw(t, m, depth + 1)
        elif e.tag == NS + "polygon":
            v = [float(x) for x in re.split(r"[\s,]+", e.get("points").strip())]
            self.polygons.append((e.get("class"), geom.apply(m, np.array(v).reshape(-1, 2))))
        elif e.tag == NS + "text":
            m = m @ geom.a_translate(float(e.get("x", 0)), float(e.get("y", 0)))
            self.texts.append((e.get("class"), "".join(e.itertext()), e.get("text-anchor"), e.get("dominant-baseline"), m))
        elif e.tag == NS + "rect":
            self.rects.append(([float(e.get(k)) for k in ("x", "y", "width", "height")], e.get("fill")))
        elif e.tag in (NS + "style", NS + "title", NS + "desc"):
            pass
        else:
            raise ValueError("element " + e.tag)

    def styles(self):
        """[(class, {property: value})] in order."""
        out = []
        for s in self.root.iter(NS + "style"):
            text = "".join(s.itertext())
            for sel, body in re.findall(r"([^{}]+)\{([^{}]*)\}", text):
                d = {}
                for item in body.split(";"):
                    if item.strip():
                        k, v = item.split(":", 1)
                        d[k.strip()] = v.strip()
                out.append((sel.strip(), d))
            if re.sub(r"([^{}]+)\{([^{}]*)\}", "", text).strip():
                raise ValueError("style " + text)
        return out


# -- the expected drawing --------------------------------------------------------
HORIZ = ["start", "middle", "end"]
VERT = ["text-before-edge", "central", "text-after-edge"]


def label_matrix(m, l, scaling):
    """Text coordinates (y downwards, anchor at the origin) to image coordinates."""
    a = geom.a_translate(l.position[0] * scaling, l.position[1] * scaling)
    if l.rotation is not None:
        a = a @ geom.a_rotate(math.radians(l.rotation))
    if l.x_reflection:
        a = a @ geom.a_scale(1, -1)
    if l.magnification is not None:
        a = a @ geom.a_scale(l.magnification)
    return geom.a_scale(1, -1) @ scaled(m, scaling) @ a @ geom.a_scale(1, -1)


def scaled(m, s):
    m = np.array(m)
    m[:2, 2] *= s
    return m


SPECIAL = ["A&B", "A<B>", 'A"B', "A'B", "A B", "A;B", "A\u00e9\u4e2d", "A$?", "a&amp;b", "<g>", "x]]>y", "100%", "A%20", "A\\b"]
STYLES = [{}, {"fill": "#CC00FF", "stroke": "black"}, {"fill": "none"}, {"stroke": "rgb(1, 2, 3)", "stroke-width": 2.5, "fill-opacity": 0}]


def unicode_text(rng):
    return "".join(rng.choice("ab<>&\"' ;\u00b5\u03a9\u4e2d\U0001f600") for _ in range(rng.choice([1, 4, 12])))


def build(rng, kind):
    n = 1 if kind == "single" else None
    cells, c = hier.hierarchy(rng, n=n, limit=400)
    top = cells[-1]
    if kind == "names":
        # other names: references follow the object, not the name
        used = set()
        for x in cells:
            nm = rng.choice(SPECIAL) + ("#%d" % len(used) if rng.random() < 0.3 else "_%d" % len(used))
            used.add(nm)
            x.name = nm
            for l in x.labels:
                l.text = unicode_text(rng)
    if rng.random() < 0.2:
        k = rng.randint(1, 9)
        top.add(gdspy.Polygon(np.array([(0, 0), (3 * k, 0), (5, 4 * k)]), layer=7, datatype=9))
        if rng.random() < 0.5:
            top.add(gdspy.PolygonSet([[(0, 0), (3, 0), (5, 4)]], np.int64(9), np.int32(2)))
    if rng.random() < 0.1:
        top.add(gdspy.FlexPath([(0, 0), (c.s, 0)], [0.1 * c.s, 0.05 * c.s], 0.3 * c.s, layer=[4, 5], datatype=[6, 7]))
    return cells, top, c


def options(rng, kind, top, exp):
    kw = {}
    if rng.random() < 0.6:
        kw["scaling"] = rng.choice([10, 1, 0.01, 2.5, 1000, 3])
    used = sorted(exp["ld"])
    usedt = sorted(exp["lt"])
    if rng.random() < 0.5:
        st = {}
        for k in used:
            if rng.random() < 0.5:
                st[k] = rng.choice(STYLES)
        st[(77, 78)] = {"fill": "red"}
        kw["style"] = st
    if rng.random() < 0.5:
        st = {}
        for k in usedt:
            if rng.random() < 0.5:
                st[k] = rng.choice(STYLES + [{"font-family": "monospace", "font-size": "12px"}])
        st[(77, 79)] = {"fill": "red"}
        kw["fontstyle"] = st
    if rng.random() < 0.4:
        kw["background"] = rng.choice([None, "white", "#fff", "none"])
    if rng.random() < 0.5:
        kw["pad"] = rng.choice([0, 3, 2.5, "3", "0%", "12.5%", "100%"])
    if kind == "digits" or rng.random() < 0.1:
        kw["precision"] = rng.choice([1, 2, 3, 6])
    return kw


def write(rng, top, kw, m):
    """Text written, through every kind of destination."""
    where = rng.choice(["name", "path", "stream", "open file"])
    if where == "stream":
        f = io.StringIO()
        r = top.write_svg(f, **kw)
        m.check(not f.closed, "operands", "the stream given was closed")
        return where, f.getvalue().encode("utf8")
    d = tempfile.mkdtemp(dir=".")
    p = os.path.join(d, "o.svg")
    try:
        if where == "name":
            top.write_svg(p, **kw)
        elif where == "path":
            top.write_svg(pathlib.Path(p), **kw)
        else:
            with open(p, "w", encoding="utf8") as f:
                top.write_svg(f, **kw)
                m.check(not f.closed, "operands", "the file given was closed")
        return where, open(p, "rb").read() if os.path.exists(p) else None
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)


def run_case(kind, index, rng, m):
    if kind == "empty":
        return empty(rng, m)
    if kind == "collision":
        return collision(rng, m)
    cells, top, c = build(rng, kind)
    E = hier.Expansion()
    box = E.box(top)
    if box is None:
        m.skip("nothing to draw")
        return
    polys = E.polys(top)
    labels = E.elements(top, "labels")
    every = list(E.cells_below(top).values()) + [top]
    ld = set((l, d) for x in every for k in (x.polygons, x.paths) for e in k for l, d in zip(e.layers, e.datatypes))
    lt = set((l.layer, l.texttype) for x in every for l in x.labels)
    kw = options(rng, kind, top, {"ld": ld, "lt": lt})
    scaling = kw.get("scaling", 10)
    digits = kw.get("precision")
    m.ctx(kw={k: repr(v) for k, v in kw.items()}, names=[x.name for x in cells])
    before = snap.snap(top, True)
    before_kw = repr(kw)
    where, data = write(rng, top, kw, m)
    m.check(snap.differs(before, snap.snap(top, True)) is None, "operands", "writing changed the cell: %s" % snap.differs(before, snap.snap(top, True)))
    m.check(repr(kw) == before_kw, "operands", "writing changed its arguments")
    m.require(data is not None, "well-formed", "no file was written")
    try:
        d = Drawing(data)
    except ET.ParseError as e:
        m.violate("well-formed", "not well-formed XML: %s" % e, data=data[:300].decode("utf8", "replace"))
        return
    m.check(data.lstrip().startswith(b"<?xml"), "well-formed", "no XML declaration")
    m.check(not d.duplicates, "well-formed", "identifiers used twice: %s" % d.duplicates[:3])
    missing = [r.ref_cell for x in every for r in x.references if not isinstance(r.ref_cell, gdspy.Cell)]
    m.check(not d.dangling or missing, "well-formed", "references to nothing: %s" % d.dangling[:3])
    size = scaling * max([1e-9] + [float(np.abs(b).max()) for b in box]) + scaling * hier.span(polys)
    tol = 1e-9 * size
    if digits is not None:
        # each coordinate within half a unit of the last digit, in the frame it is written in
        mags = [1.0]

        def walk(cell, g, depth):
            for r in cell.references:
                if isinstance(r.ref_cell, gdspy.Cell):
                    h = g * (1 if r.magnification is None else abs(r.magnification))
                    mags.append(h)
                    mags[0] = max(mags[0], depth)
                    walk(r.ref_cell, h, depth + 1)

        walk(top, 1.0, 2)
        depth = mags[0]
        tol += 2 * 10.0 ** -digits * (1 + depth) * max(mags[1:] + [1.0])
    want = [("l%dd%d" % k, geom.apply(geom.a_scale(1, -1), scaling * p)) for k, p in polys]
    msg = hier.match_polys(d.polygons, want, tol)
    m.check(msg is None, "polygons", msg, precision=digits)
    m.seen("polygons", len(want))

    # labels
    if len(d.texts) != len(labels):
        m.check(False, "labels", "%d texts, expected %d" % (len(d.texts), len(labels)))
    else:
        left = [("l%dt%d" % (l.layer, l.texttype), l.text, HORIZ[l.anchor % 4], VERT[l.anchor // 4], label_matrix(g, l, scaling)) for g, l in labels]
        for t in d.texts:
            for i, w in enumerate(left):
                if t[:4] == w[:4]:
                    a, b = t[4], w[4]
                    mg = max(np.abs(b[:2, :2]).max(), 1e-12)
                    lsize = size + scaling * max([0.0] + [float(np.abs(g @ np.append(l.position, 1.0)).max()) for g, l in labels[:1]]) + np.abs(b[:2, 2]).max()
                    if np.abs(a[:2, :2] - b[:2, :2]).max() <= 1e-9 * mg and np.abs(a[:2, 2] - b[:2, 2]).max() <= tol + 1e-9 * lsize:
                        del left[i]
                        break
            else:
                m.check(False, "labels", "unexpected text %r at %s" % (t[:4], t[4][:2].tolist()), expected=[w[:4] + (w[4][:2].tolist(),) for w in left[:4]], precision=digits)
                break
        m.seen("labels", len(labels) + 1)

    # styles
    got = d.styles()
    names = [n for n, _ in got]
    wantst = [".l%dd%d" % k for k in ld] + [".l%dt%d" % k for k in lt]
    m.check(sorted(names) == sorted(wantst), "styles", "styles %s, expected %s" % (sorted(names), sorted(wantst)))
    for n, body in got:
        mt = re.match(r"\.l(\d+)([dt])(\d+)$", n)
        if not mt:
            continue
        key = (int(mt.group(1)), int(mt.group(3)))
        given = (kw.get("style") if mt.group(2) == "d" else kw.get("fontstyle")) or {}
        if key in given:
            w = {k: str(v) for k, v in given[key].items()}
            m.check(body == w, "styles", "style of %s is %s, expected %s" % (n, body, w))
        else:
            col = [body.get("fill")] + ([body.get("stroke")] if mt.group(2) == "d" else [])
            ok = all(valid_colour(x) for x in col)
            m.check(ok, "styles", "default style of %s without colour: %s" % (n, body))

    # image
    w = scaling * (box[1][0] - box[0][0])
    h = scaling * (box[1][1] - box[0][1])
    x, y = scaling * box[0][0], -scaling * box[1][1]
    background = kw.get("background", "#222")
    pad = 0.0
    if background is not None:
        pad = kw.get("pad", "5%")
        if isinstance(pad, str) and pad.endswith("%"):
            pad = max(w, h) * float(pad[:-1]) / 100
        else:
            pad = float(pad)
    wantbox = [x - pad, y - pad, w + 2 * pad, h + 2 * pad]
    tb = 1e-9 * size + 1e-9 * abs(pad) + (2 * 10.0 ** -digits if digits is not None else 0)
    r = d.root
    vb = [float(v) for v in re.split(r"[\s,]+", r.get("viewBox").strip())]
    m.check(np.abs(np.array(vb) - wantbox).max() <= tb, "image-size", "view box %s, expected %s" % (vb, wantbox))
    wh = [float(r.get("width")), float(r.get("height"))]
    m.check(np.abs(np.array(wh) - wantbox[2:]).max() <= tb, "image-size", "size %s, expected %s" % (wh, wantbox[2:]))
    if background is None:
        m.check(not d.rects, "background", "unexpected background")
    else:
        m.check(len(d.rects) == 1 and d.rects[0][1] == background and np.abs(np.array(d.rects[0][0]) - wantbox).max() <= tb, "background", "background %s, expected %s" % (d.rects, wantbox))
        first = [e.tag for e in d.root if e.tag != NS + "defs"]
        m.check(first[:1] == [NS + "rect"], "background", "the background covers the layout")
    m.count("polygons drawn", len(want))
    m.count("texts drawn", len(labels))
    m.state(len(every), d.depth, len(want).bit_length(), len(labels).bit_length(), sorted(kw), where, digits)
    m.sample({"cells": [x.name for x in cells], "options": before_kw[:200], "polygons": len(want), "texts": len(labels), "depth": d.depth})


def valid_colour(v):
    mt = re.match(r"rgb\((\d+), ?(\d+), ?(\d+)\)$", v or "")
    if mt:
        return all(0 <= int(g) <= 255 for g in mt.groups())
    return bool(re.match(r"#([0-9a-fA-F]{3}|[0-9a-fA-F]{6})$|[a-z]+$", v or "")) and v != "none"


def empty(rng, m):
    """Cells with nothing that has an extent: nothing is written."""
    c = gdspy.Cell("E", exclude_from_current=True)
    if rng.random() < 0.5:
        c.add(gdspy.CellReference(gdspy.Cell("F", exclude_from_current=True), (1, 2)))
    if rng.random() < 0.3:
        c.add(gdspy.CellReference("Missing", (1, 2), ignore_missing=True))
    f = io.StringIO()
    c.write_svg(f)
    m.check(f.getvalue() == "", "no-file", "something was written for an empty cell", data=f.getvalue()[:200])
    d = tempfile.mkdtemp(dir=".")
    p = os.path.join(d, "x.svg")
    c.write_svg(p)
    m.check(not os.path.exists(p), "no-file", "a file was made for an empty cell")
    if os.path.exists(p):
        os.remove(p)
    os.rmdir(d)
    m.state("empty", len(c.references))


def collision(rng, m):
    """Two cells whose names differ only where the writer changes them."""
    a, b, t = [gdspy.Cell(n, exclude_from_current=True) for n in ("A#", "A_", "T")]
    a.add(gdspy.Rectangle((0, 0), (1, 1), layer=1))
    b.add(gdspy.Rectangle((0, 0), (2, 2), layer=2))
    t.add([gdspy.CellReference(a, (0, 0)), gdspy.CellReference(b, (5, 5))])
    f = io.StringIO()
    t.write_svg(f)
    d = Drawing(f.getvalue().encode("utf8"))
    layers = sorted(k for k, _ in d.polygons)
    m.check(layers == ["l1d0", "l2d0"] and not d.duplicates, "polygons", "cells 'A#' and 'A_' are drawn as one: %s" % layers, sig="hash-and-underscore-names")
    m.state("collision")
