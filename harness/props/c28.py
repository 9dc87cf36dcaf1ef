"""C28: the viewer draws the layout of the cell shown."""
import math
import re

import faketk

faketk.install()
import gdspy  # noqa: E402
import numpy as np  # noqa: E402

import geom  # noqa: E402
import hier  # noqa: E402

RULE = (
    "Viewers on random hierarchies are driven through a recording stand-in for tkinter with random commands: cells, depths (also typed ones that are no numbers), "
    "extents, zoom by buttons, wheel and rectangle, scrolling and dragging, ruler, layer visibility, filter expressions, colors, patterns, order of layers, information on double click. After each "
    "command the items of the canvas are compared with the own expansion of the hierarchy under one scale without offset. Non-trivial: something is drawn; distinct by command and what is shown."
)
ASSUMPTIONS = [
    "The stand-in keeps canvas items as the documentation of tk says (tags, stacking, scaling, visibility, scroll region); texts have a fixed font.",
    "The order of layers at the start is not judged, only that the list and the drawing have the same one.",
]
VARIANTS = ["plain"]
REQUIRED = [
    "polygons", "labels", "reference-boxes", "colors", "patterns", "visibility", "layer-list", "stacking", "extents", "pointer", "ruler", "zoom-wheel", "zoom-centre", "zoom-rectangle", "zoom-buttons",
    "information", "filter", "depth", "arguments", "no-cells", "empty-cells", "cell-choice",
]
ANCHORS = {"nw": "nw", "n": "n", "ne": "ne", "w": "w", "o": "center", "e": "e", "sw": "sw", "s": "s", "se": "se"}


def cases(tier):
    k = 6 if tier == "quick" else 120
    return [("session", 600 * k)]


class Expect(object):
    """What should be on the canvas."""

    def __init__(self, ex, cell, depth):
        self.polys = ex.polys(cell, depth)
        self.labels = [(m, l) for m, l in ex.elements(cell, "labels", depth)]
        self.keys = sorted({k for k, _ in self.polys if isinstance(k, tuple)} | {(l.layer, l.texttype) for _, l in self.labels})

    def box(self):
        return geom.bbox([p for _, p in self.polys]) if self.polys else None


class Session(object):
    def __init__(self, rng, m):
        self.rng, self.m = rng, m
        self.cells, self.c = hier.hierarchy(rng, n=rng.choice([1, 2, 3, 4]), limit=120)
        if rng.random() < 0.15:
            self.cells.append(gdspy.Cell("empty", exclude_from_current=True))
        if rng.random() < 0.1:
            self.cells.append(gdspy.Cell("texts", exclude_from_current=True).add(hier.label(rng, self.c)))
        self.ex = hier.Expansion()
        self.boxes = {}
        self.fits = {}
        self.log = []

    def start(self):
        rng, m = self.rng, self.m
        faketk.reset()
        keys = sorted({k for x in self.cells for k in Expect(self.ex, x, None).keys}) or [(0, 0)]
        kw = {}
        self.hidden = []
        if rng.random() < 0.4:
            self.hidden = rng.sample(keys, min(len(keys), rng.choice([1, 2])))
            kw["hidden_types"] = list(self.hidden)
        self.depth = 0
        if rng.random() < 0.7:
            self.depth = kw["depth"] = rng.choice([0, 1, 2, 5, -1])
        self.color, self.pattern = {}, {}
        if rng.random() < 0.5:
            self.color = {k: "#%06x" % rng.randrange(1 << 24) for k in rng.sample(keys, min(len(keys), rng.choice([1, 3])))}
            if rng.random() < 0.5:
                self.color["default"] = "#123456"
            kw["color"] = dict(self.color)
        if rng.random() < 0.5:
            self.pattern = {k: rng.randrange(10) for k in rng.sample(keys, min(len(keys), rng.choice([1, 3])))}
            if rng.random() < 0.5:
                self.pattern["default"] = rng.randrange(10)
            kw["pattern"] = dict(self.pattern)
        self.size = (800, 600)
        if rng.random() < 0.5:
            self.size = (rng.choice([300, 501, 1000]), rng.choice([200, 351, 900]))
            kw["width"], kw["height"] = self.size
        if rng.random() < 0.4:
            kw["background"] = rng.choice(["#FFFFFF", "#000000", "#808080"])
        given = {k: (list(v) if isinstance(v, list) else dict(v)) for k, v in kw.items() if isinstance(v, (list, dict))}
        self.given, self.kw = given, kw
        how = rng.choice(["library", "library", "cells", "both", "one", "current"])
        lib = gdspy.GdsLibrary("L")
        shown = list(self.cells)
        if how == "library":
            for x in self.cells:
                lib.add(x, include_dependencies=False)
            args = dict(library=lib)
        elif how == "cells":
            args = dict(cells=list(self.cells))
        elif how == "current":
            # the library in use when none is given
            gdspy.current_library = gdspy.GdsLibrary("C")
            try:
                gdspy.LayoutViewer()
                m.violate("cell-choice", "viewer of an empty library")
            except ValueError:
                m.seen("no-cells")
            faketk.reset()
            for x in self.cells:
                gdspy.current_library.add(x, include_dependencies=False)
            args = {}
        elif how == "one":
            shown = [rng.choice(self.cells)]
            args = dict(cells=shown[0])
        else:
            k = len(self.cells) // 2
            for x in self.cells[:k]:
                lib.add(x, include_dependencies=False)
            args = dict(library=lib, cells=self.cells[k:])
        self.shown = {x.name: x for x in shown}
        m.ctx(options=dict(kw, how=how), cells=[(x.name, len(x.polygons), len(x.paths), len(x.labels), len(x.references)) for x in self.cells])
        self.viewer = gdspy.LayoutViewer(**dict(args, **kw))
        if how == "current":
            gdspy.current_library = gdspy.GdsLibrary()
        W = faketk.CREATED
        cv = [w for w in W if isinstance(w, faketk.Canvas)]
        main = [w for w in cv if (str(w.options.get("width")), str(w.options.get("height"))) == tuple(str(v) for v in self.size)]
        self.canvas = main[0]
        self.list = [w for w in cv if w is not self.canvas][0]
        self.menu = [w for w in W if isinstance(w, faketk.OptionMenu)][0]
        self.spin = [w for w in W if isinstance(w, faketk.Spinbox)][0]
        self.button = {w.options.get("text"): w for w in W if isinstance(w, faketk.Button)}
        self.texts = [w for w in W if isinstance(w, faketk.Label)]
        m.check(sorted(self.menu.values) == sorted(self.shown), "cell-choice", "cells to choose from %s instead of %s" % (self.menu.values, sorted(self.shown)))
        self.name = self.menu.variable.get()
        m.check(self.name in self.shown, "cell-choice", "cell %r is shown first" % self.name)
        bg = self.canvas.options.get("bg", self.canvas.options.get("background"))
        m.check(str(bg).lower() == kw.get("background", "#202020").lower(), "background", "background %r instead of %r" % (bg, kw.get("background")))
        self.warned = 0
        self.colors = dict(self.color)
        self.patterns = dict(self.pattern)
        self.rule = None
        self.f = None
        self.look("start", fresh=True)

    # -- what is on the canvas
    def items(self, kind):
        return [self.canvas.items[i] for i in self.canvas.order if self.canvas.items[i]["kind"] == kind]

    def wanted(self):
        k = (self.name, self.depth)
        if k not in self.boxes:
            self.boxes[k] = Expect(self.ex, self.shown[self.name], self.depth)
        return self.boxes[k]

    def scale(self):
        """Canvas units per user unit, from what is drawn."""
        w = self.wanted()
        a = sum(np.abs(p).sum() for _, p in w.polys)
        b = sum(np.abs(i["coords"]).sum() for i in self.items("polygon"))
        if not w.polys:
            a = sum(np.abs(geom.apply(t, [l.position])).sum() for t, l in w.labels)
            b = sum(np.abs(i["coords"]).sum() for i in self.items("text"))
        if a > 0 and b > 0:
            return b / a
        return None

    def rows(self):
        """[(key, y, widgets)] of the list of layers, from bottom to top."""
        out = {}
        for i in self.list.order:
            it = self.list.items[i]
            out.setdefault(it["coords"][1], []).append(it["opts"]["window"])
        rows = []
        for y in sorted(out, reverse=True):
            t = [re.fullmatch(r"(-?\d+)/(-?\d+)", str(w.options.get("text", ""))) for w in out[y]]
            key = [tuple(int(v) for v in x.groups()) for x in t if x]
            rows.append((key[0] if key else None, y, out[y]))
        return rows

    def look(self, what, fresh=False):
        m, w = self.m, self.wanted()
        ps, ts = self.items("polygon"), self.items("text")
        named = [(k, p) for k, p in w.polys if not isinstance(k, tuple)]
        if not m.check(len(ps) == len(w.polys), "polygons", "%s: %d polygons drawn instead of %d" % (what, len(ps), len(w.polys))):
            return False
        f = self.f = self.scale()
        if w.polys:
            m.check(np.isfinite(f) and f > 0, "polygons", "%s: scale %r" % (what, f))
        size = max([1.0] + [np.abs(i["coords"]).max() for i in ps])
        tol = 1e-7 * size
        left = []
        for k, p in w.polys:
            left.append((k, np.asarray(p) * (f, -f)))
        hid = set(self.hidden)
        for it in ps:
            q = np.reshape(it["coords"], (-1, 2))
            dashed = bool(it["opts"].get("dash"))
            hit = [j for j, (k, p) in enumerate(left) if p.shape == q.shape and dashed == (not isinstance(k, tuple)) and geom.close_polys(p, q, tol)]
            if not hit:
                hit = [j for j, (k, p) in enumerate(left) if dashed == (not isinstance(k, tuple)) and geom.same_shape(p, q, tol)]
            # the same outline may be there on several layers
            o = it["opts"]
            good = [j for j in hit if not isinstance(left[j][0], tuple) or self.drawn_as(left[j][0], o, hid) is None]
            if not hit:
                m.violate("polygons", "%s: polygon %s is not in cell %r at depth %d" % (what, (q / (f, -f)).tolist()[:8], self.name, self.depth))
                return False
            if not good:
                k = left[hit[0]][0]
                clause, msg = self.drawn_as(k, o, hid)
                m.violate(clause, "%s: polygon on %s %s" % (what, k, msg))
                return False
            del left[good[0]]
        m.seen("polygons", len(ps) + 1)
        m.seen("colors", len(ps))
        m.seen("patterns", len(ps))
        m.seen("visibility", len(ps))
        # texts
        want = []
        for mp, l in w.labels:
            x = geom.apply(mp, [l.position])[0]
            k = (l.layer, l.texttype)
            want.append((k, l.text, ANCHORS.get(str(self.anchor(l)), "?"), x * (f, -f)))
        for k, p in named:
            want.append((None, k, "center", np.asarray(p).mean(0) * (f, -f)))
        if not m.check(len(ts) == len(want), "labels", "%s: %d texts drawn instead of %d" % (what, len(ts), len(want))):
            return False
        pos = max([size] + [np.abs(x[3]).max() for x in want])
        for it in ts:
            o = it["opts"]
            hit = None
            why = None
            for j, (k, t, a, x) in enumerate(want):
                if str(o.get("text")) == t and np.abs(np.array(it["coords"]) - x).max() <= 1e-7 * pos and o.get("anchor", "center") == a:
                    why = None if k is None else self.drawn_as(k, o, hid, True)
                    hit = j
                    if why is None:
                        break
            if hit is None:
                m.violate("labels", "%s: text %r at %s (anchor %s) is not in cell %r at depth %d" % (what, o.get("text"), (np.array(it["coords"]) / (f, -f)).tolist(), o.get("anchor"), self.name, self.depth))
                return False
            if why is not None:
                m.violate(why[0], "%s: text %r on %s %s" % (what, o.get("text"), want[hit][0], why[1]))
                return False
            del want[hit]
        m.seen("labels", len(ts))
        if named:
            m.seen("reference-boxes", len(named))
        # list of layers
        rows = self.rows()
        if not m.check(sorted(r[0] or (-1, -1) for r in rows) == w.keys, "layer-list", "%s: list of layers %s instead of %s" % (what, [r[0] for r in rows], w.keys)):
            return False
        # the list and the drawing have the same order
        bykey = {}
        for n, i in enumerate(self.canvas.order):
            it = self.canvas.items[i]
            for k in w.keys:
                if "L" + str(k) in it["tags"] or str(k) in it["tags"]:
                    bykey.setdefault(k, []).append(n)
        if sum(len(v) for v in bykey.values()) == sum(1 for k, _ in w.polys if isinstance(k, tuple)) + len(w.labels):
            for a, b in zip(rows[:-1], rows[1:]):
                m.check(max(bykey[a[0]]) < min(bykey[b[0]]), "stacking", "%s: layer %s is listed below %s and not drawn below" % (what, a[0], b[0]))
        ys = [r[1] for r in rows]
        m.check(len(set(np.round(np.diff(ys), 6))) <= 1, "layer-list", "%s: rows at %s" % (what, ys))
        if fresh:
            self.extents(what)
        return not m.violations

    def anchor(self, l):
        # as the attribute of labels is documented: an integer, the first two
        # bits are the column and the next ones the row
        return [["nw", "n", "ne"], ["w", "o", "e"], ["sw", "s", "se"]][l.anchor >> 2][l.anchor & 3]

    def drawn_as(self, k, o, hid, text=False):
        c = self.colors.get(k, self.colors.get("default"))
        if k in hid and o.get("state") != "hidden":
            return "visibility", "is drawn, although hidden"
        if k not in hid and o.get("state", "normal") not in ("normal", ""):
            return "visibility", "is %s" % o.get("state")
        if c is None:
            c = self.colors[k] = o.get("fill")
            if not re.fullmatch("#[0-9a-f]{6}", str(c)):
                return "colors", "has color %r" % c
        elif k not in self.colors:
            self.colors[k] = c
        if o.get("fill") != c or (not text and o.get("outline") != c):
            return "colors", "has colors %r and %r instead of %r" % (o.get("fill"), o.get("outline"), c)
        if not text:
            p = self.patterns.get(k, self.patterns.get("default"))
            s = re.search(r"(\d+)\.xbm$", str(o.get("stipple")))
            if s is None:
                return "patterns", "has pattern %r" % o.get("stipple")
            if p is None:
                p = self.patterns[k] = int(s.group(1))
            elif k not in self.patterns:
                self.patterns[k] = p
            if p != int(s.group(1)):
                return "patterns", "has pattern %r instead of %d" % (o.get("stipple"), p)
        return None

    def window(self):
        c = self.canvas
        return c.origin[0], c.origin[1], c.origin[0] + c.winfo_width(), c.origin[1] + c.winfo_height()

    def extents(self, what):
        w, m = self.wanted(), self.m
        b = w.box()
        if b is None:
            m.check(len(faketk.DIALOGS) > self.warned and faketk.DIALOGS[-1][0] == "showwarning", "empty-cells", "%s: no warning for empty cell" % what)
            self.warned = len(faketk.DIALOGS)
            return
        f = self.f
        x = self.window()
        got = np.array([np.reshape(i["coords"], (-1, 2)).min(0) for i in self.items("polygon")]).min(0), np.array([np.reshape(i["coords"], (-1, 2)).max(0) for i in self.items("polygon")]).max(0)
        t = 1.0
        ok = got[0][0] >= x[0] - t and got[0][1] >= x[1] - t and got[1][0] <= x[2] + t and got[1][1] <= x[3] + t
        m.check(ok, "extents", "%s: drawing from %s to %s in a window showing %s" % (what, got[0].tolist(), got[1].tolist(), x))
        d = (b[1] - b[0]) * f
        m.check(max(d[0] / self.size[0], d[1] / self.size[1]) >= 0.3, "extents", "%s: drawing of size %s in a window of %s" % (what, d.tolist(), self.size))
        # the extents of a cell are the same whenever they are asked for
        g = self.fits.setdefault((self.name, self.depth), f)
        m.check(abs(f - g) <= 0.01 * g, "extents", "%s: extents shown with scale %r, before %r" % (what, f, g))
        del w

    # -- commands
    def step(self):
        rng = self.rng
        op = rng.choice(self.OPS)
        self.log.append(op)
        self.m.ctx(commands=self.log[-14:])
        if self.f is None and op in ("move", "click", "drag", "wheel", "button", "rectangle", "info", "scroll"):
            op = "cell"  # (nothing is drawn)
        n = getattr(self, "op_" + op)()
        w = self.wanted()
        self.m.state(op, len(self.cells), self.depth, min(5, len(w.polys)), bool(w.labels), len(w.keys), len(self.hidden), self.rule is not None, n)
        return self.look(op, op in ("cell", "home"))

    def op_cell(self):
        self.name = self.rng.choice(sorted(self.shown))
        self.rule = None
        self.menu.variable.set(self.name)

    def op_home(self):
        k = self.rng.choice(["button", "Home", "a", "A"])
        self.rule = None
        if k == "button":
            self.button["Extents"].invoke()
        else:
            self.fire(faketk.ROOT, "<KeyPress-%s>" % k, self.ev(0, 0))

    def op_depth(self):
        v = self.spin.options["textvariable"]
        d = self.rng.choice([-1, 0, 1, 2, 3, 6, "", "x"])
        v.set(d)
        before = self.canvas.winfo_width(), self.f
        if self.rng.random() < 0.6:
            self.spin.invoke()
        else:
            self.fire(self.spin, "<FocusOut>", self.ev(0, 0))
        if isinstance(d, int):
            if d != self.depth:
                self.rule = None
            self.depth = d
            had = before[1] is not None and self.scale() is not None
        else:
            self.m.check(str(v.get()) == str(self.depth), "depth", "%r typed as depth leaves %r instead of %r" % (d, v.get(), self.depth))
            had = before[1] is not None
        self.m.check(not had or abs(self.scale() - before[1]) <= 1e-6 * before[1], "depth", "a change of depth changes the scale from %r to %r" % (before[1], self.scale()))

    def ev(self, x, y, **kw):
        return faketk.Event(x, y, widget=self.canvas, **kw)

    def fire(self, w, seq, ev):
        w.fire(seq, ev)

    def pointer(self):
        # (not on the border of the window)
        return self.rng.randrange(5, self.size[0] - 5), self.rng.randrange(5, self.size[1] - 5)

    def at(self, x, y):
        """Canvas coordinates of a point of the window."""
        return self.canvas.origin[0] + x, self.canvas.origin[1] + y

    def design(self, x, y):
        a, b = self.at(x, y)
        return a / self.f, -b / self.f

    def coords(self):
        t = [w.options.get("text", "") for w in self.texts if re.search(r"^-?[\d.]+(e[-+]?\d+)?, |Distance", str(w.options.get("text", "")))]
        return t[-1] if t else ""

    def near(self, text, want, tol):
        g = [float(v) for v in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", text)]
        return len(g) == len(want) and all(abs(a - b) <= 1e-5 * abs(b) + tol for a, b in zip(g, want))

    def op_move(self):
        x, y = self.pointer()
        self.fire(self.canvas, "<Motion>", self.ev(x, y))
        p = self.design(x, y)
        tol = 1e-6 * (abs(p[0]) + abs(p[1])) + 1e-9 * self.c.s
        if self.rule is None:
            self.m.check(self.near(self.coords(), p, tol), "pointer", "position %r instead of %s" % (self.coords(), p))
        else:
            q = self.rule
            d = (p[0] - q[0], p[1] - q[1])
            tol += 1e-6 * (abs(q[0]) + abs(q[1]))
            self.m.check(self.near(self.coords(), (math.hypot(*d),) + d, tol), "ruler", "%r instead of %s" % (self.coords(), (math.hypot(*d),) + d))
            l = self.items("line")
            if self.m.check(len(l) == 1, "ruler", "%d rulers" % len(l)):
                e = np.reshape(l[0]["coords"], (-1, 2)) / (self.f, -self.f)
                self.m.check(np.abs(e - np.array([q, p])).max() <= 10 * tol + 1e-6 * np.abs(e).max(), "ruler", "ruler from %s to %s instead of %s to %s" % (e[0].tolist(), e[-1].tolist(), q, p))

    def click(self, x, y):
        self.fire(self.canvas, "<Button-1>", self.ev(x, y))
        self.fire(self.canvas, "<ButtonRelease-1>", self.ev(x, y))

    def op_click(self):
        x, y = self.pointer()
        self.click(x, y)
        if self.rule is None:
            self.rule = self.design(x, y)
            self.m.check(len(self.items("line")) == 1, "ruler", "%d rulers after a click" % len(self.items("line")))
        else:
            self.rule = None
            self.m.check(not self.items("line"), "ruler", "%d rulers after two clicks" % len(self.items("line")))

    def op_scroll(self):
        k = self.rng.choice(["<Button-4>", "<Button-5>", "<Shift-Button-4>", "<Shift-Button-5>", "<MouseWheel>"])
        old = self.scale()
        self.fire(self.canvas, k, self.ev(*self.pointer(), delta=self.rng.choice([-120, 120])))
        self.m.check(self.scale() == old, "pointer", "scrolling changes the scale")

    def op_drag(self):
        x, y = self.pointer()
        self.fire(self.canvas, "<Button-2>", self.ev(x, y))
        before = list(self.canvas.origin)
        x2, y2 = x + self.rng.randrange(-3, 4), y + self.rng.randrange(-3, 4)
        self.fire(self.canvas, "<Motion>", self.ev(x2, y2, state=0x200))
        now = self.canvas.origin
        for k, d in ((0, x2 - x), (1, y2 - y)):
            # (never out of the scroll region)
            self.m.check(now[k] in (before[k], before[k] - d) or abs(now[k] - before[k]) < abs(d), "pointer", "dragging by %d moves the view from %r to %r" % (d, before[k], now[k]))

    def unconfined(self):
        """Is the view inside the scroll region (so that tk did not move it)?"""
        r, w = self.canvas.region(), self.window()
        e = 2
        return r[0] < w[0] - e and r[1] < w[1] - e and r[2] > w[2] + e and r[3] > w[3] + e

    def zoomed(self, old, up, clause):
        f = self.scale()
        self.m.check((f > old * 1.01) if up else (f < old / 1.01), clause, "zoom %s changes the scale from %r to %r" % ("in" if up else "out", old, f))

    def op_wheel(self):
        if not 1e-3 < self.f * self.c.s < 1e7:
            return self.op_home_quiet()
        x, y = self.pointer()
        p = self.design(x, y)
        up = self.rng.random() < 0.6
        old = self.scale()
        k = self.rng.choice(["wheel", "buttons"])
        if k == "buttons":
            self.fire(self.canvas, "<Control-Button-%d>" % (4 if up else 5), self.ev(x, y, num=4 if up else 5))
        else:
            self.fire(faketk.ROOT, "<Control-MouseWheel>", self.ev(x, y, delta=120 if up else -120, num="??"))
        self.zoomed(old, up, "zoom-wheel")
        self.f = self.scale()
        if self.canvas.bbox("all") and self.unconfined():
            q = self.design(x, y)
            d = math.hypot(q[0] - p[0], q[1] - p[1]) * self.f
            self.m.check(d <= 8, "zoom-wheel", "the point under the pointer moves by %g pixels" % d)
            return "free"

    def op_home_quiet(self):
        self.log.append("home")
        self.op_home()

    def op_button(self):
        if not 1e-3 < self.f * self.c.s < 1e7:
            return self.op_home_quiet()
        up = self.rng.random() < 0.6
        old = self.scale()
        faketk.idle()
        w, r, b, still = self.window(), self.canvas.region(), self.canvas.bbox("all"), self.unconfined()
        self.button["In" if up else "Out"].invoke()
        self.zoomed(old, up, "zoom-buttons")
        w1, r1, b1 = self.window(), self.canvas.region(), self.canvas.bbox("all")
        if not b or not still or not self.unconfined():
            return
        s = self.scale() / old
        # (the scroll region has margins that depend on the last command, and
        # texts do not grow)
        if max(abs(s * x - y) for x, y in zip(list(r) + list(b), list(r1) + list(b1))) <= 8:
            d = max(abs(0.5 * (s * (w[k] + w[k + 2]) - w1[k] - w1[k + 2])) for k in (0, 1))
            self.m.check(d <= 20 + 0.01 * max(self.size), "zoom-centre", "zooming with the buttons moves the middle of the view by %g pixels" % d)

    def op_rectangle(self):
        if self.f * self.c.s > 1e6:
            return self.op_home_quiet()
        if self.rule is not None:
            return
        (x0, y0), (x1, y1) = self.pointer(), self.pointer()
        if abs(x0 - x1) < 5 or abs(y0 - y1) < 5:
            return
        a, b = self.design(x0, y0), self.design(x1, y1)
        old = self.scale()
        self.fire(self.canvas, "<Button-1>", self.ev(x0, y0))
        for k in (0.5, 1):
            self.fire(self.canvas, "<Motion>", self.ev(x0 + int(k * (x1 - x0)), y0 + int(k * (y1 - y0)), state=0x100))
            self.m.check(len(self.items("rectangle")) == 1, "zoom-rectangle", "%d rectangles while dragging" % len(self.items("rectangle")))
        self.fire(self.canvas, "<ButtonRelease-1>", self.ev(x1, y1))
        self.m.check(not self.items("rectangle") and not self.items("line"), "zoom-rectangle", "the rectangle stays")
        want = old * min(self.size[0] / abs(x0 - x1), self.size[1] / abs(y0 - y1))
        f = self.f = self.scale()
        self.m.check(abs(f - want) <= 0.02 * want, "zoom-rectangle", "scale %r instead of %r" % (f, want))
        if self.canvas.bbox("all") and self.unconfined():
            w = self.window()
            c = (0.5 * (a[0] + b[0]) * f, -0.5 * (a[1] + b[1]) * f)
            d = math.hypot(0.5 * (w[0] + w[2]) - c[0], 0.5 * (w[1] + w[3]) - c[1])
            self.m.check(d <= 12, "zoom-rectangle", "the middle of the rectangle is %g pixels from the middle of the window" % d)
            return "free"

    def row(self):
        r = self.rows()
        return self.rng.choice(r) if r else None

    def named(self, row):
        return [w for w in row[2] if re.fullmatch(r"-?\d+/-?\d+", str(w.options.get("text", "")))][0]

    def op_hide(self):
        r = self.row()
        if r is None:
            return
        self.fire(self.named(r), "<Button-1>", self.ev(1, 1))
        if r[0] in self.hidden:
            self.hidden.remove(r[0])
        else:
            self.hidden.append(r[0])

    def op_others(self):
        r = self.row()
        others = [x[0] for x in self.rows() if r is not None and x[0] != r[0]]
        if not others:
            return
        was = set(self.hidden)
        self.fire(self.named(r), self.rng.choice(["<Button-2>", "<Button-3>"]), self.ev(1, 1))
        # either all others are hidden or all of them are shown
        state = set()
        for i in self.canvas.order:
            it = self.canvas.items[i]
            for k in others:
                if "L" + str(k) in it["tags"]:
                    state.add(it["opts"].get("state", "normal") or "normal")
        self.m.check(len(state) <= 1, "visibility", "other layers are %s after a click for all of them" % sorted(state))
        now = "hidden" if "hidden" in state else "normal"
        if was.issuperset(others):
            self.m.check(now == "normal", "visibility", "other layers stay hidden")
        if not was.intersection(others):
            self.m.check(now == "hidden", "visibility", "other layers stay visible")
        self.hidden = [k for k in self.hidden if k not in others] + (others if now == "hidden" else [])

    def wait(self, f):
        faketk.SCRIPT["wait"] = f

    def op_filter(self):
        rng = self.rng
        keys = [r[0] for r in self.rows()]
        if not keys:
            return
        groups = []

        def part(v):
            out = []
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(["any", "one", "one", "range"])
                a = rng.choice([v, rng.randrange(5)])
                out.append(dict(any=(None, "*"), one=((a, a), "%d" % a), range=((a, a + rng.randrange(3)), None))[k])
                if out[-1][1] is None:
                    out[-1] = (out[-1][0], rng.choice(["%d-%d", "%d - %d"]) % out[-1][0])
            return [o[0] for o in out], rng.choice([",", ", "]).join(o[1] for o in out)

        text = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice(keys)
            a, s = part(k[0])
            b, t = part(k[1])
            groups.append((a, b))
            text.append(rng.choice(["(%s/%s)", "( %s / %s )"]) % (s, t))
        text = rng.choice([",", ", ", " ,"]).join(text)
        bad = rng.random() < 0.2
        if bad:
            text = rng.choice(["", "1/2", "(1)", "(a/*)", "(1/2", text + ";", "(1/2)(3/4)"])
        cancel = rng.random() < 0.2

        def fits(v, rs):
            return any(r is None or r[0] <= v <= r[1] for r in rs)

        def answer(dlg):
            e = [w for w in faketk.CREATED if isinstance(w, faketk.Entry)][-1]
            e.options["textvariable"].set(text)
            bs = {w.options.get("text"): w for w in faketk.CREATED if isinstance(w, faketk.Button)}
            if cancel:
                bs["Cancel"].invoke() if rng.random() < 0.5 else dlg.fire("<KeyPress-Escape>", self.ev(0, 0))
            elif rng.random() < 0.5:
                bs["OK"].invoke()
            else:
                dlg.fire("<KeyPress-Return>", self.ev(0, 0))
            self.m.check(dlg.destroyed, "filter", "the dialog stays")

        self.wait(answer)
        self.button["Filter..."].invoke()
        self.wait(None)
        self.m.ctx(filter=text)
        if not bad and not cancel:
            self.rule = None
            self.hidden = [k for k in keys if not any(fits(k[0], a) and fits(k[1], b) for a, b in groups)]
        self.m.seen("filter")
        return "bad" if bad else "cancel" if cancel else "ok"

    def op_color(self):
        r = self.row()
        if r is None:
            return
        c = self.rng.choice([None, "#%06x" % self.rng.randrange(1 << 24)])
        faketk.SCRIPT["color"] = (None, None) if c is None else ((1, 2, 3), c)
        self.colors.setdefault(r[0], self.colors.get("default"))
        self.fire(r[2][0], "<Button-1>", self.ev(1, 1))
        if c:
            self.colors[r[0]] = c

    def op_pattern(self):
        r = self.row()
        if r is None:
            return
        n = self.rng.choice([None] + list(range(10)))

        def answer(dlg):
            bs = [w for w in faketk.CREATED if isinstance(w, faketk.Button) and w.master is dlg]
            if n is None:
                [w for w in bs if w.options.get("text") == "Cancel"][0].invoke()
            else:
                [w for w in bs if str(w.options.get("bitmap")).endswith("%02d.xbm" % n)][0].invoke()

        self.wait(answer)
        self.fire(r[2][0], self.rng.choice(["<Button-2>", "<Button-3>"]), self.ev(1, 1))
        self.wait(None)
        if n is not None:
            self.patterns[r[0]] = n

    def arrow(self, name):
        rows = self.rows()
        if not rows:
            return
        k = self.rng.randrange(len(rows))
        w = [w for w in rows[k][2] if str(w.options.get("bitmap")).endswith(name + ".xbm")][0]
        self.fire(w, "<Button-1>", self.ev(1, 1))
        want = [r[0] for r in rows]
        j = k + (1 if name == "up" else -1)
        if 0 <= j < len(want):
            want[k], want[j] = want[j], want[k]
        self.m.check([r[0] for r in self.rows()] == want, "stacking", "moving %s %s gives %s instead of %s" % (rows[k][0], name, [r[0] for r in self.rows()], want))

    def op_up(self):
        self.arrow("up")

    def op_down(self):
        self.arrow("down")

    def op_info(self):
        w = self.wanted()
        vis = [(k, np.asarray(p)) for k, p in w.polys if k not in self.hidden and len(p) >= 3]
        if not vis or not self.f:
            return
        k, p = self.rng.choice(vis)
        a, b = p.min(0), p.max(0)
        for _ in range(20):
            q = np.array([self.rng.uniform(a[0], b[0]), self.rng.uniform(a[1], b[1])])
            if geom.contains([p], q[None])[0] and geom.dist_to_edges([p], q[None])[0] * self.f > 0.01:
                break
        else:
            return
        n = len(faketk.DIALOGS)
        x, y = q[0] * self.f - self.canvas.origin[0], -q[1] * self.f - self.canvas.origin[1]
        self.fire(self.canvas, "<Double-Button-1>", self.ev(x, y))
        self.fire(self.canvas, "<ButtonRelease-1>", self.ev(x, y))
        had = self.rule is not None
        self.rule = None if had else self.design(x, y)
        self.warned = len(faketk.DIALOGS)
        if len(faketk.DIALOGS) == n:
            # (a text is closest)
            boxes = [self.canvas.box(i) for i in self.canvas.order if self.canvas.items[i]["kind"] == "text"]
            cx, cy = self.at(x, y)
            self.m.check(any(v and v[0] - 1 <= cx <= v[2] + 1 and v[1] - 1 <= cy <= v[3] + 1 for v in boxes), "information", "no information on a polygon of layer %s" % (k,))
            return "text"
        msg = faketk.DIALOGS[-1][2]
        ok = False
        under = [(kk, pp) for kk, pp in vis if faketk.poly_dist(list((pp * self.f).ravel()), *(q * self.f)) < 1.5]
        t = re.search(r": *(.*)\nVertices: *(\d+)\n[^\n]*\n\((\S+), (\S+)\) - \((\S+), (\S+)\)", msg)
        if t:
            bb = [float(v) for v in t.groups()[2:]]
            for kk, pp in under:
                e = np.concatenate((pp.min(0), pp.max(0)))
                if t.group(1) == str(kk) and int(t.group(2)) == len(pp) and np.abs(np.array(bb) - e).max() <= 3 / self.f + 1e-5 * np.abs(e).max():
                    ok = True
        self.m.check(ok, "information", "%r at %s where there are %s" % (msg, q.tolist(), [(kk, len(pp), pp.min(0).tolist(), pp.max(0).tolist()) for kk, pp in under]))

    OPS = ["cell", "home", "depth", "depth", "move", "move", "click", "scroll", "drag", "wheel", "wheel", "button", "rectangle", "hide", "hide", "others", "filter", "color", "pattern", "up", "down", "info"]


def run_case(kind, index, rng, m):
    s = Session(rng, m)
    s.start()
    for _ in range(rng.choice([6, 12, 20])):
        if m.violations or not s.step():
            return
    m.check({k: v for k, v in s.kw.items() if k in s.given} == s.given, "arguments", "the viewer changes its arguments: %s became %s" % (s.given, s.kw))
    hidden = list(s.hidden)
    # the next viewer starts with what it is given
    keep = dict(s.kw)
    t = Session(rng, m)
    t.cells, t.c, t.ex = s.cells, s.c, s.ex
    m.ctx(second_viewer_after_hiding=hidden, commands=[], first=keep)
    t.start()
