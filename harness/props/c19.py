"""C19: robust paths are the curves, widths and offsets they were given."""
import copy
import io
import math
import warnings

import gdspy
import numpy as np

import gds
import geom
import hobbyref
import stroke
from props.c18 import layers, parallel, pick, end_options, polyline, judge_points, by_key, rounded, arc_chords
from stroke import Stroke

RULE = (
    "Random chains of sections of every kind with constant, linear, callable and listed width and offset laws, one to four parallel paths, every "
    "end style. Exact functions of the same sections (own code) give centres, sides, widths and directions, compared with evaluation anywhere and "
    "on both sides of every joint; the region of the polygons is compared by points with the exact bands, joins and caps, sides and "
    "caps stay within the requested tolerance of the exact curves, the saved points with "
    "the exact centre lines. Non-trivial: more than one section, a law or an offset; distinct by sections, laws, styles and tolerance."
)
ASSUMPTIONS = [
    "Laws vary slowly (no self-overlap of the outline), sections are longer than widths and offsets need.",
    "Directions, calculated numerically by gdspy, are compared to 5e-3 rad.",
    "Points closer to the expected outline than twice the tolerance (plus 1e-4 of the size) are not judged.",
]
REQUIRED = ["centre", "sides", "width", "direction", "continuous", "region", "corner-region", "joint-region", "crossing", "crossing-region", "saved-spine", "fractured", "layers", "one-width", "loops", "shared-tapers", "within-tolerance", "coincident-control-points"]


def cases(tier):
    k = 5 if tier == "quick" else 100
    return [("evaluate", 60 * k), ("curved", 50 * k), ("corners", 40 * k), ("joint", 20 * k), ("crossing", 30 * k), ("saved", 15 * k), ("within", 24 * k), ("retracted", 15 * k)]


class Sec(object):
    """An exact section: functions of u in [0, 1] (arrays) for centre and direction."""

    def __init__(self, f, d):
        self.f, self.d = f, d

    def frame(self, u):
        u = np.asarray(u, dtype=float)
        c, d = self.f(u), self.d(u)
        t = d / np.hypot(d[:, 0], d[:, 1])[:, None]
        return c, t, np.stack((t[:, 1], -t[:, 0]), axis=1)  # to the right


class Law(object):
    """Widths and offsets of one path along one section."""

    def __init__(self, w, o):
        self.w, self.o = w, o


def vec(f):
    return lambda u: np.array([float(f(x)) for x in np.atleast_1d(u)])


def line(a, b):
    return lambda u: a + (b - a) * np.asarray(u, dtype=float)


def wave(rng, a, amp):
    """A smooth law from a; returns (python function, final value)."""
    k = rng.choice([0.5, 1, 2])
    kind = rng.randrange(3)
    if kind == 0:
        return lambda u: a + amp * math.sin(k * math.pi * u), a + amp * math.sin(k * math.pi)
    if kind == 1:
        return lambda u: a + amp * u * u, a + amp
    return lambda u: a + amp * (3 * u * u - 2 * u ** 3), a + amp


def laws(rng, s, w, o, fixed=False):
    """(width argument, offset argument, [Law], final widths, final offsets)."""
    k = len(w)
    form = rng.choice(["none", "none", "number", "list", "call", "mixed"]) if not fixed else "none"
    lim = lambda x: min(max(x, 0.02 * s), 0.07 * s)
    if form == "none":
        wa, wl, w1 = None, [line(x, x) for x in w], list(w)
    elif form == "number":
        wa = rng.uniform(0.03, 0.06) * s
        wl, w1 = [line(x, wa) for x in w], [wa] * k
    elif form == "list":
        wa = [lim(x * rng.uniform(0.6, 1.5)) for x in w]
        wl, w1 = [line(x, y) for x, y in zip(w, wa)], list(wa)
    elif form == "call":
        a = w[0]
        f, e = wave(rng, a, rng.uniform(-0.3, 0.4) * a)
        if any(abs(x - a) > 1e-12 for x in w):  # the same law for all paths: keep it continuous
            wa, wl, w1 = None, [line(x, x) for x in w], list(w)
        else:
            wa, wl, w1 = f, [vec(f)] * k, [e] * k
    else:
        wa, wl, w1 = [], [], []
        for x in w:
            if rng.random() < 0.5:
                f, e = wave(rng, x, rng.uniform(-0.3, 0.4) * x)
                wa.append(f)
                wl.append(vec(f))
                w1.append(e)
            else:
                y = lim(x * rng.uniform(0.6, 1.5))
                wa.append(y)
                wl.append(line(x, y))
                w1.append(y)
    form2 = rng.choice(["none", "none", "number", "list", "call", "mixed"])
    d = lambda: rng.uniform(-0.03, 0.03) * s
    if form2 == "none":
        oa, ol, o1 = None, [line(x, x) for x in o], list(o)
    elif form2 == "number":
        oa = d()
        ol, o1 = [line(x, x + oa) for x in o], [x + oa for x in o]
    elif form2 == "list":
        oa = [x + d() for x in o]
        ol, o1 = [line(x, y) for x, y in zip(o, oa)], list(oa)
    elif form2 == "call":
        f, e = wave(rng, 0.0, d())
        oa = f
        ol, o1 = [(lambda u, x=x: x + vec(f)(u)) for x in o], [x + e for x in o]
    else:
        oa, ol, o1 = [], [], []
        for x in o:
            if rng.random() < 0.5:
                f, e = wave(rng, x, d())
                oa.append(f)
                ol.append(vec(f))
                o1.append(e)
            else:
                y = x + d()
                oa.append(y)
                ol.append(line(x, y))
                o1.append(y)
    return wa, oa, [Law(a, b) for a, b in zip(wl, ol)], w1, o1, (form, form2)


def make(rng, s, p, a, kind):
    """(section name, args, kwargs, [Sec], end point, end direction)."""
    e, b = np.array((math.cos(a), math.sin(a))), np.array((-math.sin(a), math.cos(a)))
    rel = rng.random() < 0.5
    col = lambda u: np.asarray(u, dtype=float)[:, None]
    p = np.array(p)
    if kind == "segment":
        v = s * rng.uniform(0.6, 1) * e
        sec = Sec(lambda u: p + col(u) * v, lambda u: np.tile(v, (len(u), 1)))
        return "segment", (tuple(v if rel else p + v),), dict(relative=rel), [sec], p + v, a
    if kind in ("turn", "arc"):
        r, t = s * rng.uniform(0.4, 0.8), rng.choice([-1, 1]) * rng.choice([math.pi / 2, math.pi, rng.uniform(0.1, 2.5)])
        a0 = a - math.copysign(math.pi / 2, t)
        f0 = np.array((math.cos(a0), math.sin(a0)))
        rad = lambda u: np.stack((np.cos(a0 + t * np.asarray(u)), np.sin(a0 + t * np.asarray(u))), axis=1)
        sec = Sec(lambda u: p + r * (rad(u) - f0), lambda u: r * t * stroke.left(rad(u)))
        q = p + r * (np.array((math.cos(a0 + t), math.sin(a0 + t))) - f0)
        if kind == "turn":
            word = {math.pi / 2: "l", -math.pi / 2: "r", math.pi: "ll", -math.pi: "rr"}.get(t)
            return "turn", (r, word if word and rng.random() < 0.5 else t), {}, [sec], q, a + t
        return "arc", (r, a0, a0 + t), {}, [sec], q, a + t
    if kind == "parametric":
        h = rng.uniform(-0.4, 0.4) * s
        base = np.zeros(2) if rel else p
        f = lambda x: base + x * s * e + x * x * h * b
        kw = dict(relative=rel)
        if rng.random() < 0.5:
            kw["curve_derivative"] = lambda x: s * e + 2 * x * h * b
        sec = Sec(lambda u: p + col(u) * s * e + col(u) ** 2 * h * b, lambda u: s * e + 2 * col(u) * h * b)
        return "parametric", (f,), kw, [sec], p + s * e + h * b, a + math.atan2(2 * h, s)
    if kind == "bezier":
        h = rng.uniform(-0.4, 0.4) * s
        ctrl = [0.4 * s * e, 0.8 * s * e + h * b]
        if rng.random() < 0.6:
            ctrl.append(1.1 * s * e + (h + rng.uniform(-0.2, 0.2) * s) * b)
        full = p + np.vstack(([(0, 0)], ctrl))
        v = full[-1] - full[-2]
        return "bezier", ([tuple(x) for x in (ctrl if rel else full[1:])],), dict(relative=rel), [bez(full)], full[-1], math.atan2(v[1], v[0])
    kw = {}
    if kind == "cycle":
        # a loop back to the start
        n = rng.choice([2, 3, 4])
        r, t = 0.6 * s, rng.choice([-1, 1])
        q = []
        for i in range(1, n + 1):
            z = t * 2 * math.pi * i / (n + 1) + rng.uniform(-0.2, 0.2)
            q.append(p + r * rng.uniform(0.85, 1.15) * (t * (1 - math.cos(z)) * b + abs(math.sin(z)) * math.copysign(1, t * math.sin(z)) * e))
        full = np.vstack(([p], q))
        kw["cycle"] = True
    else:
        q = [p + 0.7 * s * e + rng.uniform(-0.2, 0.2) * s * b]
        if rng.random() < 0.5:
            q.append(q[0] + 0.7 * s * e + rng.uniform(-0.2, 0.2) * s * b)
        full = np.vstack(([p], q))
    ch = np.arctan2(*(np.roll(full, -1, axis=0) - full)[: len(full) - (kind != "cycle")].T[::-1])
    ang = [ch[0] + hobbyref.reduce(a - ch[0])] + [None] * len(q)
    if kind != "cycle" and rng.random() < 0.4:
        ang[-1] = ch[-1] + hobbyref.reduce(a + rng.uniform(-0.6, 0.6) - ch[-1])
    if rng.random() < 0.3:
        kw.update(t_in=rng.choice([1.2, 0.9]), t_out=rng.choice([1.1, [rng.uniform(0.9, 1.3) for _ in full]]))
    if kind != "cycle" and ang[-1] is None and rng.random() < 0.3:
        kw["curl_end"] = rng.choice([0.5, 2])
    secs = []
    for z in hobbyref.controls(full, ang, **kw):
        secs.append(np.array([(v.real, v.imag) for v in z]))
    v = secs[-1][-1] - secs[-1][-2]
    return "smooth", ([tuple(x - p if rel else x) for x in q], ang), dict(kw, relative=rel), [bez(c) for c in secs], secs[-1][-1], math.atan2(v[1], v[0])


def bez(c):
    return Sec(lambda u: hobbyref.bezier(c, u), lambda u: (len(c) - 1) * hobbyref.bezier(c[1:] - c[:-1], u))


class Exact(object):
    """The exact parallel paths."""

    def __init__(self, k):
        self.secs, self.laws = [], []  # laws[section][path]
        self.k = k
        self.slack = 0  # position errors from numerical directions
        self.numeric = []  # sections without an exact derivative

    def line(self, i, kk, u):
        """Centres of path kk along section i."""
        c, t, r = self.secs[i].frame(u)
        return c + self.laws[i][kk].o(u)[:, None] * r

    def frame(self, i, kk, u):
        """(centres, directions, right normals, widths) of path kk."""
        u = np.asarray(u, dtype=float)
        h = 1e-6
        x = self.line(i, kk, u)
        # (the functions go on a little outside of [0, 1])
        d = self.line(i, kk, u + h) - self.line(i, kk, u - h)
        speed = np.hypot(d[:, 0], d[:, 1])
        t = d / speed[:, None]
        return x, t, np.stack((t[:, 1], -t[:, 0]), axis=1), self.laws[i][kk].w(u), d / (2 * h)

    def band(self, i, kk, n=300):
        x, t, r, w, _ = self.frame(i, kk, np.linspace(0, 1, n))
        return np.vstack((x + 0.5 * w[:, None] * r, (x - 0.5 * w[:, None] * r)[::-1]))

    def side(self, i, kk, u, sg):
        x, t, r, w, _ = self.frame(i, kk, np.atleast_1d(u))
        return x + sg * 0.5 * w[:, None] * r

    def side_dir(self, i, kk, u, sg):
        h = 1e-6
        v = self.side(i, kk, u + h, sg) - self.side(i, kk, u - h, sg)
        return v[0] / np.hypot(*v[0])

    def caps(self, kk, end, n=None):
        out = []
        for which in (0, 1):
            i, u = (0, 0.0) if which == 0 else (len(self.secs) - 1, 1.0)
            x, t, r, w, _ = self.frame(i, kk, [u])
            d = -t[0] if which == 0 else t[0]
            if end == "smooth":
                pr, pl = self.side(i, kk, u, 1)[0], self.side(i, kk, u, -1)[0]
                sg = -1 if which == 0 else 1
                out.append(stroke.fit(pr, sg * self.side_dir(i, kk, u, 1), pl, -sg * self.side_dir(i, kk, u, -1), n or 64))
                continue
            st = Stroke([x[0], x[0] - d] if which == 0 else [x[0] - d, x[0]], [w[0], w[0]])
            if n and end == "round":
                b = math.atan2(d[1], d[0])
                out.append(stroke.sector(x[0], 0.5 * w[0], b - math.pi / 2, b + math.pi / 2, n))
                continue
            style, ext = ("tuple", end) if isinstance(end, tuple) else (end, None)
            out += st.cap(which, style, ext)
        return out


def run_case(kind, index, rng, m):
    s = rng.choice([1.0, 20.0, 1000.0])
    globals()["case_" + kind](rng, m, s)


def case_retracted(rng, m, s):
    """Bezier sections with coincident control points at their ends."""
    stroke.retracted(rng, m, s, "robust")


def start(rng, s, **kw):
    wa, oa, w, o = parallel(rng, s)
    k = len(w)
    la, l, ta, t = layers(rng, k)
    ea, ends = pick(rng, end_options(rng, s), k)
    tol = rng.choice([1e-3, 1e-4, 1e-5]) * s
    if kw.get("gdsii_path"):
        opts = [e for e in end_options(rng, s) if e != "smooth"]
        ea, ends = pick(rng, opts, k)
    p0 = (rng.uniform(-s, s), rng.uniform(-s, s))
    args = dict(ends=ea, tolerance=tol, precision=1e-7 * s, max_points=0, layer=la, datatype=ta)
    args.update(kw)
    p = gdspy.RobustPath(p0, copy.copy(wa), copy.copy(oa), **args)
    m = dict(start=p0, width=wa, offset=oa, ends=repr(ea), tol=tol)
    return p, p0, list(map(float, w)), list(map(float, o)), l, t, ends, tol, m


def chain(rng, m, s, p, p0, w, o, info, n, fixed=False, loops=False):
    """Adds n sections that continue smoothly; the exact path."""
    ex = Exact(len(w))
    a = rng.choice([0, math.pi / 2, math.pi, rng.uniform(-3, 3)])
    x = np.array(p0)
    log, forms = [], []
    for i in range(n):
        kind = rng.choice(["segment", "turn", "arc", "bezier", "parametric", "smooth"])
        if kind == "turn" and (i == 0 or (forms and forms[-1][1] != "none")):
            kind = "arc"  # (turns start in the mean direction of the parallel paths)
        if loops and i == n - 1 and rng.random() < 0.2:
            kind = "cycle"
        name, args, kw, secs, x, a = make(rng, s, x, a, kind)
        wa, oa, ls, w1, o1, form = laws(rng, s, w, o, fixed)
        ls = [ls]
        if len(secs) > 1:
            if form[0] not in ("none", "number", "list"):
                wa, w1, form = None, list(w), ("none", form[1])
            if form[1] not in ("none", "number", "list"):
                oa, o1, form = None, list(o), (form[0], "none")
            # values are reached in the first part, increases are shared
            ls, c = [], float(len(secs))
            for j in range(len(secs)):
                wl = [line(y, z) if j == 0 else line(z, z) for y, z in zip(w, w1)]
                if form[1] == "number":
                    ol = [line(y + oa * j / c, y + oa * (j + 1) / c) for y in o]
                else:
                    ol = [line(y, z) if j == 0 else line(z, z) for y, z in zip(o, o1)]
                ls.append([Law(y, z) for y, z in zip(wl, ol)])
            if form != ("none", "none"):
                m.seen("shared-tapers")
        if kind == "cycle":
            m.seen("loops")
        w, o = w1, o1
        if fixed and rng.random() < 0.4:
            # paths kept as GDSII paths have one width
            wa = rng.choice([0.09 * s, [0.08 * s] * len(w), lambda u: (0.04 + 0.04 * u) * s])
            m.seen("one-width")
        r = getattr(p, name)(*args, width=wa, offset=oa, **kw)
        m.check(r is p, "returns-itself", "%s returned %r" % (name, type(r)))
        for sec, law in zip(secs, ls):
            ex.secs.append(sec)
            ex.laws.append(law)
        log.append((name, repr(args), repr(kw), repr(wa), repr(oa)))
        forms.append(form)
        if name == "turn":
            # the current direction is calculated numerically
            ex.slack += 2e-3 * s
        if name == "parametric" and "curve_derivative" not in kw:
            ex.numeric += [True]
        else:
            ex.numeric += [False] * len(secs)
    m.ctx(sections=log, **info)
    m.check(len(p) == len(ex.secs), "centre", "%d sections, expected %d" % (len(p), len(ex.secs)))
    return ex, log, forms


def case_evaluate(rng, m, s):
    p, p0, w, o, l, t, ends, tol, info = start(rng, s)
    n = rng.choice([1, 2, 3, 4])
    ex, log, forms = chain(rng, m, s, p, p0, w, o, info, n, loops=True)
    k = ex.k
    N = len(ex.secs)
    m.state("evaluate", [x[0] for x in log], forms, k)
    m.sample(dict(sections=[x[0] for x in log], laws=forms, paths=k))
    arm = None
    us = [0, N] + [rng.uniform(0, N) for _ in range(5)] + [rng.randrange(N + 1) for _ in range(2)]
    for U in us:
        i = min(int(U), N - 1)
        u = U - i
        eps = 1e-8 * s + ex.slack
        if ex.numeric[i]:
            # numerical direction of the curve
            eps += 1e-3 * max(abs(ex.laws[i][kk].o(np.array([u]))[0]) for kk in range(k))
        c, wd = np.array(p(U)), np.array(p.width(U))
        sides = [np.array(p(U, -1)), np.array(p(U, 1))]
        m.check(c.shape == (k, 2) and wd.shape == (k,), "centre", "shapes %s and %s for %d paths" % (c.shape, wd.shape, k))
        for kk in range(k):
            x, tt, r, ww, v = (y[0] for y in ex.frame(i, kk, [u]))
            m.check(np.abs(c[kk] - x).max() <= eps, "centre", "centre %d at %r: %s, expected %s" % (kk, U, c[kk], x))
            m.check(abs(wd[kk] - ww) <= 1e-7 * s, "width", "width %d at %r: %r, expected %r" % (kk, U, wd[kk], ww))
            q = [x - 0.5 * ww * r, x + 0.5 * ww * r]
            lr = [max(np.abs(sides[0][kk] - q[0]).max(), np.abs(sides[1][kk] - q[1]).max()), max(np.abs(sides[0][kk] - q[1]).max(), np.abs(sides[1][kk] - q[0]).max())]
            m.check(min(lr) <= 4e-3 * ww + eps, "sides", "sides %d at %r: %s and %s, expected %s and %s" % (kk, U, sides[0][kk], sides[1][kk], q[0], q[1]))
            which = lr.index(min(lr))
            m.check(arm in (None, which), "sides", "sides change places at %r" % U)
            arm = which
            m.check(np.abs(0.5 * (sides[0][kk] + sides[1][kk]) - x).max() <= eps * 10, "sides", "sides %d at %r are not around the centre" % (kk, U))
            for side in "-+":
                j, z = i, u
                if u == 0 and i > 0 and side == "-":
                    j, z = i - 1, 1.0
                _, _, _, _, v = (y[0] for y in ex.frame(j, kk, [z]))
                g = np.array(p.grad(U, 0, side))[kk]
                # (directions are calculated from points at a small distance)
                _, _, _, _, nb = ex.frame(j, kk, [max(0.0, z - 1e-3), min(1.0, z + 1e-3)])
                vary = np.hypot(*(nb - v).T).max() / np.hypot(*v)
                turned = math.atan2(g[1], g[0]) - math.atan2(v[1], v[0])
                m.check(abs(hobbyref.reduce(turned)) <= (2e-2 if ex.numeric[j] else 3e-3) + vary, "direction", "direction %d at %r (%s): %s, expected %s" % (kk, U, side, g, v))
                m.check(np.hypot(*(g - v)) <= ((0.1 if ex.numeric[j] else 5e-3) + vary) * np.hypot(*v), "direction", "direction %d at %r (%s): %s, expected %s" % (kk, U, side, g, v))
        if rng.random() < 0.3:
            g = np.array(p.grad(U, rng.choice([-1, 1])))
            m.check(g.shape == (k, 2), "direction", "shape %s" % (g.shape,))
    # both sides of every joint
    for i in range(1, N):
        a, b = np.array(p(i - 1e-9)), np.array(p(i))
        # (joins are smooth, offsets continuous)
        m.check(np.abs(a - b).max() <= (1e-6 + 2e-4 * (ex.numeric[i - 1] or ex.numeric[i] or ex.slack > 0)) * s + ex.slack, "continuous", "centres before and after joint %d: %s and %s" % (i, a, b))
        a, b = np.array(p.width(i - 1e-9)), np.array(p.width(i))
        m.check(np.abs(a - b).max() <= 1e-6 * s, "continuous", "widths before and after joint %d: %s and %s" % (i, a, b))
    e = ex.secs[-1].f(np.array([1.0]))[0]
    m.check(np.abs(np.array(p.x) - e).max() <= 1e-8 * s + ex.slack, "continuous", "the path ends at %s, expected %s" % (p.x, e))


def case_curved(rng, m, s):
    p, p0, w, o, l, t, ends, tol, info = start(rng, s)
    n = rng.choice([1, 2, 2, 3])
    ex, log, forms = chain(rng, m, s, p, p0, w, o, info, n)
    if any(f[1] != "none" for f in forms) and len(forms) > 1:
        # changes of the slope of offsets make (small) corners
        smooth = False
    else:
        smooth = all(f == ("none", "none") for f in forms) or len(forms) == 1
    m.state("curved", [x[0] for x in log], forms, ex.k, [str(e)[:5] for e in ends], tol / s, p.n)
    m.sample(dict(sections=[x[0] for x in log], laws=forms, tolerance=tol / s))
    strokes = []
    for kk in range(ex.k):
        pieces = [ex.band(i, kk) for i in range(len(ex.secs))] + ex.caps(kk, ends[kk])
        for i in range(1, len(ex.secs)):
            pieces += wedge(ex, i, kk)
        strokes.append(pieces)
    margin = 2 * tol + 1e-4 * s + ex.slack
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        p.get_polygons()
    if any("cannot be ensured" in str(w.message) for w in ws):
        # (corners between almost parallel sides, no promise is made)
        m.check(not smooth, "region", "a smooth join cannot be ensured")
        m.skip("join cannot be ensured")
        return
    judge(rng, m, "region", p, l, t, strokes, margin)
    if smooth and rng.random() < 0.3:
        q = copy.deepcopy(p)
        q.max_points = rng.choice([5, 8, 20, 60])
        q.translate(0, 0)
        pols = q.get_polygons()
        m.check(all(len(x) <= q.max_points for x in pols), "fractured", "polygons of %s points with max_points = %d" % ([len(x) for x in pols], q.max_points))
        judge(rng, m, "fractured", q, l, t, strokes, margin, "max_points=%d: " % q.max_points)


def case_within(rng, m, s):
    """Sides and caps stay within tolerance of the exact curves."""
    tol = s * 10 ** rng.uniform(-3.5, -2.7)
    ends = rng.choice(["round", "round", "smooth", "smooth", "flush"])
    p, p0, w, o, l, t, _, _, info = start(rng, s, tolerance=tol, ends=ends)
    n = rng.choice([1, 1, 2, 3])
    ex, log, forms = chain(rng, m, s, p, p0, w, o, info, n)
    if len(ex.secs) > 1 and any(f != ("none", "none") for f in forms):
        m.skip("joins change the sides")
        return
    info.update(ends=ends, tol=tol)
    m.ctx(sections=log, **info)
    m.state("within", [x[0] for x in log], forms, ex.k, ends, round(math.log10(tol / s) * 4))
    polys = [np.asarray(x) for x in p.get_polygons()]

    def look(what, curve, limit, slack):
        far = geom.dist_to_edges(polys, curve).max()
        m.check(far <= limit * tol + slack, "within-tolerance", "%s is %.3g tolerances away from its curve (at most %.3g)" % (what, far / tol, limit + slack / tol))

    slack = 1e-4 * s + ex.slack
    u = np.linspace(0, 1, 1500)
    for kk in range(ex.k):
        for i in range(len(ex.secs)):
            for sg in (-1, 1):
                look("side of section %d" % i, ex.side(i, kk, u, sg), 1.3, slack)
        for which, c in enumerate(ex.caps(kk, ends, 1500)):
            if ends == "smooth":
                look("smooth end", c, 1.1, slack)
            elif ends == "round":
                r = 0.5 * ex.laws[0 if which == 0 else -1][kk].w(np.array([float(which)]))[0]
                look("round end", c, rounded(arc_chords(math.pi, r, tol), 4), slack)


def judge(rng, m, clause, path, l, t, strokes, margin, what=""):
    got = by_key(path, m)
    keys = list(zip(l, t))
    m.check(set(got) == set(keys), "layers", "layers of the polygons %s, expected %s" % (sorted(got), sorted(set(keys))))
    for key in sorted(set(keys)):
        if key not in got:
            continue
        pieces = [p for i, k in enumerate(keys) if k == key for p in strokes[i]]
        bad, n = stroke.compare(rng, got[key], pieces, margin)
        m.count("points judged", n)
        m.check(bad is None, clause, "%s%s (%s)" % (what, bad, key))


def wedge(ex, i, kk):
    """What the join at the start of section i adds (mitre of the sides)."""
    out = []
    a, b = ex.frame(i - 1, kk, [1.0]), ex.frame(i, kk, [0.0])
    for sg in (-1, 1):
        p0, p1 = ex.side(i - 1, kk, 1.0, sg)[0], ex.side(i, kk, 0.0, sg)[0]
        if np.abs(p0 - p1).max() < 1e-12:
            continue
        v0, v1 = ex.side_dir(i - 1, kk, 1.0, sg), ex.side_dir(i, kk, 0.0, sg)
        den = v0[0] * v1[1] - v0[1] * v1[0]
        c = 0.5 * (a[0][0] + b[0][0])
        if abs(den) < 1e-6:
            out.append(np.array([c, p0, p1]))
            continue
        x, y = stroke.meet(p0, v0, p1, v1)
        if x > 0 and y < 0:
            out.append(np.array([c, p0, p0 + x * v0, p1]))
    return out


def outline(pts, o, w):
    """Exact outline (raw ends) of a polyline with laws linear along segments:
    o, w: per segment (start, end). Positive offsets are to the right."""
    t = stroke.unit(pts[1:] - pts[:-1])
    r = -stroke.left(t)
    a = pts[:-1] + o[:, :1] * r
    b = pts[1:] + o[:, 1:] * r
    tt = stroke.unit(b - a)
    rr = -stroke.left(tt)
    arms = []
    for sg in (-1, 1):
        pa, pb = a + sg * 0.5 * w[:, :1] * rr, b + sg * 0.5 * w[:, 1:] * rr
        chain_ = [pa[0]]
        for i in range(len(pa) - 1):
            x, _ = stroke.meet(pa[i], pb[i] - pa[i], pa[i + 1], pb[i + 1] - pa[i + 1])
            chain_.append(pa[i] + x * (pb[i] - pa[i]))
        chain_.append(pb[-1])
        arms.append(np.array(chain_))
    spine = [a[0]]
    for i in range(len(a) - 1):
        x, _ = stroke.meet(a[i], b[i] - a[i], a[i + 1], b[i + 1] - a[i + 1])
        spine.append(a[i] + x * (b[i] - a[i]))
    spine.append(b[-1])
    return np.vstack((arms[1], arms[0][::-1])), (a, b, tt), arms, np.array(spine)


def poly_caps(parts, arms, w, end):
    a, b, t = parts
    out = []
    for which in (0, 1):
        x, d, ww = (a[0], -t[0], w[0, 0]) if which == 0 else (b[-1], t[-1], w[-1, 1])
        if end == "smooth":
            pr, pl = (arms[1][0], arms[0][0]) if which == 0 else (arms[1][-1], arms[0][-1])
            vr = arms[1][0] - arms[1][1] if which == 0 else arms[1][-1] - arms[1][-2]
            vl = arms[0][0] - arms[0][1] if which == 0 else arms[0][-1] - arms[0][-2]
            out.append(stroke.fit(pr, vr, pl, -vl))
            continue
        st = Stroke([x, x - d] if which == 0 else [x - d, x], [ww, ww])
        style, ext = ("tuple", end) if isinstance(end, tuple) else (end, None)
        out += st.cap(which, style, ext)
    return out


def straight(rng, m, s, gdsii=False):
    p, p0, w, o, l, t, ends, tol, info = start(rng, s, gdsii_path=gdsii)
    k = len(w)
    n = rng.choice([2, 3, 4, 5])
    pts = polyline(rng, s, n) + np.array(p0)
    pts -= pts[0] - np.array(p0)
    O, W, log = [], [], []
    for i in range(1, n):
        wa = oa = None
        w1, o1 = w, o
        if not gdsii and rng.random() < 0.4:
            wa = [min(max(x * rng.uniform(0.6, 1.5), 0.02 * s), 0.07 * s) for x in w] if rng.random() < 0.6 else rng.uniform(0.03, 0.06) * s
            w1 = wa if isinstance(wa, list) else [wa] * k
        if rng.random() < 0.4:
            oa = [x + rng.uniform(-0.02, 0.02) * s for x in o] if rng.random() < 0.6 else rng.uniform(-0.02, 0.02) * s
            o1 = oa if isinstance(oa, list) else [x + oa for x in o]
        rel = rng.random() < 0.5
        e = tuple(pts[i] - pts[i - 1]) if rel else tuple(pts[i])
        p.segment(e, copy.copy(wa), copy.copy(oa), rel)
        log.append((e, wa, oa, rel))
        W.append(np.stack((w, w1), axis=1))
        O.append(np.stack((o, o1), axis=1))
        w, o = w1, o1
    m.ctx(segments=repr(log), **info)
    W, O = np.array(W), np.array(O)  # [segment][path][start, end]
    res = [outline(pts, O[:, i], W[:, i]) for i in range(k)]
    strokes = [[r[0]] + poly_caps(r[1], r[2], W[:, i], ends[i]) for i, r in enumerate(res)]
    m.state("straight", n, k, [str(e)[:5] for e in ends], [x[1] is None for x in log], [x[2] is None for x in log], gdsii)
    return p, l, t, ends, tol, strokes, [r[3] for r in res], W


def case_corners(rng, m, s):
    p, l, t, ends, tol, strokes, spines, W = straight(rng, m, s)
    judge(rng, m, "corner-region", p, l, t, strokes, 2 * tol + 1e-5 * s)


def case_joint(rng, m, s):
    """Curved sections that meet at an angle (no offsets: the join is around
    the common point)."""
    tol = rng.choice([1e-3, 1e-4, 1e-5]) * s
    w = rng.uniform(0.03, 0.06) * s
    p0 = np.array((rng.uniform(-s, s), rng.uniform(-s, s)))
    p = gdspy.RobustPath(tuple(p0), w, tolerance=tol, precision=1e-7 * s, max_points=0)
    ex = Exact(1)
    a, x, log = rng.uniform(-3, 3), p0, []
    for i in range(2):
        kind = rng.choice(["segment", "arc", "bezier", "parametric"])
        name, args, kw, secs, x, a = make(rng, s, x, a, kind)
        getattr(p, name)(*args, **kw)
        ex.secs += secs
        ex.laws += [[Law(line(w, w), line(0.0, 0.0))]] * len(secs)
        log.append((name, repr(args)))
        a += rng.choice([-1, 1]) * rng.uniform(0.2, 1.6)
    m.ctx(start=p0, width=w, sections=log, tol=tol)
    m.state("joint", [y[0] for y in log], tol / s)
    pieces = [ex.band(i, 0) for i in range(2)] + wedge(ex, 1, 0)
    # (sections that come back over the joint make its outline ambiguous)
    far = [ex.line(0, 0, np.linspace(0, 0.8, 60)), ex.line(1, 0, np.linspace(0.2, 1, 60))]
    j = ex.line(1, 0, np.array([0.0]))[0]
    if min(np.hypot(*(f - j).T).min() for f in far) < 3 * w:
        m.skip("sections come back to the joint")
        return
    judge(rng, m, "joint-region", p, [0], [0], [pieces], 2 * tol + 1e-4 * s)


def crossing(a, b, va, vb):
    """Trims or extends two curves (dense points) that meet at an angle:
    (points of the first, points of the second, how) or None if ambiguous."""
    x, y = stroke.meet(a[-1], va, b[0], vb)
    if x >= 0 and y <= 0:
        q = a[-1] + x * va
        return np.vstack((a, q)), np.vstack((q, b)), "extended"
    if x >= 0 or y <= 0:
        return None
    hits = []
    d1 = a[1:] - a[:-1]
    for j in range(len(b) - 1):
        e, d2 = b[j] - a[:-1], b[j + 1] - b[j]
        den = d1[:, 0] * d2[1] - d1[:, 1] * d2[0]
        den[den == 0] = 1e-300
        t = (e[:, 0] * d2[1] - e[:, 1] * d2[0]) / den
        v = (e[:, 0] * d1[:, 1] - e[:, 1] * d1[:, 0]) / den
        for i in np.nonzero((t >= 0) & (t < 1) & (v >= 0) & (v < 1))[0]:
            hits.append((i, j, a[i] + t[i] * d1[i]))
    if len(hits) != 1:
        return None
    i, j, q = hits[0]
    return np.vstack((a[: i + 1], q)), np.vstack((q, b[j + 1 :])), "trimmed"


def case_crossing(rng, m, s):
    """Offset curves that meet at an angle: their sides (or centre lines, in
    saved paths) end where they cross or are extended straight to meet."""
    tol = rng.choice([1e-3, 1e-4]) * s
    w = rng.uniform(0.03, 0.06) * s
    o = rng.choice([-1, 1]) * rng.uniform(0.3, 2) * 0.06 * s
    p0 = np.array((rng.uniform(-s, s), rng.uniform(-s, s)))
    gdsii = rng.random() < 0.5
    p = gdspy.RobustPath(tuple(p0), [w], [o], tolerance=tol, precision=1e-7 * s, max_points=0, gdsii_path=gdsii)
    ex = Exact(1)
    a, x, log = rng.uniform(-3, 3), p0, []
    for i in range(2):
        kind = rng.choice(["segment", "arc", "arc", "bezier", "parametric"])
        name, args, kw, secs, x, a = make(rng, s, x, a, kind)
        getattr(p, name)(*args, **kw)
        ex.secs += secs
        ex.laws += [[Law(line(w, w), line(o, o))]] * len(secs)
        log.append((name, repr(args)))
        if i == 0:
            n0 = len(ex.secs)
        a += rng.choice([-1, 1]) * rng.uniform(0.3, 1.4)
    m.ctx(start=p0, width=w, offset=o, sections=log, tol=tol, gdsii=gdsii)
    if n0 != 1 or len(ex.secs) != 2:
        return
    us = np.linspace(0, 1, 500)
    lines = []
    for sg in (0,) if gdsii else (-1, 1):
        c = [ex.side(i, 0, us, sg) for i in range(2)]
        r = crossing(c[0], c[1], ex.side_dir(0, 0, 1.0, sg), ex.side_dir(1, 0, 0.0, sg))
        if r is None:
            m.skip("ambiguous crossing")
            return
        lines.append(r)
    m.state("crossing", gdsii, [y[0] for y in log], [r[2] for r in lines], tol / s)
    margin = 3 * tol + 1e-4 * s
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        if gdsii:
            lib = gdspy.GdsLibrary("L", unit=1.0, precision=s * 1e-6)
            cell = gdspy.Cell("A", exclude_from_current=True)
            cell.add(p)
            f = io.BytesIO()
            lib.write_gds(f, cells=[cell])
            xy = np.array(gds.parse(f.getvalue())["cells"][0]["elements"][0]["xy"]) * s * 1e-6
        else:
            pols = by_key(p, m)
    if any("Intersection not found" in str(v.message) for v in seen):
        m.skip("gdspy warns that it found no intersection")
        return
    if gdsii:
        want = np.vstack(lines[0][:2])
        d = max(geom.dist_to_polyline(want, xy).max(), geom.dist_to_polyline(xy, want).max())
        m.check(d <= margin, "crossing", "the saved path is up to %g away from its centre line, %s at the joint" % (d, lines[0][2]))
    else:
        m.check(list(pols) == [(0, 0)] and len(pols[0, 0]) == 1, "crossing-region", "polygons %s" % {key: len(v) for key, v in pols.items()})
        got = pols[0, 0][0]
        want = np.vstack((lines[0][0], lines[0][1], lines[1][1][::-1], lines[1][0][::-1]))
        ring = lambda q: np.vstack((q, q[:1]))
        d = max(geom.dist_to_polyline(ring(want), got).max(), geom.dist_to_polyline(ring(got), want).max())
        m.check(d <= margin, "crossing-region", "the outline is up to %g away from its sides, %s and %s at the joint" % (d, lines[0][2], lines[1][2]))


def case_saved(rng, m, s):
    if rng.random() < 0.5:
        p, l, t, ends, tol, strokes, spines, W = straight(rng, m, s, gdsii=True)
        w = W[0][:, 0]
        exact = spines
        slack = 0
    else:
        p, p0, w, o, l, t, ends, tol, info = start(rng, s, gdsii_path=True)
        ex, log, forms = chain(rng, m, s, p, p0, w, o, info, rng.choice([1, 2, 3]), fixed=True)
        m.state("saved", [x[0] for x in log], forms, ex.k)
        slack = ex.slack + 1e-4 * s * any(ex.numeric)
        for i in range(len(ex.secs)):
            U = i + rng.random()
            m.check(np.abs(np.array(p.width(U)) - w).max() <= 1e-7 * s, "one-width", "widths of a path kept as GDSII path at %r: %s, expected %s" % (U, p.width(U), w))
        exact = [np.vstack([ex.line(i, kk, np.linspace(0, 1, 400)) for i in range(len(ex.secs))]) for kk in range(ex.k)]
    lib = gdspy.GdsLibrary("L", unit=1.0, precision=s * 1e-6)
    cell = gdspy.Cell("A", exclude_from_current=True)
    cell.add(p)
    f = io.BytesIO()
    lib.write_gds(f, cells=[cell])
    els = gds.parse(f.getvalue())["cells"][0]["elements"]
    if not m.check(len(els) == len(l), "saved-spine", "%d elements for %d paths" % (len(els), len(l))):
        return
    unit = s * 1e-6
    for i, e in enumerate(els):
        xy = np.array(e["xy"]) * unit
        margin = 2 * unit + 2 * tol + 3e-5 * s + slack
        d = max(geom.dist_to_polyline(exact[i], xy).max(), geom.dist_to_polyline(xy, exact[i]).max())
        m.check(d <= margin, "saved-spine", "path %d is saved up to %g away from its centre line (tolerance %g)" % (i, d, tol))
        ok = np.abs(xy[0] - exact[i][0]).max() <= 2 * unit + slack and np.abs(xy[-1] - exact[i][-1]).max() <= 2 * unit + slack
        m.check(ok, "saved-spine", "path %d is saved from %s to %s, expected %s to %s" % (i, xy[0], xy[-1], exact[i][0], exact[i][-1]))
        m.check(abs(e["width"] * unit - w[i]) <= unit, "saved-spine", "width %r, expected %r" % (e["width"] * unit, w[i]))
        m.check((e["layer"], e["datatype"]) == (l[i], t[i]), "saved-spine", "layer and datatype %r" % ((e["layer"], e["datatype"]),))
        pt = 4 if isinstance(ends[i], tuple) else {"flush": 0, "round": 1, "extended": 2}[ends[i]]
        m.check(e.get("pathtype", 0) == pt, "saved-spine", "type %r for %r" % (e.get("pathtype"), ends[i]))
        if pt == 4:
            g = (e.get("bgnextn", 0) * unit, e.get("endextn", 0) * unit)
            m.check(abs(g[0] - ends[i][0]) <= unit and abs(g[1] - ends[i][1]) <= unit, "saved-spine", "extensions %s for %s" % (g, ends[i]))
