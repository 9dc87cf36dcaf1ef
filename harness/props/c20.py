"""C20: curves pass within tolerance of the exact curve they describe."""
import copy
import math

import gdspy
import numpy as np

import hobbyref

RULE = (
    "Random chains of all commands (absolute, relative, smooth continuations, several curves per call, pairs and complex numbers), observed after every "
    "command: earlier points stay, straight sections add exactly the points asked for, curved ones only points of the exact curve (own de Casteljau, "
    "arc and Hobby evaluation), in order, up to the exact end, with chords that deviate no more than the tolerance allows. "
    "Non-trivial: a curved section. Distinct by commands, number of curves, forms of the coordinates and tolerance."
)
ASSUMPTIONS = [
    "Coordinates of relative commands count from the end of the curve when the command is given, as the examples of smooth interpolation do.",
    "The deviation of a chord of an arc may reach 3 times the tolerance (the number of chords is rounded); the deviation of other chords the tolerance, plus the cubic term that the test at the middle of the chord cannot see.",
]
REQUIRED = ["line", "on-curve", "in-order", "chord-deviation", "end-point", "earlier-points", "passes-through", "direction", "closed", "returns-itself"]


def cases(tier):
    k = 4 if tier == "quick" else 48
    return [("chain", 100 * k), ("smooth", 60 * k), ("closed", 20 * k)]


def run_case(kind, index, rng, m):
    s = rng.choice([1.0, 1.0, 30.0, 1e-2, 1e4])
    globals()["case_" + kind](rng, m, s)


class Bez(object):
    def __init__(self, ctrl):
        self.c = np.array(ctrl, dtype=float)
        d = np.diff(self.c, 3, axis=0) if len(self.c) > 3 else np.zeros((1, 2))
        n = len(self.c) - 1
        self.third = n * (n - 1) * (n - 2) * np.hypot(*d.T).max()
        self.end = self.c[-1]

    def at(self, u):
        return hobbyref.bezier(self.c, u)


class Arc(object):
    third = 0

    def __init__(self, p, rx, ry, a0, a1, rot):
        self.p, self.rx, self.ry, self.a0, self.a1, self.rot = np.array(p), rx, ry, a0 - rot, a1 - rot, rot
        self.c = self.p - self._e(np.array([self.a0]))[0]
        self.end = self.at(np.array([1.0]))[0]
        self.third = abs(a1 - a0) ** 3 * abs(rx - ry)

    def _e(self, t):
        x, y = self.rx * np.cos(t), self.ry * np.sin(t)
        c, s = math.cos(self.rot), math.sin(self.rot)
        return np.stack((x * c - y * s, x * s + y * c), axis=1)

    def at(self, u):
        return self.c + self._e(self.a0 + (self.a1 - self.a0) * np.asarray(u))


class Line(object):
    def __init__(self, end):
        self.end = np.array(end, dtype=float)


def num(rng, p):
    """The pair as arguments."""
    if rng.random() < 0.3:
        return [complex(p[0], p[1])]
    if rng.random() < 0.2 and all(float(x).is_integer() for x in p):
        return [int(p[0]), int(p[1])]
    if rng.random() < 0.2:
        return [np.float64(p[0]), np.float64(p[1])]
    return [float(p[0]), float(p[1])]


def command(rng, s, start, last):
    """(name, args, kwargs, [sections], what kind of control point remains)."""
    p = np.array(start)
    pt = lambda: np.array((rng.uniform(-1, 1), rng.uniform(-1, 1))) * s if rng.random() < 0.8 else np.array((rng.randrange(-3, 4), rng.randrange(-3, 4))) * 1.0 * (s if s >= 1 else 0.01)
    names = "LlHhVvCcSsQqTtBb"
    name = rng.choice(list(names) + ["arc", "arc"])
    rel = name.islower()
    base = p if rel else np.zeros(2)
    n = rng.choice([1, 1, 2, 3])
    args, secs = [], []
    lc, lq = None, None
    if name in "Ll":
        for _ in range(n):
            v = pt()
            args += num(rng, v)
            secs.append(Line(base + v))
    elif name in "HhVv":
        k = 0 if name in "Hh" else 1
        for _ in range(n):
            v = float(pt()[0])
            args.append(v)
            e = p.copy()
            e[k] = base[k] + v
            secs.append(Line(e))
    elif name == "arc":
        r = rng.uniform(0.1, 1) * s
        a0, t = rng.uniform(-7, 7), rng.choice([-1, 1]) * rng.choice([math.pi / 2, math.pi, 2 * math.pi, rng.uniform(0.01, 9)])
        rot = rng.choice([0, 0, rng.uniform(-4, 4), math.pi / 2])
        if rng.random() < 0.5:
            rx = ry = r
            args = [r, a0, a0 + t]
        else:
            rx, ry = r, r * rng.uniform(0.2, 5)
            args = [rng.choice([tuple, list, np.array])((rx, ry)), a0, a0 + t]
        if rot != 0 or rng.random() < 0.2:
            args.append(rot)
        secs.append(Arc(p, rx, ry, a0, a0 + t, rot))
    elif name in "Bb":
        ctrl = [p]
        for _ in range(rng.choice([1, 2, 3, 4, 5, 7])):
            v = pt()
            args += num(rng, v)
            ctrl.append(base + v)
        secs.append(Bez(ctrl))
    else:
        up = name.upper()
        lc, lq = last
        x = p
        for _ in range(n):
            ctrl = [x]
            if up == "S":
                ctrl.append(2 * x - (x if lc is None else lc))
            if up == "T":
                ctrl.append(2 * x - (x if lq is None else lq))
            for _ in range(dict(C=3, S=2, Q=2, T=1)[up]):
                v = pt()
                args += num(rng, v)
                ctrl.append(base + v)
            lc = ctrl[2] if up in "CS" else None
            lq = ctrl[1] if up in "QT" else None
            secs.append(Bez(ctrl))
            x = ctrl[-1]
    return name, args, {}, secs, (lc, lq), n


def interpolate(rng, s, start):
    p = np.array(start)
    name = rng.choice("Ii")
    n = rng.choice([1, 2, 2, 3, 4, 6])
    cycle = n >= 2 and rng.random() < 0.35
    # points that are not too close to each other
    pts = [p]
    while len(pts) < n + 1:
        q = pts[-1] + np.array((rng.uniform(-1, 1), rng.uniform(-1, 1))) * s
        if min(np.hypot(*(q - x)) for x in pts) > 0.15 * s:
            pts.append(q)
    N = n + 1
    kw = {}
    ang = [None] * N
    full = np.array(pts)
    out = np.roll(full, -1, axis=0) - full
    if not cycle:
        out[-1] = out[-2]
    if rng.random() < 0.5:
        for k in range(N):
            if rng.random() < 0.4:
                ang[k] = float(math.atan2(out[k][1], out[k][0]) + rng.uniform(-1.2, 1.2))
        kw["angles"] = ang
    if rng.random() < 0.3:
        kw["curl_start"] = rng.choice([0, 0.5, 2, 1])
    if rng.random() < 0.3:
        kw["curl_end"] = rng.choice([0, 0.5, 2, 1])
    ten = lambda: rng.choice([1, 1.3, 0.9, 2]) if rng.random() < 0.5 else [rng.uniform(0.8, 2) for _ in range(N)]
    if rng.random() < 0.3:
        kw["t_in"] = ten()
    if rng.random() < 0.3:
        kw["t_out"] = ten()
    if cycle:
        kw["cycle"] = True
    secs = [Bez([(v.real, v.imag) for v in z]) for z in hobbyref.controls(pts, **kw)]
    a = [tuple(x - p) if name == "i" else tuple(x) for x in pts[1:]]
    if rng.random() < 0.3:
        a = np.array(a)
    return name, [a], kw, secs, full, ang, cycle


class Watch(object):
    """Observes a curve after every command."""

    def __init__(self, rng, m, s, **kw):
        self.m, self.s, self.rng = m, s, rng
        p = np.array((rng.uniform(-1, 1), rng.uniform(-1, 1))) * s * rng.choice([0, 1, 5])
        self.tol = rng.choice([1e-2, 1e-3, 1e-5]) * s
        args = [complex(*p)] if rng.random() < 0.4 else [p[0], p[1]]
        if len(args) == 1 and rng.random() < 0.5:
            args.append(rng.uniform(-9, 9))  # ignored
        self.curve = gdspy.Curve(*args, tolerance=self.tol)
        self.pts = np.array([p])
        self.end = p
        self.log = [("start", tuple(p), self.tol)]

    def do(self, name, args, kw, secs):
        m, s, tol = self.m, self.s, self.tol
        before = copy.deepcopy((args, kw))
        self.log.append((name, repr(args), repr(kw)))
        m.ctx(commands=self.log)
        r = getattr(self.curve, name)(*args, **kw)
        m.check(r is self.curve, "returns-itself", "%s returned %r" % (name, type(r)))
        m.check(repr(before) == repr((args, kw)), "returns-itself", "%s changes its arguments" % name)
        if self.rng.random() < 0.2:
            a = self.curve.get_points()
            a += 1e9  # (nothing of the curve)
        got = self.curve.get_points()
        size = max(s, np.abs(self.pts).max(), max(np.abs(x.end).max() for x in secs))
        eps = 1e-9 * size
        end = secs[-1].end
        gap = np.hypot(*(end - self.pts[0]))
        if 0.999 * tol <= gap <= 1.001 * tol:
            m.skip("on the limit of closing")
            return False
        if gap < tol:
            # the last point of a closed curve is left out
            got = np.vstack((got, [end]))
        k = len(self.pts)
        if not m.check(len(got) > k and np.abs(got[:k] - self.pts).max() <= eps, "earlier-points", "%s changes the points before it" % name):
            return False
        new = got[k - 1 :]
        self.pts = got
        ok = m.check(np.abs(new[-1] - end).max() <= eps, "end-point", "%s ends at %s, expected %s" % (name, new[-1], end))
        pos = 0
        for i, sec in enumerate(secs):
            if isinstance(sec, Line):
                pos += 1
                if not m.check(pos < len(new) and np.abs(new[min(pos, len(new) - 1)] - sec.end).max() <= eps, "line", "%s: point %d is %s, expected %s" % (name, pos, new[min(pos, len(new) - 1)], sec.end)):
                    return False
                continue
            # the points up to the end of this section
            hit = np.flatnonzero(np.abs(new[pos + 1 :] - sec.end).max(1) <= eps)
            if not m.check(len(hit), "passes-through" if name in "Ii" else "on-curve", "%s does not pass through %s" % (name, sec.end)):
                return False
            hit = pos + 1 + (hit[0] if i < len(secs) - 1 else len(new) - pos - 2)
            if not self.section(name, sec, new[pos : hit + 1], eps):
                return False
            pos = hit
        m.check(pos == len(new) - 1, "end-point", "%s adds %d points after its end" % (name, len(new) - 1 - pos))
        self.end = end
        return ok

    def section(self, name, sec, pts, eps):
        """pts: consecutive points, the first and last are those of the section."""
        m, tol = self.m, self.tol
        D = 3000
        u = np.linspace(0, 1, D + 1)
        d = sec.at(u)
        step = np.hypot(*np.diff(d, axis=0).T).max()
        at = [0.0]
        lo = 0
        for j, q in enumerate(pts[1:-1]):
            r = np.hypot(*(d[lo:] - q).T)
            near = np.flatnonzero(r <= 1.01 * step + eps)
            best, worst = None, r.min()
            low = np.r_[True, r[1:] <= r[:-1]] & np.r_[r[:-1] <= r[1:], True]
            near = near[low[near]]
            # the first close approach after the last point
            for g in near:
                i = lo + g
                v, dist = self.refine(sec, q, max(at[-1] - 2e-3, u[max(i - 1, 0)]), u[min(i + 1, D)])
                if dist <= max((1e-6 if name in "Ii" else 1e-7) * self.s, eps):
                    best = v
                    break
                worst = min(worst, dist)
            if best is None:
                r = np.hypot(*(d - q).T).min()
                m.check(r <= 1.01 * step, "on-curve", "%s: point %s is %g away from the curve (tolerance %g)" % (name, q, r, tol))
                m.violate("in-order", "%s: point %d, %s, is not on the curve after the last one (distance %g)" % (name, j + 1, q, worst))
                return False
            m.seen("on-curve")
            m.seen("in-order")
            at.append(best)
            lo = min(max(int((best - 2e-3) * D), 0), D)  # (folds are ambiguous)
        if isinstance(sec, Bez):
            w = sec.c - sec.c[0]
            v = w[np.argmax(np.hypot(*w.T))]
            L = np.hypot(*v)
            if L == 0 or np.abs(w @ (-v[1], v[0])).max() <= 1e-9 * L * L:
                # A curve on a line folds over itself: its extremes decide.
                if L > 0:
                    a, b = (d - sec.c[0]) @ v / L, (pts - sec.c[0]) @ v / L
                    dev = max(a.max() - b.max(), b.min() - a.min())
                    h = 1.0 / max(len(pts) - 1, 1)
                    m.check(dev <= 3 * tol + 0.01 * sec.third * (3 * h) ** 3 + 10 * eps, "chord-deviation", "%s: folds %g away from the fold of the curve (tolerance %g)" % (name, dev, tol))
                return True
        if np.hypot(*np.ptp(d, axis=0)) > 1e-6 * self.s:
            same = np.flatnonzero((pts[1:] == pts[:-1]).all(1))
            m.check(len(same) == 0, "in-order", "%s: point %d is there twice" % (name, same[0] if len(same) else 0))
        at.append(1.0)
        at = np.maximum.accumulate(at)
        h = np.diff(at)
        # (exact curve over each chord)
        w = np.linspace(0, 1, 17)[1:-1]
        worst, where = -1, None
        for j in range(len(pts) - 1):
            c = sec.at(at[j] + h[j] * w)
            a, b = pts[j], pts[j + 1]
            v = b - a
            L = np.hypot(*v)
            if L < 1e-12 * self.s:
                dev = np.hypot(*(c - a).T).max()
            else:
                t = np.clip(((c - a) @ v) / L ** 2, 0, 1)
                dev = np.hypot(*(c - a - t[:, None] * v).T).max()
            over = dev - ((1.05 if isinstance(sec, Bez) else 3) * tol + 0.01 * sec.third * h[j] ** 3 + 10 * eps)
            if over > worst:
                worst, where = over, (j, dev)
        m.check(worst <= 0, "chord-deviation", "%s: the chord after point %s is %g away from the curve (tolerance %g)" % (name, where and pts[where[0]], where[1] if where else 0, tol))
        if len(pts) > 2:
            m.state("curved", name, len(pts) // 4)
        return True

    def refine(self, sec, q, a, b):
        for _ in range(6):
            g = np.linspace(a, b, 21)
            r = np.hypot(*(sec.at(g) - q).T)
            i = r.argmin()
            a, b = g[max(i - 1, 0)], g[min(i + 1, 20)]
        return g[i], r[i]


def case_chain(rng, m, s):
    w = Watch(rng, m, s)
    last = (None, None)
    names = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        if rng.random() < 0.1:
            name, args, kw, secs, full, ang, cycle = interpolate(rng, s, w.end)
            n = len(secs)
            last = "I"
        else:
            for _ in range(20):
                res = command(rng, s, w.end, last if last != "I" else (None, None))
                if not (last == "I" and res[0] in "Ss"):
                    break
            else:
                break
            name, args, kw, secs, last, n = res
        names.append((name, n))
        if not w.do(name, args, kw, secs):
            break
    m.state("chain", names, w.tol / s)
    m.sample(dict(commands=names, tolerance=w.tol / s))


def case_smooth(rng, m, s):
    w = Watch(rng, m, s)
    if rng.random() < 0.4:
        name, args, kw, secs, _, _ = command(rng, s, w.end, (None, None))
        if not w.do(name, args, kw, secs):
            return
    w.curve.tol if False else None
    k0 = len(w.pts)
    name, args, kw, secs, full, ang, cycle = interpolate(rng, s, w.end)
    m.state("smooth", name, len(full), [a is None for a in ang], sorted(kw), cycle)
    m.sample(dict(points=full.tolist(), options=repr(kw)))
    if not w.do(name, args, kw, secs):
        return
    # directions asked for: of the chords next to each point
    new = w.pts[k0 - 1 :]
    for k, a in enumerate(ang):
        if a is None:
            continue
        # the points may be met more than once
        hits = np.flatnonzero(np.hypot(*(new - full[k]).T) <= 1e-9 * max(s, np.abs(full).max()))
        good = []
        for i in hits:
            d = [new[i] - new[i - 1]] if i > 0 else []
            d += [new[i + 1] - new[i]] if i + 1 < len(new) else []
            turn = [abs(hobbyref.reduce(math.atan2(v[1], v[0]) - a)) for v in d]
            good.append(max(turn))
        # (chords turn away from the tangent by about sqrt(tolerance))
        m.check(good and min(good) <= 1.0, "direction", "direction at %s is %s away from %r" % (full[k], good, a))
    if cycle:
        m.check(np.hypot(*(w.curve.get_points()[-1] - full[0])) > 0 or k0 > 1, "closed", "a closed curve repeats its first point")


def case_closed(rng, m, s):
    """The last point is left out if (and only if) it is the first one."""
    w = Watch(rng, m, s)
    p0 = w.pts[0].copy()
    for _ in range(rng.choice([1, 2, 3])):
        name, args, kw, secs, _, _ = command(rng, s, w.end, (None, None))
        if name in "SsTt":
            continue
        if not w.do(name, args, kw, secs):
            return
    gap = rng.choice([0, 0, 0.5, 2, 10]) * w.tol
    a = rng.uniform(-3, 3)
    q = p0 + gap * np.array((math.cos(a), math.sin(a)))
    n = len(w.pts)
    if np.hypot(*(w.end - q)) < 1e-3 * s:
        return
    kind = rng.choice(["L", "C", "Q"])
    secs = {"L": lambda: [Line(q)], "C": lambda: [Bez([w.end, w.end + s, q - s, q])], "Q": lambda: [Bez([w.end, w.end + s, q])]}[kind]()
    args = {"L": lambda: list(q), "C": lambda: list(w.end + s) + list(q - s) + list(q), "Q": lambda: list(w.end + s) + list(q)}[kind]()
    if not w.do(kind, args, {}, secs):
        return
    got = w.curve.get_points()
    m.state("closed", kind, gap / w.tol, n)
    if gap > w.tol:
        m.check(np.abs(got[-1] - q).max() <= 1e-9 * (s + np.abs(q).max()), "closed", "the last point %s is missing" % q)
    else:
        m.check(len(got) == len(w.pts) - 1 and np.abs(got[-1] - w.pts[-2]).max() == 0, "closed", "the curve closes and ends at %s" % got[-1])
