"""C23: fillet rounds corners with the radius asked for and nothing else."""
import copy
import math

import gdspy
import numpy as np

import geom
import stroke

RULE = (
    "Random simple polygons (convex and reflex vertices, right angles, collinear and repeated ones) in polygon sets, rectangles, rings, texts and paths; "
    "radii as a number, per polygon, per vertex, flattened, zero and too large, with any number of points. The result is parsed corner by corner: points "
    "of an arc tangent to both edges with the radius asked for, or vertices that stay. Non-trivial: at least one rounded corner; distinct by form "
    "of the radii, kinds of corners, number of points and limit."
)
ASSUMPTIONS = ["Corners that need more than half of an edge (in fact 0.49) get the largest radius that fits, not the one asked for; between 0.45 and 0.5 either is accepted."]
REQUIRED = ["arcs", "straight-vertices", "limited-radius", "number-of-points", "layers", "fractured", "wrong-length", "returns-itself"]


def cases(tier):
    k = 15 if tier == "quick" else 300
    return [("fillet", 150 * k), ("limit", 40 * k), ("wrong", 10 * k)]


def run_case(kind, index, rng, m):
    s = rng.choice([1.0, 1.0, 40.0, 1e3, 1e-2])
    globals()["case_" + kind](rng, m, s)


def polygon(rng, s):
    """A simple polygon of any orientation; (points, may be integer)."""
    kind = rng.choice(["star", "star", "star", "rect", "stairs", "regular"])
    c = np.array((rng.uniform(-3, 3), rng.uniform(-3, 3))) * s * rng.choice([0, 1])
    if kind == "star":
        n = rng.choice([3, 4, 5, 7, 10])
        a = np.sort([(i + rng.uniform(0.1, 0.9)) / n * 2 * math.pi for i in range(n)])
        r = np.array([rng.uniform(0.3, 1) for _ in range(n)]) * s
        p = c + np.stack((r * np.cos(a), r * np.sin(a)), axis=1)
    elif kind == "rect":
        p = c + np.array([(0, 0), (rng.uniform(0.2, 1), 0)], dtype=float)[[0, 1, 1, 0]] * s
        p[2:, 1] += rng.uniform(0.2, 1) * s
    elif kind == "regular":
        n = rng.choice([3, 4, 6, 8, 12])
        a = np.arange(n) * 2 * math.pi / n + rng.uniform(0, 1)
        p = c + s * np.stack((np.cos(a), np.sin(a)), axis=1)
    else:
        n = rng.choice([1, 2, 3])
        x = np.cumsum([rng.uniform(0.3, 1) for _ in range(n + 1)])
        y = np.cumsum([rng.uniform(0.3, 1) for _ in range(n + 1)])
        q = [(0, 0), (x[-1], 0)]
        for i in range(n, -1, -1):
            q += [(x[i], y[n - i]), (x[i - 1] if i else 0, y[n - i])]
        p = c + np.array(q) * s
    if rng.random() < 0.4:
        # vertices on edges
        k = rng.randrange(len(p))
        q = p[k] + rng.choice([0.5, 0.25]) * (p[(k + 1) % len(p)] - p[k])
        p = np.insert(p, k + 1, q, axis=0)
    if rng.random() < 0.5:
        p = p[::-1]
    return np.roll(p, rng.randrange(len(p)), axis=0)


def corners(p):
    """(incoming, outgoing, lengths, turn angle) of all vertices."""
    e = np.roll(p, -1, axis=0) - p
    L = np.hypot(*e.T)
    u = e / L[:, None]
    uin, Lin = np.roll(u, 1, axis=0), np.roll(L, 1)
    cr = uin[:, 0] * u[:, 1] - uin[:, 1] * u[:, 0]
    return uin, u, Lin, L, np.arctan2(cr, (uin * u).sum(1))


def arc(P, uin, uout, turn, r, n):
    """n points of the tangent arc of radius r."""
    t = math.tan(abs(turn) / 2)
    sg = 1 if turn > 0 else -1
    c = P - r * t * uin + sg * r * np.array((-uin[1], uin[0]))
    v = P - r * t * uin - c
    a = turn * np.linspace(0, 1, n)
    return c + np.stack((v[0] * np.cos(a) - v[1] * np.sin(a), v[0] * np.sin(a) + v[1] * np.cos(a)), axis=1)


def parse(p, radii, ppp, out, start, eps):
    """None if out is p with its corners rounded, else (position, clause, text);
    also the set of clauses observed."""
    uin, uout, Lin, Lout, turn = corners(p)
    N = len(p)
    i = 0
    seen = []
    for j in range(N):
        k = (start + j) % N
        P, tn, r = p[k], turn[k], radii[k]
        if i >= len(out):
            return (i, "arcs", "vertex %d is missing" % k), seen
        if abs(tn) < 1e-5:
            if np.abs(out[i] - P).max() > eps:
                return (i, "straight-vertices", "point %s instead of the straight vertex %s" % (out[i], P)), seen
            i += 1
            seen.append("straight-vertices")
            continue
        t = math.tan(abs(tn) / 2)
        fit = min(Lin[k], Lout[k])
        if r == 0:
            if np.abs(out[i] - P).max() > eps:
                return (i, "arcs", "point %s instead of the vertex %s (radius 0)" % (out[i], P)), seen
            while i < len(out) and np.abs(out[i] - P).max() <= eps:
                i += 1
            seen.append("arcs")
            continue
        ll = np.hypot(*(out[i] - P))
        clause = "arcs"
        re = r
        if r * t > 0.45 * fit:
            if abs(ll - r * t) > eps or r * t > 0.5 * fit:
                clause = "limited-radius"
                if not 0.3 * fit <= ll <= 0.5 * fit + eps:
                    return (i, clause, "corner %s (radius %g) starts %g away, edges of %g and %g" % (P, r, ll, Lin[k], Lout[k])), seen
                re = ll / t
        want = abs(tn) / (2 * math.pi) * ppp
        ok = None
        for n in sorted(range(max(2, int(want) - 1), int(want) + 4), key=lambda x: abs(x - max(2, math.ceil(want - 1e-6)))):
            if i + n > len(out):
                continue
            e = arc(P, uin[k], uout[k], tn, re, n)
            if np.abs(e - out[i : i + n]).max() <= eps:
                ok = n
                break
        if ok is None:
            e = arc(P, uin[k], uout[k], tn, re, 2)
            return (i, clause, "no arc of radius %g from %s to %s at corner %s: %s" % (re, e[0], e[1], P, out[i : i + 6].tolist())), seen
        if abs(ok - max(2, math.ceil(want - 1e-6))) > 1:
            return (i, "number-of-points", "%d points for a corner of %g with %g per turn" % (ok, tn, ppp)), seen
        seen += [clause, "number-of-points"]
        i += ok
    if i != len(out):
        return (i, "arcs", "%d more points" % (len(out) - i)), seen
    return None, seen


def clean(p, radii):
    """Without repeated vertices (the later one of each pair stays)."""
    keep = [k for k in range(len(p)) if np.abs(p[k] - p[k - 1]).max() > 0]
    return p[keep], [radii[k] for k in keep]


def subject(rng, m, s):
    kind = rng.choice(["set", "set", "set", "set", "polygon", "rectangle", "ring", "text", "path"])
    lt = dict(layer=rng.choice([0, 3]), datatype=rng.choice([0, 9]))
    if kind == "set":
        pols = [polygon(rng, s) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.2:
            # a closing point or a repeated vertex
            j = rng.randrange(len(pols))
            k = rng.randrange(len(pols[j]) + 1)
            pols[j] = np.insert(pols[j], k, pols[j][k % len(pols[j])], axis=0)
        if rng.random() < 0.15:
            pols = [np.round(p / s * 30).astype(int) for p in pols]
            if any(abs(corners(clean(p, p)[0].astype(float))[4]).max() > 3.1 for p in pols):
                pols = [np.array([(0, 0), (7, 0), (7, 5), (3, 5), (3, 9), (0, 9)])]
            if rng.random() < 0.5:
                pols = [p.tolist() for p in pols]
        return kind, gdspy.PolygonSet(pols, **lt)
    if kind == "polygon":
        return kind, gdspy.Polygon(polygon(rng, s), **lt)
    if kind == "rectangle":
        return kind, gdspy.Rectangle((0, 0), (rng.uniform(0.1, 1) * s, rng.uniform(-1, -0.1) * s), **lt)
    if kind == "ring":
        return kind, gdspy.Round((0, 0), s, initial_angle=0, final_angle=rng.uniform(0.5, 5), number_of_points=rng.choice([6, 9]), **lt)
    if kind == "text":
        return kind, gdspy.Text(rng.choice("ABTZ7"), s, **lt)
    return kind, gdspy.Path(0.1 * s, (0, 0)).segment(s, "+x", **lt).segment(s, "+y", **lt)


def radii_for(rng, s, pols):
    """(argument, radius of every vertex, form)."""
    r = lambda: rng.choice([rng.uniform(0.005, 0.1), rng.uniform(0.005, 0.1), rng.uniform(0.1, 0.5), 0, 3]) * s
    form = rng.choice(["number", "number", "polygons", "vertices", "flat", "mixed"])
    n = [len(p) for p in pols]
    if form == "number":
        x = r() if rng.random() < 0.8 else np.float64(r())
        return x, [[x] * k for k in n], form
    if form == "polygons":
        x = [r() for _ in n]
        return (x if rng.random() < 0.5 else np.array(x)), [[y] * k for y, k in zip(x, n)], form
    full = [[r() for _ in range(k)] for k in n]
    if form == "vertices":
        return [list(x) if rng.random() < 0.5 else np.array(x) for x in full], full, form
    if form == "flat":
        if sum(n) == len(n):
            return 0, [[0] * k for k in n], "number"
        x = [y for z in full for y in z]
        return (x if rng.random() < 0.5 else np.array(x)), full, form
    arg = []
    for j, k in enumerate(n):
        if rng.random() < 0.5:
            arg.append(full[j][0])
            full[j] = [full[j][0]] * k
        else:
            arg.append(tuple(full[j]))
    return arg, full, form


def size_of(pols):
    return max(np.abs(p).max() for p in pols)


def case_fillet(rng, m, s):
    kind, obj = subject(rng, m, s)
    pols = [np.array(p, dtype=float) for p in obj.polygons]
    arg, radii, form = radii_for(rng, s, pols)
    kw = {}
    ppp = 128
    if rng.random() < 0.7:
        ppp = kw["points_per_2pi"] = rng.choice([1, 4, 8, 16, 64, 100, 128, 256])
    kw["max_points"] = rng.choice([0, 10 ** 6])
    lt = (list(obj.layers), list(obj.datatypes))
    obj.properties[4] = "p"
    before = copy.deepcopy(arg)
    m.ctx(kind=kind, polygons=[p.tolist() for p in pols], radius=repr(arg), options=kw)
    r = obj.fillet(arg, **kw)
    m.check(r is obj, "returns-itself", "fillet returned %r" % (type(r),))
    m.check(repr(before) == repr(arg), "returns-itself", "fillet changed the radii to %r" % (arg,))
    m.check((list(obj.layers), list(obj.datatypes)) == lt and len(obj.polygons) == len(pols) and obj.properties == {4: "p"}, "layers", "layers %s, datatypes %s, %d polygons" % (obj.layers, obj.datatypes, len(obj.polygons)))
    turns = []
    for p, rr, out in zip(pols, radii, obj.polygons):
        p, rr = clean(p, rr)
        near = np.abs(corners(p.astype(float))[4])
        if ((near > 1e-8) & (near < 1e-4)).any():
            m.skip("a vertex that is almost straight")
            continue
        eps = 1e-9 * (size_of([p]) + s) + 3e-8 * s * (kind in ("text", "path", "ring"))
        out = np.asarray(out, dtype=float)
        m.check(np.isfinite(out).all(), "arcs", "points that are not finite")
        first, found = None, None
        for start in [len(p) - 1] + list(range(len(p) - 1)):
            bad, seen = parse(p, rr, ppp, out, start, eps)
            if bad is None:
                found = seen
                break
            if first is None or bad[0] > first[0]:
                first = bad
        if found is None:
            m.violate(first[1], "%s (of polygon %s)" % (first[2], p.tolist()))
            continue
        for x in found:
            m.seen(x)
        turns.append(tuple(sorted(set(found))))
    m.state("fillet", kind, form, ppp, [len(p) for p in pols], turns)
    m.sample(dict(kind=kind, radii=form, points_per_2pi=ppp, vertices=[len(p) for p in pols]))


def case_limit(rng, m, s):
    """With a limit of points per polygon."""
    pols = [polygon(rng, s) for _ in range(rng.choice([1, 2]))]
    # apart from each other
    pols = [p + np.array((8 * s * i, 0)) for i, p in enumerate(pols)]
    lt = [(rng.choice([0, 3]), rng.choice([0, 9])) for _ in pols]
    obj = gdspy.PolygonSet(pols)
    obj.layers, obj.datatypes = [x[0] for x in lt], [x[1] for x in lt]
    r = rng.uniform(0.01, 0.3) * s
    ppp = rng.choice([32, 128, 512])
    mx = rng.choice([5, 8, 20, 50, 199])
    m.ctx(polygons=[p.tolist() for p in pols], radius=r, points_per_2pi=ppp, max_points=mx)
    whole = gdspy.PolygonSet([p.copy() for p in pols]).fillet(r, ppp, 0)
    prec = 1e-5 * s
    kw = {} if mx == 199 and rng.random() < 0.5 else dict(max_points=mx)
    obj.fillet(r, ppp, precision=prec, **kw)
    m.state("limit", [len(p) for p in whole.polygons], mx)
    m.check(all(len(p) <= mx for p in obj.polygons), "fractured", "polygons of %s points with a limit of %d" % ([len(p) for p in obj.polygons], mx))
    m.check(len(obj.polygons) == len(obj.layers) == len(obj.datatypes), "layers", "%d polygons, %d layers, %d datatypes" % (len(obj.polygons), len(obj.layers), len(obj.datatypes)))
    for x in set(lt):
        got = [p for p, a, b in zip(obj.polygons, obj.layers, obj.datatypes) if (a, b) == x]
        exp = [p for p, y in zip(whole.polygons, lt) if y == x]
        if not m.check(len(got) > 0, "layers", "nothing on %s" % (x,)):
            continue
        bad, n = stroke.compare(rng, got, exp, 3 * prec, 40)
        m.count("points judged", n)
        m.check(bad is None, "fractured", "%s" % bad)


def case_wrong(rng, m, s):
    """Lists of a wrong length are refused and nothing is changed."""
    pols = [polygon(rng, s) for _ in range(rng.choice([2, 3]))]
    obj = gdspy.PolygonSet([p.copy() for p in pols])
    n = [len(p) for p in pols]
    kind = rng.choice(["nested", "flat"])
    if kind == "nested":
        arg = [[0.01 * s] * k for k in n]
        j = rng.randrange(len(n))
        arg[j] = [0.01 * s] * (n[j] + rng.choice([-1, 1, 5]))
    else:
        arg = [0.01 * s] * (sum(n) + rng.choice([-1, 1, 3]))
    m.state("wrong", kind, len(pols))
    m.ctx(vertices=n, radii=repr(arg))
    try:
        obj.fillet(arg)
        m.violate("wrong-length", "accepted")
    except ValueError:
        m.seen("wrong-length")
    except Exception as e:
        m.violate("wrong-length", "%s: %s" % (type(e).__name__, e))
    m.check(len(obj.polygons) == len(pols) and all(np.array_equal(p, q) for p, q in zip(pols, obj.polygons)), "wrong-length", "polygons changed before the error")
