"""Compares elements decoded by gds.py with the descriptions made by libgen."""
import math

import numpy as np

import geom

HALF = 0.5 + 1e-5
PATHTYPE = {"flush": 0, "round": 1, "extended": 2, "smooth": 1}


def near(ints, want, c, slack=0.0):
    """ints: database units; want: user units.  Half a unit, plus float noise."""
    a, b = np.asarray(ints, dtype=float), np.asarray(want, dtype=float)
    if a.shape != b.shape:
        return False
    b = b * c.mult
    return a.size == 0 or bool(np.all(np.abs(a - b) <= HALF + slack + 4e-16 * np.abs(b) * 4))


def num(v, w):
    if v is None or w is None:
        return v is None and w is None
    return v == w or abs(v - w) <= 1e-15 * max(abs(v), abs(w))


def strans(e, d):
    if bool(e.get("strans", 0) & 0x8000) != d["x_reflection"]:
        return "reflection"
    if e.get("strans", 0) & ~0x8000:
        return "strans bits %x" % e["strans"]
    for k, n in (("mag", "magnification"), ("angle", "rotation")):
        if not num(e.get(k), d[n]):
            if not (e.get(k) is None and d[n] == (1 if k == "mag" else 0)):
                return "%s %r, wanted %r" % (n, e.get(k), d[n])
    return None


def differs(e, d, c):
    """None, or what is wrong with the decoded element e described by d."""
    if e["kind"] != d["kind"]:
        return "kind %s" % e["kind"]
    for k in ("layer", "datatype", "texttype", "sname", "text", "colrow"):
        if k in d and e.get(k) != d[k]:
            return "%s %r, wanted %r" % (k, e.get(k), d[k])
    if e["props"] != list(d["props"].items()) and sorted(e["props"]) != sorted(d["props"].items()):
        return "properties %r, wanted %r" % (e["props"], d["props"])
    k = e["kind"]
    if k == "boundary":
        if not near(e["xy"][:-1], d["xy"], c):
            return "vertices"
    elif k == "text":
        if e.get("presentation", 0) != d["anchor"]:
            return "presentation %r, wanted %r" % (e.get("presentation"), d["anchor"])
        if not near(e["xy"], d["xy"], c):
            return "position %r" % (e["xy"],)
        return strans(e, d)
    elif k in ("sref", "aref"):
        w = d["xy"]
        if k == "aref":
            (x, y), (cols, rows), (sx, sy) = w[0], d["colrow"], d["spacing"]
            t = math.radians(d["rotation"] or 0)
            f = -1 if d["x_reflection"] else 1
            w = np.array([(x, y), (x + cols * sx * math.cos(t), y + cols * sx * math.sin(t)),
                          (x - f * rows * sy * math.sin(t), y + f * rows * sy * math.cos(t))])
        if not near(e["xy"], w, c, 1e-9 * np.abs(w).max() * c.mult if k == "aref" else 0):
            return "points %r, wanted %r" % (e["xy"], (w * c.mult).tolist())
        return strans(e, d)
    elif k == "path":
        pt = 4 if isinstance(d["ends"], tuple) else PATHTYPE[d["ends"]]
        if e.get("pathtype", 0) != pt:
            return "path type %r, wanted %d" % (e.get("pathtype"), pt)
        if not near(e.get("width", 0), d["width"] * (1 if d["wt"] else -1), c):
            return "width %r, wanted %r" % (e.get("width"), d["width"] * c.mult)
        if pt == 4:
            if not (near(e.get("bgnextn", 0), d["ends"][0], c) and near(e.get("endextn", 0), d["ends"][1], c)):
                return "extensions %r %r, wanted %r" % (e.get("bgnextn"), e.get("endextn"), d["ends"])
        elif "bgnextn" in e or "endextn" in e:
            return "extensions without need"
        if "xy" in d:
            if not near(e["xy"], d["xy"], c, 1e-9 * np.abs(d["xy"]).max() * c.mult):
                return "points of the path"
        else:
            got = np.array(e["xy"], dtype=float) * c.grid
            cur = d["curve"]
            sag = 2e-4 * c.s * 0.1
            ends = max(np.abs(got[0] - cur[0]).max(), np.abs(got[-1] - cur[-1]).max())
            if ends > HALF * c.grid + 1e-6 * c.s:
                return "ends of the path %r" % ((got[0] - cur[0]) / c.grid,)
            out = geom.dist_to_polyline(cur, got).max()
            if out > 0.708 * c.grid + sag + d.get("on", 0.0):
                return "points off the curve by %g (grid %g)" % (out, c.grid)
            back = geom.dist_to_polyline(got, cur).max()
            if back > d["tol"] + 0.708 * c.grid + sag:
                return "curve off the points by %g" % back
    return None


def compare(elements, docs, c):
    """None, or a message.  The order of the elements does not matter."""
    if len(elements) == len(docs):
        if all(differs(e, d, c) is None for e, d in zip(elements, docs)):
            return None
    rest = list(elements)
    for d in docs:
        for i, e in enumerate(rest):
            if differs(e, d, c) is None:
                del rest[i]
                break
        else:
            same = [e for e in rest if e["kind"] == d["kind"]]
            return "no element for %s: %s" % (brief(d), "; ".join("%s: %s" % (brief(e), differs(e, d, c)) for e in same[:3]) or "none of that kind")
    if rest:
        return "unexpected element %s" % brief(rest[0])
    return None


def brief(d):
    return "{" + ", ".join("%s=%s" % (k, str(v)[:60].replace("\n", " ")) for k, v in d.items() if k not in ("xyrecords", "curve")) + "}"
