"""C31: what an argument left out means."""
import copy
import datetime
import hashlib
import io
import math
import os
import random
import tempfile
import warnings

import gdspy
import numpy as np

import gen
import geom
import hier
import snap

RULE = (
    "Random calls of the documented interface (constructors, path sections, curves, operations, transformations, queries, files) are made several times with equal arguments: with some optional arguments left out, with the "
    "documented default given in their place, with all arguments by position in the documented order, and with all of them by name in any order. The objects, results and files must be identical. "
    "Arguments whose default is None are also given explicitly as what the documentation says is meant (the current width, the first direction, no rotation, every depth, all cells, the same factor on both axes...), and the results must agree to rounding. "
    "Non-trivial: calls with other values of the arguments left out give other results (counted as sensitive); distinct by function, arguments left out and size of the result."
)
ASSUMPTIONS = ["The defaults are those of the documented signatures (written down in the table of this check)."]
REQUIRED = ["omitted", "by-position", "by-name", "meaning-of-none", "sensitive"]
CPU_LIMIT = 90

R = ["required"]
# the documented signatures: name and default of each parameter, in order
DOC = {
    "PolygonSet": [("polygons", R), ("layer", 0), ("datatype", 0)],
    "Polygon": [("points", R), ("layer", 0), ("datatype", 0)],
    "Rectangle": [("point1", R), ("point2", R), ("layer", 0), ("datatype", 0)],
    "Round": [("center", R), ("radius", R), ("inner_radius", 0), ("initial_angle", 0), ("final_angle", 0), ("tolerance", 0.01), ("number_of_points", None), ("max_points", 199), ("layer", 0), ("datatype", 0)],
    "Text": [("text", R), ("size", R), ("position", (0, 0)), ("horizontal", True), ("angle", 0), ("layer", 0), ("datatype", 0)],
    "Path": [("width", R), ("initial_point", (0, 0)), ("number_of_paths", 1), ("distance", 0)],
    "Path.segment": [("length", R), ("direction", None), ("final_width", None), ("final_distance", None), ("axis_offset", 0), ("layer", 0), ("datatype", 0)],
    "Path.arc": [("radius", R), ("initial_angle", R), ("final_angle", R), ("tolerance", 0.01), ("number_of_points", None), ("max_points", 199), ("final_width", None), ("final_distance", None), ("layer", 0), ("datatype", 0)],
    "Path.turn": [("radius", R), ("angle", R), ("tolerance", 0.01), ("number_of_points", None), ("max_points", 199), ("final_width", None), ("final_distance", None), ("layer", 0), ("datatype", 0)],
    "Path.parametric": [("curve_function", R), ("curve_derivative", None), ("tolerance", 0.01), ("number_of_evaluations", 5), ("max_points", 199), ("final_width", None), ("final_distance", None), ("relative", True), ("layer", 0), ("datatype", 0)],
    "Path.bezier": [("points", R), ("tolerance", 0.01), ("number_of_evaluations", 5), ("max_points", 199), ("final_width", None), ("final_distance", None), ("relative", True), ("layer", 0), ("datatype", 0)],
    "Path.smooth": [("points", R), ("angles", None), ("curl_start", 1), ("curl_end", 1), ("t_in", 1), ("t_out", 1), ("cycle", False), ("tolerance", 0.01), ("number_of_evaluations", 5), ("max_points", 199), ("final_widths", None), ("final_distances", None), ("relative", True), ("layer", 0), ("datatype", 0)],
    "L1Path": [("initial_point", R), ("direction", R), ("width", R), ("length", R), ("turn", R), ("number_of_paths", 1), ("distance", 0), ("max_points", 199), ("layer", 0), ("datatype", 0)],
    "PolyPath": [("points", R), ("width", R), ("number_of_paths", 1), ("distance", 0), ("corners", "miter"), ("ends", "flush"), ("max_points", 199), ("layer", 0), ("datatype", 0)],
    "rotate": [("angle", R), ("center", (0, 0))],
    "mirror": [("p1", R), ("p2", (0, 0))],
    "scale": [("scalex", R), ("scaley", None), ("center", (0, 0))],
    "path-scale": [("scale", R), ("center", (0, 0))],
    "transform": [("translation", R), ("rotation", R), ("scale", R), ("x_reflection", R), ("array_trans", None)],
    "fracture": [("max_points", 199), ("precision", 0.001)],
    "fillet": [("radius", R), ("points_per_2pi", 128), ("max_points", 199), ("precision", 0.001)],
    "area": [("by_spec", False)],
    "get_polygons": [("by_spec", False)],
    "Curve": [("x", R), ("y", 0), ("tolerance", 0.01)],
    "Curve.arc": [("radius", R), ("initial_angle", R), ("final_angle", R), ("rotation", 0)],
    "Curve.smooth": [("points", R), ("angles", None), ("curl_start", 1), ("curl_end", 1), ("t_in", 1), ("t_out", 1), ("cycle", False)],
    "FlexPath": [("points", R), ("width", R), ("offset", 0), ("corners", "natural"), ("ends", "flush"), ("bend_radius", None), ("tolerance", 0.01), ("precision", 0.001), ("max_points", 199), ("gdsii_path", False), ("width_transform", True), ("layer", 0), ("datatype", 0)],
    "RobustPath": [("initial_point", R), ("width", R), ("offset", 0), ("ends", "flush"), ("tolerance", 0.01), ("precision", 0.001), ("max_points", 199), ("max_evals", 1000), ("gdsii_path", False), ("width_transform", True), ("layer", 0), ("datatype", 0)],
    "x.segment": [("end_point", R), ("width", None), ("offset", None), ("relative", False)],
    "x.arc": [("radius", R), ("initial_angle", R), ("final_angle", R), ("width", None), ("offset", None)],
    "x.turn": [("radius", R), ("angle", R), ("width", None), ("offset", None)],
    "x.bezier": [("points", R), ("width", None), ("offset", None), ("relative", True)],
    "FlexPath.parametric": [("curve_function", R), ("width", None), ("offset", None), ("relative", True)],
    "RobustPath.parametric": [("curve_function", R), ("curve_derivative", None), ("width", None), ("offset", None), ("relative", True)],
    "x.smooth": [("points", R), ("angles", None), ("curl_start", 1), ("curl_end", 1), ("t_in", 1), ("t_out", 1), ("cycle", False), ("width", None), ("offset", None), ("relative", True)],
    "RobustPath.grad": [("u", R), ("arm", 0), ("side", "-")],
    "Label": [("text", R), ("position", R), ("anchor", "o"), ("rotation", None), ("magnification", None), ("x_reflection", False), ("layer", 0), ("texttype", 0)],
    "CellReference": [("ref_cell", R), ("origin", (0, 0)), ("rotation", None), ("magnification", None), ("x_reflection", False), ("ignore_missing", False)],
    "CellArray": [("ref_cell", R), ("columns", R), ("rows", R), ("spacing", R), ("origin", (0, 0)), ("rotation", None), ("magnification", None), ("x_reflection", False), ("ignore_missing", False)],
    "cell.get_polygons": [("by_spec", False), ("depth", None)],
    "cell.get_depth": [("depth", None)],
    "cell.get_labels": [("depth", None), ("set_transform", False)],
    "cell.get_dependencies": [("recursive", False)],
    "Cell.copy": [("name", R), ("deep_copy", False), ("translation", None), ("rotation", None), ("scale", None), ("x_reflection", False)],
    "Cell.flatten": [("single_layer", None), ("single_datatype", None), ("single_texttype", None)],
    "Cell.write_svg": [("outfile", R), ("scaling", 10), ("style", None), ("fontstyle", None), ("background", "#222"), ("pad", "5%"), ("precision", None)],
    "GdsLibrary": [("name", "library"), ("infile", None), ("unit", 1e-6), ("precision", 1e-9)],
    "GdsLibrary.add": [("cell", R), ("include_dependencies", True), ("overwrite_duplicate", False), ("update_references", True)],
    "GdsLibrary.new_cell": [("name", R), ("overwrite_duplicate", False), ("update_references", True)],
    "GdsLibrary.remove": [("cell", R), ("remove_references", True)],
    "GdsLibrary.rename_cell": [("cell", R), ("name", R), ("update_references", True)],
    "GdsLibrary.read_gds": [("infile", R), ("units", "skip"), ("rename", {}), ("rename_template", "{name}"), ("layers", {}), ("datatypes", {}), ("texttypes", {})],
    "GdsLibrary.write_gds": [("outfile", R), ("cells", None), ("timestamp", None), ("binary_cells", None)],
    "GdsWriter": [("outfile", R), ("name", "library"), ("unit", 1e-6), ("precision", 1e-9), ("timestamp", None)],
    "write_gds": [("outfile", R), ("cells", None), ("name", "library"), ("unit", 1e-6), ("precision", 1e-9), ("timestamp", None), ("binary_cells", None)],
    "Cell": [("name", R), ("exclude_from_current", False)],
    "copy": [("obj", R), ("dx", 0), ("dy", 0)],
    "gdsii_hash": [("filename", R), ("engine", None)],
    "boolean": [("operand1", R), ("operand2", R), ("operation", R), ("precision", 0.001), ("max_points", 199), ("layer", 0), ("datatype", 0)],
    "offset": [("polygons", R), ("distance", R), ("join", "miter"), ("tolerance", 2), ("precision", 0.001), ("join_first", False), ("max_points", 199), ("layer", 0), ("datatype", 0)],
    "slice": [("polygons", R), ("position", R), ("axis", R), ("precision", 0.001), ("layer", 0), ("datatype", 0)],
    "inside": [("points", R), ("polygons", R), ("short_circuit", "any"), ("precision", 0.001)],
}
TIME = datetime.datetime(2020, 3, 4, 5, 6, 7)


def cases(tier):
    k = 5 if tier == "quick" else 110
    return [("call", 500 * k), ("none", 200 * k)]


# -- values

def lay(rng):
    return rng.choice([1, 2, 7, 255])


COMMON = {
    "layer": lay,
    "datatype": lay,
    "texttype": lay,
    "tolerance": lambda rng: rng.choice([0.001, 0.005, 0.02, 0.3]),
    "precision": lambda rng: rng.choice([1e-4, 5e-4, 0.002, 0.01]),
    "max_points": lambda rng: rng.choice([0, 8, 100, 198, 200]),
    "relative": lambda rng: rng.random() < 0.5,
    "by_spec": lambda rng: True,
    "x_reflection": lambda rng: True,
    "center": lambda rng: (rng.uniform(-3, 3), rng.uniform(-3, 3)),
    "origin": lambda rng: (rng.uniform(-3, 3), rng.uniform(-3, 3)),
    "rotation": lambda rng: rng.uniform(-170, 170),
    "magnification": lambda rng: rng.uniform(0.3, 3),
    "gdsii_path": lambda rng: True,
    "width_transform": lambda rng: False,
    "ends": lambda rng: rng.choice(["round", "extended", "flush"]),
    "curl_start": lambda rng: rng.uniform(0.3, 3),
    "curl_end": lambda rng: rng.uniform(0.3, 3),
    "t_in": lambda rng: rng.uniform(0.8, 2),
    "t_out": lambda rng: rng.uniform(0.8, 2),
    "cycle": lambda rng: True,
    "number_of_evaluations": lambda rng: rng.choice([3, 4, 6, 10]),
    "recursive": lambda rng: True,
    "set_transform": lambda rng: True,
    "depth": lambda rng: rng.choice([0, 1, 2]),
    "initial_angle": lambda rng: rng.uniform(0, 3),
    "final_angle": lambda rng: rng.uniform(3.2, 6),
    "overwrite_duplicate": lambda rng: True,
    "update_references": lambda rng: False,
    "remove_references": lambda rng: False,
    "include_dependencies": lambda rng: False,
    "join_first": lambda rng: True,
}


def npoly(rng, n, s=5.0):
    """A star-shaped polygon of n vertices."""
    r = [s * rng.uniform(0.7, 1) for _ in range(n)]
    return [(r[i] * math.cos(2 * math.pi * i / n), r[i] * math.sin(2 * math.pi * i / n)) for i in range(n)]


def count(rng):
    return rng.choice([rng.randrange(3, 12), rng.randrange(197, 203), rng.randrange(197, 203), 199, 200, 201])


def polys(rng):
    return [np.array(npoly(rng, rng.choice([3, 4, 5, 9, 30]))) + np.array((rng.uniform(-5, 5), rng.uniform(-5, 5))) for _ in range(rng.choice([1, 2, 3]))]


def line(rng, n=None):
    p = [(rng.uniform(-1, 1), rng.uniform(-1, 1))]
    a = rng.uniform(0, 6)
    for _ in range(n or rng.choice([2, 3, 4])):
        a += rng.uniform(-1.3, 1.3)
        r = rng.uniform(3, 6)
        p.append((p[-1][0] + r * math.cos(a), p[-1][1] + r * math.sin(a)))
    return p


def bez(rng):
    return [(rng.uniform(3, 6) * (i + 1), rng.uniform(-4, 4)) for i in range(rng.choice([1, 2, 3]))]


def smooth_points(rng):
    return [(4.0 * (i + 1) + rng.uniform(-1, 1), rng.uniform(-3, 3)) for i in range(rng.choice([2, 3]))]


def some(rng, d):
    """Other values for optional arguments."""
    out = {}
    for k, f in d.items():
        out[k] = f(rng)
    return out


def curve_function(a, b):
    return lambda u: (a * u, b * math.sin(3 * u))


def curve_derivative(a, b):
    return lambda u: (a, 3 * b * math.cos(3 * u))


def robust_function(a, b):
    return lambda u: np.array((a * u, b * np.sin(3 * u)))


def robust_derivative(a, b):
    return lambda u: np.array((a, 3 * b * np.cos(3 * u)))


# -- entries: each returns (name, call, required, alternatives); call(args, kwargs) makes everything anew and returns what to compare

def ctor(name, cls, see=None):
    def call(a, k):
        return snap.snap(cls(*a, **k)) + (see(cls(*a, **k)) if see else [])
    return call


def method(make, name):
    def call(a, k):
        o = make()
        r = getattr(o, name)(*a, **k)
        end = [float(o.x), float(o.y), snap.val(o.direction)] if isinstance(o, gdspy.L1Path) else []
        return [r is o, snap.snap(o), end, None if r is o else snap.snap(r)]
    return call


def e_polygonset(rng):
    return "PolygonSet", ctor("PolygonSet", gdspy.PolygonSet), {"polygons": polys(rng)}, {}


def e_polygon(rng):
    return "Polygon", ctor("Polygon", gdspy.Polygon), {"points": npoly(rng, 5)}, {}


def e_rectangle(rng):
    return "Rectangle", ctor("Rectangle", gdspy.Rectangle), {"point1": (rng.uniform(-3, 0), 1.5), "point2": (2, rng.uniform(2, 3))}, {}


def e_round(rng):
    r = rng.choice([5.0, 40.0, 300.0, (5.0, 3.0)])
    alt = {"inner_radius": lambda rng: 2.0 if rng.random() < 0.7 else (1.0, 2.0), "number_of_points": count, "max_points": lambda rng: rng.choice([0, 20, 198, 200])}
    return "Round", ctor("Round", gdspy.Round), {"center": (rng.uniform(-5, 5), rng.uniform(-5, 5)), "radius": r}, alt


def e_text(rng):
    alt = {"position": COMMON["center"], "horizontal": lambda rng: False, "angle": lambda rng: rng.uniform(0.1, 3)}
    return "Text", ctor("Text", gdspy.Text), {"text": rng.choice(["Ab", "x\ny", "4 2"]), "size": rng.uniform(1, 10)}, alt


def path_maker(rng):
    w, n, d, t = rng.uniform(0.1, 0.5), rng.choice([1, 1, 2, 3]), rng.uniform(1, 1.5), rng.random() < 0.7
    turn = rng.choice([0.7, -1.1])
    start = rng.choice(["+x", "-y", 0.4])

    def make():
        p = gdspy.Path(w, (1, 2), n, d)
        if t:
            p.segment(2, start).turn(4, turn)
        return p

    return make, n


PATHALT = {"final_width": lambda rng: rng.uniform(0.05, 0.8), "final_distance": lambda rng: rng.uniform(1, 2), "number_of_points": lambda rng: 2 * count(rng) // 2 if rng.random() < 0.5 else rng.choice([8, 20])}


def e_path(rng):
    alt = {"initial_point": COMMON["center"], "number_of_paths": lambda rng: 3, "distance": lambda rng: 2.5}

    def call(a, k):
        return snap.snap(gdspy.Path(*a, **k).segment(3, "+y"))

    return "Path", call, {"width": rng.uniform(0.2, 1)}, alt


def e_pathsection(rng):
    make, n = path_maker(rng)
    k = rng.choice(["segment", "arc", "turn", "parametric", "bezier", "smooth"])
    alt = dict(PATHALT)
    if n == 2 and rng.random() < 0.5:
        alt["layer"] = lambda rng: [1, 5]
        alt["datatype"] = lambda rng: [6, 2]
    big = rng.choice([5.0, 60.0, 900.0])
    if k == "segment":
        req = {"length": rng.uniform(1, 5)}
        alt.update(direction=lambda rng: rng.choice(["-x", "+y", 2.0]), axis_offset=lambda rng: rng.uniform(0.2, 1))
    elif k == "arc":
        req = {"radius": big, "initial_angle": rng.uniform(0, 1), "final_angle": rng.uniform(2, 5)}
    elif k == "turn":
        req = {"radius": big, "angle": rng.choice(["l", "rr", 1.3, -2.0])}
    elif k == "parametric":
        a, b = big, big / 5 * rng.uniform(-3, 3)
        req = {"curve_function": curve_function(a, b)}
        alt["curve_derivative"] = lambda rng: curve_derivative(a, b)
    elif k == "bezier":
        req = {"points": [(big / 5 * x, big / 5 * y) for x, y in bez(rng)]}
    else:
        pts = smooth_points(rng)
        req = {"points": [(big / 5 * x, big / 5 * y) for x, y in pts]}
        ang = [None] * (len(pts) + 1)
        ang[0] = 0.3
        alt.update(angles=lambda rng: ang)
        alt.update(final_widths=lambda rng: [0.3] * (len(pts) + 0), final_distances=lambda rng: [1.2] * len(pts))
    return "Path." + k, method(make, k), req, alt


def e_l1(rng):
    n = rng.choice([0, 1, 3, 3, rng.randrange(95, 103)])
    req = {"initial_point": (1, rng.uniform(-1, 1)), "direction": rng.choice(["+x", "-x", "+y", "-y"]), "width": rng.uniform(0.1, 0.3), "length": [rng.uniform(3, 9) for _ in range(n + 1)], "turn": [rng.choice([1, -1]) for _ in range(n)]}
    return "L1Path", ctor("L1Path", gdspy.L1Path), req, {"number_of_paths": lambda rng: 2, "distance": lambda rng: 0.7, "max_points": lambda rng: rng.choice([4, 6])}


def e_polypath(rng):
    n = rng.choice([None, None, rng.randrange(96, 104)])
    pts = line(rng) if n is None else [(2.0 * i, rng.uniform(0, 0.4)) for i in range(n)]
    alt = {"number_of_paths": lambda rng: 2, "distance": lambda rng: 0.7, "corners": lambda rng: "bevel"}
    return "PolyPath", ctor("PolyPath", gdspy.PolyPath), {"points": pts, "width": rng.uniform(0.1, 0.3)}, alt


def shape_maker(rng):
    k = rng.choice(["set", "rect", "path", "round", "l1", "poly"])
    ps = [npoly(rng, count(rng)), npoly(rng, 4)]

    def make():
        if k == "set":
            return gdspy.PolygonSet(ps, 3, 4)
        if k == "rect":
            return gdspy.Rectangle((1, 2), (4, 3.5), 3, 4)
        if k == "path":
            return gdspy.Path(0.3, (1, 2)).segment(3, "+x", layer=4).turn(3, "l", datatype=5)
        if k == "l1":
            return gdspy.L1Path((1, 2), "+x", 0.3, [3, 4, 5], [1, -1])
        if k == "poly":
            return gdspy.PolyPath([(1, 2), (4, 3), (5, 8)], 0.4, 2, 1)
        return gdspy.Round((1, 2), 4, number_of_points=len(ps[0]), max_points=0)

    return make


def e_setmethod(rng):
    make = shape_maker(rng)
    k = rng.choice(["rotate", "mirror", "scale", "fracture", "fillet", "area"])
    alt = {"p2": lambda rng: (rng.uniform(1, 2), rng.uniform(-2, -1)), "scaley": lambda rng: rng.uniform(0.5, 2), "points_per_2pi": lambda rng: rng.choice([32, 127, 129, 196, 200, 256])}
    req = {"rotate": {"angle": rng.uniform(-3, 3)}, "mirror": {"p1": (3, rng.uniform(1, 4))}, "scale": {"scalex": rng.choice([0.5, -2.0])}, "fillet": {"radius": rng.choice([0.1, 0.3, 1.5])}}.get(k, {})
    return k, method(make, k), req, alt


def e_pathmethod(rng):
    fl = rng.random() < 0.5
    pts = line(rng)
    off = rng.choice([0.0, 0.4])

    def make():
        if fl:
            return gdspy.FlexPath(pts, [0.2, 0.3], off, layer=2)
        return gdspy.RobustPath(pts[0], [0.2, 0.3], off, layer=2).segment(pts[1]).segment(pts[2])

    k = rng.choice(["rotate", "path-scale", "transform", "area", "get_polygons", "grad"])
    req = {"rotate": {"angle": rng.uniform(-3, 3)}, "path-scale": {"scale": rng.uniform(0.5, 2)}, "transform": {"translation": np.array((1.0, 2.0)), "rotation": 0.5, "scale": 1.5, "x_reflection": rng.random() < 0.5}}.get(k, {})
    alt = {"array_trans": lambda rng: np.array((3.0, -4.0))}
    if k == "grad":
        fl = False
        return "RobustPath.grad", method(make, k), {"u": rng.choice([0.3, 1, 1.5])}, {"arm": lambda rng: rng.choice([-1, 1]), "side": lambda rng: "+"}
    return k, method(make, k.replace("path-", "")), req, alt


def e_curve(rng):
    r = rng.uniform(3, 300)

    def call(a, k):
        return snap.snap(gdspy.Curve(*a, **k).arc(r, 0.3, 2).get_points())

    if rng.random() < 0.3:
        x = rng.uniform(1, 3)
        return "Curve", call, {"x": x}, {"y": lambda rng: rng.uniform(1, 3)}
    k = rng.choice(["arc", "I", "i"])

    def call2(a, kw):
        c = gdspy.Curve(1, 2, 0.02).L(3, 3, 4, 2)
        out = getattr(c, k)(*a, **kw)
        return [out is c, snap.snap(c.get_points())]

    if k == "arc":
        return "Curve.arc", call2, {"radius": rng.choice([2.0, (2.0, 3.0)]), "initial_angle": rng.uniform(0, 1), "final_angle": rng.uniform(2, 5)}, {"rotation": lambda rng: rng.uniform(0.2, 2)}
    pts = smooth_points(rng)
    return "Curve.smooth", call2, {"points": pts}, {"angles": lambda rng: [0.3] + [None] * len(pts)}


def seen_path(o):
    return [snap.snap(o), snap.snap(o.get_polygons(True)), snap.snap(o.to_polygonset())]


def e_flex(rng):
    n = rng.choice([None, None, rng.randrange(96, 104)])
    pts = line(rng) if n is None else [(2.0 * i, rng.uniform(0, 0.4)) for i in range(n)]
    w = rng.uniform(0.1, 0.3) if rng.random() < 0.5 else [0.2, 0.3]
    big = rng.random() < 0.3
    alt = {"offset": lambda rng: rng.uniform(0.4, 0.8), "corners": lambda rng: rng.choice(["miter", "bevel", "round", "smooth"]), "bend_radius": lambda rng: 0.9, "ends": lambda rng: rng.choice(["round", "extended", "smooth"])}

    def call(a, k):
        p = gdspy.FlexPath(*a, **k)
        if big:
            p.turn(60, 2)
        f = io.BytesIO()
        if p.gdsii_path:
            p.to_gds(f, 1000)
        return [seen_path(p), f.getvalue()]

    return "FlexPath", call, {"points": pts, "width": w}, alt


def e_robust(rng):
    w = rng.uniform(0.1, 0.3) if rng.random() < 0.5 else [0.2, 0.3]
    big = rng.choice([3, 60])
    alt = {"offset": lambda rng: rng.uniform(0.4, 0.8), "ends": lambda rng: rng.choice(["round", "extended", "smooth"]), "max_evals": lambda rng: rng.choice([20, 50, 999])}
    q = line(rng, 1)[1]
    wild = rng.random() < 0.3

    def call(a, k):
        p = gdspy.RobustPath(*a, **k)
        p.segment((q[0] + 5, q[1])).turn(big, 1.5)
        if wild:
            p.parametric(lambda u: np.array((30 * u, 8 * np.sin(300 * u))))
        f = io.BytesIO()
        if p.gdsii_path:
            p.to_gds(f, 1000)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return [seen_path(p), f.getvalue()]

    return "RobustPath", call, {"initial_point": line(rng, 1)[0], "width": w}, alt


def e_section(rng):
    fl = rng.random() < 0.5
    pts = line(rng)
    n = rng.choice([1, 2])
    w0, o0 = ([0.2, 0.3], [-0.5, 0.6]) if n == 2 else (0.25, 0.1)

    def make():
        if fl:
            return gdspy.FlexPath(pts, w0, o0)
        return gdspy.RobustPath(pts[0], w0, o0).segment(pts[1]).segment(pts[2])

    k = rng.choice(["segment", "arc", "turn", "bezier", "parametric", "smooth"])
    alt = {"width": lambda rng: rng.uniform(0.3, 0.5) if rng.random() < 0.5 else [rng.uniform(0.3, 0.5)] * n, "offset": lambda rng: rng.uniform(0.6, 1.2) if n == 2 or rng.random() < 0.5 else [0.4]}
    a, b = rng.uniform(3, 9), rng.uniform(-3, 3)
    name = "x." + k
    if k == "segment":
        req = {"end_point": (rng.uniform(20, 25), rng.uniform(-3, 3))}
    elif k == "arc":
        req = {"radius": a, "initial_angle": rng.uniform(0, 1), "final_angle": rng.uniform(2, 5)}
    elif k == "turn":
        req = {"radius": a, "angle": rng.choice(["l", "rr", 1.3, -2.0])}
    elif k == "bezier":
        req = {"points": bez(rng)}
    elif k == "parametric":
        name = ("FlexPath." if fl else "RobustPath.") + k
        f = curve_function(a, b) if fl else robust_function(a, b)
        req = {"curve_function": f}
        alt["curve_derivative"] = lambda rng: robust_derivative(a, b)
    else:
        q = smooth_points(rng)
        req = {"points": q}
        alt["angles"] = lambda rng: [0.3] + [None] * len(q)
    return name, method(make, k), req, alt


def e_label(rng):
    alt = {"anchor": lambda rng: rng.choice(["nw", "se", "s"])}
    return "Label", ctor("Label", gdspy.Label), {"text": "abc", "position": (rng.uniform(-3, 3), 2)}, alt


def tree(rng):
    """A maker of a small hierarchy (the same one each time)."""
    seed = rng.random()

    def make():
        g = random.Random(seed)
        c = [gdspy.Cell("c%d" % i, exclude_from_current=True) for i in range(4)]
        for i, x in enumerate(c):
            for _ in range(g.choice([1, 2])):
                x.add(gdspy.Rectangle((g.uniform(0, 1), g.uniform(0, 1)), (g.uniform(2, 3), g.uniform(1, 3)), g.choice([0, 1]), g.choice([0, 2])))
            x.add(gdspy.FlexPath([(0, 0), (g.uniform(2, 3), 1), (4, 4)], 0.2, layer=2))
            x.add(gdspy.Label("l%d" % i, (g.uniform(0, 1), 1), rotation=g.choice([None, 30]), layer=g.choice([0, 3])))
            if i:
                x.add(gdspy.CellReference(c[i - 1], (g.uniform(0, 9), 1), g.choice([None, 0, 90, 33.0]), g.choice([None, 2.0]), g.random() < 0.5))
            if i > 1:
                x.add(gdspy.CellArray(c[g.randrange(i)], 2, 3, (9, 10), (1, g.uniform(0, 1)), g.choice([None, 90, 20.0]), g.choice([None, 0.5]), g.random() < 0.5))
        return c

    return make


def everything(o):
    """What can be asked of a cell or reference, without identities."""
    key = lambda d: sorted(((k, snap.snap(v)) for k, v in d.items()), key=repr)
    return [key(o.get_polygons(by_spec=True)), snap.snap(o.get_labels(set_transform=True)), snap.snap(o.get_paths()), snap.snap(o.get_bounding_box())]


def e_reference(rng):
    make = tree(rng)
    arr = rng.random() < 0.5
    cls = gdspy.CellArray if arr else gdspy.CellReference
    lost = rng.random() < 0.15

    def call(a, k):
        t = make()[2]
        if lost:
            t = "lost"
        if a:
            a = (t,) + tuple(a[1:])
        else:
            k = dict(k, ref_cell=t)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            o = cls(*a, **k)
        n = "CellArray" if arr else "CellReference"
        return [snap.attrs(o, n), [str(w.message) for w in ws], [] if lost else everything(o)]

    req = {"ref_cell": None}
    if arr:
        req.update(columns=rng.choice([1, 2]), rows=rng.choice([1, 3]), spacing=(rng.uniform(3, 9), -4))
    return cls.__name__, call, req, {"ignore_missing": lambda rng: True}


def norm(x, ids):
    """Snapshots without identities."""
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == "id":
            return ["cell", x[2], ids.setdefault(x[1], len(ids))]
        return [norm(v, ids) for v in x]
    return x


def e_query(rng):
    make = tree(rng)
    k = rng.choice(["area", "get_polygons", "get_polygonsets", "get_paths", "get_labels", "get_dependencies", "flatten", "copy"])
    ref = rng.choice([0, 0, 1, 2]) if k in ("area", "get_polygons", "get_polygonsets", "get_paths", "get_labels") else 0

    def call(a, kw):
        o = make()[3]
        if ref == 1:
            o = gdspy.CellReference(o, (1, 2), 30, 1.5, True)
        elif ref == 2:
            o = gdspy.CellArray(o, 2, 2, (40, 50), (1, 2), 30, 1.5, True)
        r = getattr(o, k)(*a, **kw)
        if k == "get_dependencies":
            return sorted(c.name for c in r)
        if isinstance(r, dict):
            return sorted(((n, snap.snap(v)) for n, v in r.items()), key=repr)
        if r is o or isinstance(r, gdspy.Cell):
            shared = [any(x is y for x in r.references for y in o.references), any(x is y for x in r.polygons for y in o.polygons), [x.ref_cell in [y.ref_cell for y in o.references] for x in r.references]]
            return [r is o, r.name, norm(snap.snap(r), {}), shared if r is not o else None]
        return norm(snap.snap(r), {})

    name = {"get_polygons": "cell.get_polygons", "get_polygonsets": "cell.get_depth", "get_paths": "cell.get_depth", "get_labels": "cell.get_labels", "get_dependencies": "cell.get_dependencies", "flatten": "Cell.flatten", "copy": "Cell.copy"}.get(k, k)
    alt = {"single_layer": lay, "single_datatype": lay, "single_texttype": lay, "deep_copy": lambda rng: True, "translation": lambda rng: (3, 4), "rotation": lambda rng: rng.uniform(0.2, 3), "scale": lambda rng: rng.uniform(0.3, 2)}
    if k == "copy":
        alt["deep_copy"] = lambda rng: True
    return name, call, {"name": "other"} if k == "copy" else {}, alt


def e_svg(rng):
    make = tree(rng)

    def call(a, k):
        fd, fn = tempfile.mkstemp(suffix=".svg")
        os.close(fd)
        try:
            if a:
                a = (fn,) + tuple(a[1:])
            else:
                k = dict(k, outfile=fn)
            c = gdspy.Cell("top", exclude_from_current=True)
            c.add(gdspy.Rectangle((0.123456789, 0), (3.2, 4.123456), 1, 2)).add(gdspy.Label("hello", (1, 1), layer=5))
            c.write_svg(*a, **k)
            with open(fn, "rb") as f:
                return f.read()
        finally:
            os.unlink(fn)

    alt = {"scaling": lambda rng: rng.uniform(1, 20), "style": lambda rng: {(1, 2): {"fill": "red"}}, "fontstyle": lambda rng: {(5, 0): {"fill": "blue"}}, "background": lambda rng: rng.choice([None, "#333"]), "pad": lambda rng: rng.choice([1.5, "10%"]), "precision": lambda rng: rng.choice([3, 5])}
    return "Cell.write_svg", call, {"outfile": None}, alt


def e_library(rng):
    make = tree(rng)
    k = rng.choice(["ctor", "add", "new_cell", "remove", "rename_cell", "read_gds", "write_gds", "writer", "module", "cell"])

    byname = rng.random() < 0.5

    def build():
        c = make()
        if byname:
            c[2].add(gdspy.CellReference("c1", (7, 7), ignore_missing=True))
        lib = gdspy.GdsLibrary("lib", unit=1e-6, precision=1e-9)
        for x in c:
            lib.add(x, False)  # (the order of dependencies is not determined)
        return lib, c

    def state(lib):
        ids = {}
        return [lib.name, lib.unit, lib.precision] + [[n, norm(snap.snap(lib.cells[n]), ids)] for n in sorted(lib.cells)]

    if k == "ctor":
        return "GdsLibrary", lambda a, kw: state(gdspy.GdsLibrary(*a, **kw)), {}, {"name": lambda rng: "n", "unit": lambda rng: 1e-3, "precision": lambda rng: 1e-8}
    if k == "module":
        # the function of the module and cells made there use the global library
        def call(a, kw):
            lib, c = build()
            before = gdspy.current_library, gdspy.library.use_current_library
            f = io.BytesIO()
            try:
                gdspy.current_library, gdspy.library.use_current_library = lib, True
                if a:
                    a = (f,) + tuple(a[1:])
                else:
                    kw = dict(kw, outfile=f)
                gdspy.write_gds(*a, **kw)
            finally:
                gdspy.current_library, gdspy.library.use_current_library = before
            return f.getvalue()

        return "write_gds", call, {"outfile": None, "timestamp": TIME}, {"name": lambda rng: "n", "unit": lambda rng: rng.choice([1e-3, 2e-6]), "precision": lambda rng: rng.choice([2e-9, 1e-8]), "cells": lambda rng: ["c0", "c2"], "binary_cells": lambda rng: []}
    if k == "cell":
        def call(a, kw):
            lib, c = build()
            before = gdspy.current_library, gdspy.library.use_current_library
            try:
                gdspy.current_library, gdspy.library.use_current_library = lib, True
                x = gdspy.Cell(*a, **kw)
            finally:
                gdspy.current_library, gdspy.library.use_current_library = before
            return [x.name, state(lib)]

        return "Cell", call, {"name": rng.choice(["fresh", "c1"])}, {"exclude_from_current": lambda rng: True}
    if k in ("add", "new_cell", "remove", "rename_cell"):
        old = rng.random() < 0.6

        def call(a, kw):
            lib, c = build()
            x = None
            if k == "add":
                x = gdspy.Cell("c1" if old else "new", exclude_from_current=True)
                x.add(gdspy.Rectangle((0, 0), (1, 1)))
                x.add(gdspy.CellReference(gdspy.Cell("dep", exclude_from_current=True)))
            elif k in ("remove", "rename_cell"):
                x = c[1] if old else "c1"
            if x is not None:
                if a:
                    a = (x,) + tuple(a[1:])
                else:
                    kw = dict(kw, cell=x)
            try:
                r = getattr(lib, k)(*a, **kw)
            except ValueError as e:
                return ["refused", state(lib)]
            if x is not None and not isinstance(x, gdspy.Cell):
                x = None
            targets = [[t.ref_cell is x or t.ref_cell is r for t in y.references] for y in c]
            return [r is lib, r.name if isinstance(r, gdspy.Cell) else type(r).__name__ if not isinstance(r, int) else r, state(lib), targets, [norm(snap.snap(y), {}) for y in c]]

        req = {"add": {"cell": None}, "new_cell": {"name": "c1" if old else "new"}, "remove": {"cell": None}, "rename_cell": {"cell": None, "name": "renamed"}}[k]
        return "GdsLibrary." + k, call, req, {}
    if k == "read_gds":
        lib, _ = build()
        f = io.BytesIO()
        lib.write_gds(f, timestamp=TIME)
        data = f.getvalue()

        def call(a, kw):
            f = io.BytesIO(data)
            if a:
                a = (f,) + tuple(a[1:])
            else:
                kw = dict(kw, infile=f)
            lib = gdspy.GdsLibrary("x", unit=1e-3, precision=1e-6)
            r = lib.read_gds(*a, **kw)
            return [r is lib, state(lib)]

        alt = {"units": lambda rng: rng.choice(["convert", "import"]), "rename": lambda rng: {"c1": "z"}, "rename_template": lambda rng: "p-{name}", "layers": lambda rng: {0: 9, 2: 8}, "datatypes": lambda rng: {0: 9}, "texttypes": lambda rng: {0: 9}}
        return "GdsLibrary.read_gds", call, {"infile": None}, alt
    if k == "write_gds":

        def call(a, kw):
            lib, c = build()
            f = io.BytesIO()
            if a:
                a = (f,) + tuple(a[1:])
            else:
                kw = dict(kw, outfile=f)
            if callable(kw.get("cells")):
                kw["cells"] = kw["cells"](c)
            if len(a) > 1 and callable(a[1]):
                a = (a[0], a[1](c)) + tuple(a[2:])
            lib.write_gds(*a, **kw)
            return f.getvalue()

        n = rng.choice([1, 2])
        alt = {"cells": lambda rng: (lambda c: c[:n]), "binary_cells": lambda rng: []}
        return "GdsLibrary.write_gds", call, {"outfile": None, "timestamp": TIME}, alt

    def call(a, kw):
        f = io.BytesIO()
        if a:
            a = (f,) + tuple(a[1:])
        else:
            kw = dict(kw, outfile=f)
        w = gdspy.GdsWriter(*a, **kw)
        c = make()
        for x in c:
            w.write_cell(x, TIME)
        w.close()
        return f.getvalue()

    return "GdsWriter", call, {"outfile": None, "timestamp": TIME}, {"name": lambda rng: "n", "unit": lambda rng: rng.choice([1e-3, 2e-6]), "precision": lambda rng: rng.choice([2e-9, 1e-8])}


def e_copy(rng):
    make = shape_maker(rng)

    def call(a, k):
        o = make()
        if a:
            a = (o,) + tuple(a[1:])
        else:
            k = dict(k, obj=o)
        return [snap.snap(gdspy.copy(*a, **k)), snap.snap(o)]

    return "copy", call, {"obj": None}, {"dx": lambda rng: rng.uniform(1, 2), "dy": lambda rng: rng.uniform(1, 2)}


def e_operation(rng):
    k = rng.choice(["boolean", "boolean", "offset", "offset", "slice", "inside"])
    f = {"boolean": gdspy.boolean, "offset": gdspy.offset, "slice": gdspy.slice, "inside": gdspy.inside}[k]
    alt = {"join": lambda rng: rng.choice(["bevel", "round"]), "tolerance": lambda rng: rng.choice([3, 5, 1.2, 7]), "short_circuit": lambda rng: rng.choice(["all"]), "max_points": lambda rng: rng.choice([0, 5, 50, 198, 200])}
    p = polys(rng)
    one = rng.random() < 0.5
    if one:
        p = [np.array(npoly(rng, count(rng) if rng.random() < 0.3 else rng.choice([200, 200, 199])))]
    if k == "boolean":
        req = {"operand1": p, "operand2": polys(rng) if rng.random() < (0.3 if one else 0.7) else None, "operation": rng.choice(["or", "and", "xor", "not"])}
        if one and rng.random() < 0.7:
            req.update(operand2=None, operation="or")
    elif k == "offset":
        req = {"polygons": p, "distance": rng.uniform(-0.3, 2)}
        if one:
            # (convex: as many vertices as it has)
            n = len(p[0])
            t = np.arange(n) * 2 * math.pi / n
            req.update(polygons=[20 * np.stack((np.cos(t), np.sin(t)), axis=1)], distance=rng.uniform(0.5, 2))
        if rng.random() < 0.3:
            req["join"] = "round"
            alt["tolerance"] = lambda rng: rng.choice([3, 8, 64])
    elif k == "slice":
        req = {"polygons": p, "position": rng.choice([0.3, [0.2, 1.7]]), "axis": rng.choice([0, 1])}
    else:
        req = {"points": [[(rng.uniform(-9, 9), rng.uniform(-9, 9)) for _ in range(3)] for _ in range(6)] if rng.random() < 0.7 else [(rng.uniform(-9, 9), rng.uniform(-9, 9)) for _ in range(10)], "polygons": p}
        if rng.random() < 0.5:
            # points at the edges, where only the precision decides
            e = []
            for q in p:
                i = rng.randrange(len(q))
                u = q[(i + 1) % len(q)] - q[i]
                e += [tuple(q[i] + t * u + np.array((-u[1], u[0])) / np.hypot(*u) * rng.uniform(-1, 1) * 1.5e-3) for t in (0.2, 0.4, 0.6, 0.8)]
            req["points"] = e

    def call(a, kw):
        r = f(*a, **kw)
        return snap.snap(r)

    return k, call, req, alt


def e_hash(rng):
    make = tree(rng)
    lib = gdspy.GdsLibrary("lib")
    for x in make():
        lib.add(x, False)
    b = io.BytesIO()
    lib.write_gds(b, timestamp=TIME)

    def call(a, k):
        fd, fn = tempfile.mkstemp(suffix=".gds")
        os.close(fd)
        try:
            with open(fn, "wb") as f:
                f.write(b.getvalue())
            if a:
                a = (fn,) + tuple(a[1:])
            else:
                k = dict(k, filename=fn)
            e = k.get("engine") or (a[1] if len(a) > 1 else None)
            if e:
                e = hashlib.new(e)
            return gdspy.gdsii_hash(*a[:1], **dict([("engine", e)] if "engine" in k or len(a) > 1 else [], **({"filename": fn} if not a else {})))
        finally:
            os.unlink(fn)

    return "gdsii_hash", call, {"filename": None}, {"engine": lambda rng: "md5"}


ENTRIES = [e_polygonset, e_polygon, e_rectangle, e_round, e_round, e_text, e_path, e_pathsection, e_pathsection, e_pathsection, e_pathsection, e_l1, e_polypath, e_polypath, e_setmethod, e_setmethod, e_setmethod,
           e_pathmethod, e_pathmethod, e_curve, e_curve, e_flex, e_flex, e_robust, e_robust, e_section, e_section, e_section, e_label, e_reference, e_query, e_query, e_svg, e_library, e_library, e_library, e_copy, e_operation,
           e_operation, e_operation, e_hash]


def attempt(call, a, k):
    """Arguments are made anew each time; refusals count as results."""
    a, k = copy.deepcopy(a), copy.deepcopy(k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return call(tuple(a), k)
        except (ValueError, TypeError, RuntimeError) as e:
            return ["refused", type(e).__name__]


def run_case(kind, index, rng, m):
    globals()["case_" + kind](rng, m, index)


def case_call(rng, m, index):
    name, call, req, alt = ENTRIES[index % len(ENTRIES)](rng)
    doc = DOC[name]
    opt = [n for n, d in doc if d is not R and n not in req]
    given = dict(req)
    if rng.random() < 0.6:
        for n in opt:
            if rng.random() < 0.3 and (n in alt or n in COMMON):
                given[n] = (alt.get(n) or COMMON[n])(rng)
    left = [n for n in opt if n not in given]
    full = {n: given.get(n, copy.deepcopy(d)) for n, d in doc}
    m.ctx(function=name, given=sorted(given), left=left)
    a = attempt(call, (), given)
    # the last arguments may be left out by position, too
    ordered = [n for n, _ in doc]
    k = len(ordered)
    while k and ordered[k - 1] not in given:
        k -= 1
    pos = tuple(full[n] for n in ordered[:k])
    d = snap.differs(attempt(call, (), full), a)
    m.check(d is None, "omitted", "%s: with the defaults of %s given: %s" % (name, left, d))
    b = attempt(call, tuple(full[n] for n in ordered), {})
    d = snap.differs(b, a)
    m.check(d is None, "by-position", "%s: %s" % (name, d))
    if k:
        d = snap.differs(attempt(call, pos, {}), a)
        m.check(d is None, "by-position", "%s with %d arguments: %s" % (name, k, d))
    names = list(full)
    rng.shuffle(names)
    half = {n: full[n] for n in names if n in given or rng.random() < 0.5}
    d = snap.differs(attempt(call, (), half), a)
    m.check(d is None, "by-name", "%s(%s): %s" % (name, sorted(half), d))
    if left and rng.random() < 0.5:
        n = rng.choice(left)
        if n in alt or n in COMMON:
            other = attempt(call, (), dict(given, **{n: (alt.get(n) or COMMON[n])(rng)}))
            if snap.differs(other, a):
                m.seen("sensitive")
                m.count("sensitive to " + n)
    if isinstance(a, list) and a[:1] == ["refused"]:
        m.count("refused " + name)
    m.state(name, tuple(left), len(repr(a)))


# -- what None means

def close(a, b, tol, path=""):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = close(x, y, tol, "%s/%s" % (path, x[0] if isinstance(x, (list, tuple)) and x and isinstance(x[0], str) else i))
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return None if abs(a - b) <= tol else "%s: %r became %r" % (path, a, b)
    return None if a == b else "%s: %r became %r" % (path, a, b)


def case_none(rng, m, index):
    k = ["path", "path", "path", "flex", "robust", "robust", "scale", "reference", "depth", "copy", "curve", "write"][index % 12]
    globals()["none_" + k](rng, m)


def same(m, what, a, b, tol=1e-8):
    d = close(a, b, tol)
    m.check(d is None, "meaning-of-none", "%s: %s" % (what, d))
    m.state(what, len(repr(a)))


def none_path(rng, m):
    make, n = path_maker(rng)
    name, _, req, alt = e_pathsection(rng)
    k = name.split(".")[1]
    a, b = make(), make()
    w, d = 2 * b.w, b.distance
    kw = {}
    if k == "smooth":
        q = rng.choice([True, False])
        kw["angles"] = [None] * (len(req["points"]) + 1)
    else:
        if rng.random() < 0.8:
            kw["final_width"] = w
        if rng.random() < 0.8:
            kw["final_distance"] = d
    if k == "segment":
        kw["direction"] = b.direction
    m.ctx(section=name, given=sorted(kw))
    getattr(a, k)(**copy.deepcopy(req))
    getattr(b, k)(**dict(copy.deepcopy(req), **kw))
    same(m, name, snap.snap(a), snap.snap(b))


def none_flex(rng, m):
    pts = line(rng)
    n = rng.choice([1, 2])
    w0, o0 = ([0.2, 0.3], [-0.5, 0.6]) if n == 2 else ([0.25], [0.1])
    a, b = [gdspy.FlexPath(pts, w0, o0) for _ in range(2)]
    k, req = section(rng)
    if k == "parametric":
        req["curve_function"] = curve_function(5.0, 2.0)
    kw = none_args(rng, b.widths[-1], b.offsets[-1], k, req)
    m.ctx(section=k, given=sorted(kw))
    getattr(a, k)(**copy.deepcopy(req))
    getattr(b, k)(**dict(copy.deepcopy(req), **kw))
    same(m, "FlexPath." + k, [seen_path(a)], [seen_path(b)])


def section(rng):
    k = rng.choice(["segment", "arc", "turn", "bezier", "parametric", "smooth"])
    a = rng.uniform(3, 9)
    return k, {"segment": {"end_point": (rng.uniform(20, 25), rng.uniform(-3, 3))}, "arc": {"radius": a, "initial_angle": rng.uniform(0, 1), "final_angle": rng.uniform(2, 5)}, "turn": {"radius": a, "angle": rng.choice(["l", -2.0])},
               "bezier": {"points": bez(rng)}, "parametric": {"curve_function": robust_function(5.0, 2.0)}, "smooth": {"points": smooth_points(rng)}}[k]


def none_args(rng, w, o, k, req):
    kw = {}
    if rng.random() < 0.8:
        kw["width"] = [float(x) for x in w]
    if rng.random() < 0.8:
        kw["offset"] = [float(x) for x in o]
    if k == "smooth":
        kw["angles"] = [None] * (len(req["points"]) + 1)
    return kw


def none_robust(rng, m):
    pts = line(rng)
    n = rng.choice([1, 2])
    w0, o0 = ([0.2, 0.3], [-0.5, 0.6]) if n == 2 else ([0.25], [0.1])
    w1 = [0.4] * n if rng.random() < 0.5 else w0
    a, b = [gdspy.RobustPath(pts[0], w0, o0).segment(pts[1], width=w1) for _ in range(2)]
    k, req = section(rng)
    kw = none_args(rng, w1, o0, k, req)
    m.ctx(section=k, given=sorted(kw))
    getattr(a, k)(**copy.deepcopy(req))
    getattr(b, k)(**dict(copy.deepcopy(req), **kw))
    u = [i * len(a) / 17.0 for i in range(18)]
    f = lambda p: [[snap.val(p(v, arm)) for v in u for arm in (-1, 0, 1)], [snap.val(p.width(v)) for v in u]]
    same(m, "RobustPath." + k, f(a), f(b))


def none_scale(rng, m):
    make = shape_maker(rng)
    a, b = make(), make()
    s = rng.choice([-1.5, 0.3, 2])
    kw = {"center": (1, -2)} if rng.random() < 0.5 else {}
    a.scale(s, **kw)
    b.scale(s, s, **kw)
    same(m, "scale", snap.snap(a), snap.snap(b))


def none_reference(rng, m):
    make = tree(rng)
    c = make()
    arr = rng.random() < 0.5
    kw = {"origin": (rng.uniform(-3, 3), 1), "x_reflection": rng.random() < 0.5}
    if arr:
        kw.update(columns=2, rows=3, spacing=(30, rng.choice([40, -40])))
    cls = gdspy.CellArray if arr else gdspy.CellReference
    rot, mag = rng.choice([(0, None), (None, 1), (0, 1), (0.0, 1.0)])
    other = {"rotation": 30} if rng.random() < 0.3 and rot is None else {"magnification": 2.0} if rng.random() < 0.3 and mag is None else {}
    a = cls(c[2], **dict(kw, **other))
    b = cls(c[2], **dict(dict(kw, rotation=rot, magnification=mag), **other))
    key = lambda d: sorted(((k, snap.snap(v)) for k, v in d.items()), key=repr)
    same(m, cls.__name__, everything(a)[:1] + everything(a)[3:], everything(b)[:1] + everything(b)[3:], 1e-7)
    same(m, "area of " + cls.__name__, sorted(a.area(True).items()), sorted(b.area(True).items()), 1e-6)
    x, y = a.get_labels(), b.get_labels()
    same(m, "labels of " + cls.__name__, [[l.text, snap.val(l.position)] for l in x], [[l.text, snap.val(l.position)] for l in y], 1e-7)


def none_depth(rng, m):
    make = tree(rng)
    c = make()[3]
    o = rng.choice([c, gdspy.CellReference(c, (1, 2), 30), gdspy.CellArray(c, 2, 1, (50, 60))])
    d = rng.choice([6, 50])
    for k in ("get_polygons", "get_polygonsets", "get_paths", "get_labels"):
        same(m, k + " of " + type(o).__name__, snap.snap(getattr(o, k)()), snap.snap(getattr(o, k)(depth=d)))


def none_copy(rng, m):
    make = tree(rng)
    c = make()[3]
    o = {}
    while not o:
        if rng.random() < 0.5:
            o["translation"] = (0, 0)
        if rng.random() < 0.5:
            o["rotation"] = 0
        if rng.random() < 0.5:
            o["scale"] = 1
    a, b = c.copy("a", True), c.copy("a", True, **o)
    f = lambda x: everything(x)[:1] + everything(x)[3:]
    m.ctx(given=o)
    same(m, "copy", f(a), f(b), 1e-7)


def none_curve(rng, m):
    pts = smooth_points(rng)
    k = rng.choice(["I", "i"])
    a, b, c = [getattr(gdspy.Curve(1, 2), k)(pts, **kw) for kw in ({}, {"angles": [None] * (len(pts) + 1)}, {"t_in": [1] * (len(pts) + 1), "t_out": [1] * (len(pts) + 1)})]
    same(m, "Curve." + k, snap.snap(a.get_points()), snap.snap(b.get_points()))
    same(m, "tensions of Curve." + k, snap.snap(a.get_points()), snap.snap(c.get_points()))


def none_write(rng, m):
    make = tree(rng)
    lib = gdspy.GdsLibrary("lib")
    for x in make():
        lib.add(x, False)
    out = []
    for cells in (None, list(lib.cells.values()), list(lib.cells)):
        f = io.BytesIO()
        lib.write_gds(f, timestamp=TIME, **({} if cells is None else {"cells": cells}))
        out.append(f.getvalue())
    m.check(out[0] == out[1] == out[2], "meaning-of-none", "the cells left out are not all cells")
