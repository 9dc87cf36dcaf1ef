"""Deep fingerprints of gdspy objects, from public attributes and evaluations."""
import copy

import gdspy
import numpy as np


def val(x):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, np.asarray(x, dtype=float).tolist() if x.dtype.kind in "iuf" else x.tolist())
    if isinstance(x, (list, tuple)):
        return [val(v) for v in x]
    if isinstance(x, dict):
        return sorted((repr(k), val(v)) for k, v in x.items())
    if isinstance(x, (np.floating, np.integer)):
        return float(x)
    if isinstance(x, bool) or x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    return repr(type(x))


ATTRS = {
    "PolygonSet": ["layers", "datatypes", "polygons", "properties"],
    "FlexPath": ["n", "points", "widths", "offsets", "ends", "corners", "bend_radius", "layers", "datatypes", "tolerance", "precision", "max_points", "gdsii_path", "width_transform", "properties"],
    "RobustPath": ["n", "x", "widths", "offsets", "ends", "layers", "datatypes", "tolerance", "precision", "max_points", "max_evals", "gdsii_path", "width_transform", "properties"],
    "Label": ["text", "position", "anchor", "rotation", "magnification", "x_reflection", "layer", "texttype", "properties"],
    "CellReference": ["origin", "rotation", "magnification", "x_reflection", "properties"],
    "CellArray": ["columns", "rows", "spacing", "origin", "rotation", "magnification", "x_reflection", "properties"],
    "Path": ["x", "y", "w", "n", "direction", "distance", "length"],
}


def attrs(o, kind):
    return [(a, val(getattr(o, a))) for a in ATTRS[kind]]


def snap(o, deep=False):
    """deep: follow references into cells."""
    if isinstance(o, gdspy.PolygonSet):
        out = [type(o).__name__] + attrs(o, "PolygonSet")
        if isinstance(o, gdspy.Path):
            out += attrs(o, "Path")
        return out
    if isinstance(o, gdspy.FlexPath):
        return ["FlexPath"] + attrs(o, "FlexPath")
    if isinstance(o, gdspy.RobustPath):
        out = ["RobustPath"] + attrs(o, "RobustPath") + [len(o)]
        if len(o):
            out += [val(o(u, arm)) for u in (0, 0.3 * len(o), 0.77 * len(o), len(o)) for arm in (-1, 0, 1)]
        return out
    if isinstance(o, gdspy.Label):
        return ["Label"] + attrs(o, "Label")
    if isinstance(o, (gdspy.CellReference, gdspy.CellArray)):
        n = "CellArray" if isinstance(o, gdspy.CellArray) else "CellReference"
        t = o.ref_cell if isinstance(o.ref_cell, str) else ("id", id(o.ref_cell), o.ref_cell.name)
        return [n, t] + attrs(o, n) + ([snap(o.ref_cell, True)] if deep and isinstance(o.ref_cell, gdspy.Cell) else [])
    if isinstance(o, gdspy.Cell):
        return ["Cell", o.name] + [[snap(e, deep) for e in l] for l in (o.polygons, o.paths, o.labels, o.references)]
    if isinstance(o, gdspy.GdsLibrary):
        return ["Lib", o.name, o.unit, o.precision] + [(n, id(c), snap(c)) for n, c in o.cells.items()]
    if isinstance(o, (list, tuple)):
        return [snap(e, deep) for e in o]
    if isinstance(o, dict):
        return [(repr(k), snap(v, deep)) for k, v in o.items()]
    return val(o)


def differs(a, b, path=""):
    """Where two fingerprints differ (None if they do not)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            tag = "%s/%s" % (path, x[0] if isinstance(x, (list, tuple)) and x and isinstance(x[0], str) else i)
            d = differs(x, y, tag)
            if d:
                return d
        return None
    if a == b or (a != a and b != b):
        return None
    return "%s: %r became %r" % (path, a, b)


def scramble(o, rng):
    """Change everything reachable from an object (except referenced cells)."""
    d = rng.uniform(1, 2)
    for a in ("layers", "datatypes"):
        if hasattr(o, a):
            l = getattr(o, a)
            if isinstance(l, list):
                for i in range(len(l)):
                    l[i] = 99
    if isinstance(getattr(o, "properties", None), dict):
        o.properties[111] = "changed"
    if isinstance(o, gdspy.PolygonSet):
        for p in o.polygons:
            if isinstance(p, np.ndarray) and p.flags.writeable:
                if p.dtype.kind == "f":
                    p += d
                else:
                    p += 1
        o.translate(d, d)
        o.polygons.append(np.array([(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]))
        o.layers.append(98)
        o.datatypes.append(98)
    elif isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)):
        for a in ("points", "widths", "offsets", "x"):
            v = getattr(o, a, None)
            if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
                v *= d
            elif isinstance(v, list):
                for i in range(len(v)):
                    v[i] = v[i] * d
        for a in ("ends", "corners", "bend_radius"):
            v = getattr(o, a, None)
            if isinstance(v, list):
                for i in range(len(v)):
                    v[i] = "flush" if a == "ends" else ("natural" if a == "corners" else None)
        o.translate(d, d)
    elif isinstance(o, gdspy.Label):
        if isinstance(o.position, np.ndarray) and o.position.flags.writeable and o.position.dtype.kind == "f":
            o.position += d
        o.text, o.layer, o.texttype, o.anchor, o.rotation, o.magnification, o.x_reflection = "changed", 97, 97, 5, 12.5, 3.25, not o.x_reflection
    elif isinstance(o, (gdspy.CellReference, gdspy.CellArray)):
        for a in ("origin", "spacing"):
            v = getattr(o, a, None)
            if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
                v += d
            elif isinstance(v, list):
                v[0] += d
        o.translate(d, d)
        o.rotation, o.magnification, o.x_reflection = 11.5, 3.5, not o.x_reflection
        if isinstance(o, gdspy.CellArray):
            o.columns, o.rows, o.spacing = 7, 8, (0.1, 0.2)
        o.ref_cell = "changed"
