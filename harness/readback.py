"""Describes what gdspy holds after reading a file, in database units, in the
same terms as gds.parse: so that the same comparison serves both."""
import gdspy
import numpy as np


class Bad(Exception):
    pass


def ints(v, mult, what):
    a = np.asarray(v, dtype=float) * mult
    r = np.rint(a)
    if a.size and np.max(np.abs(a - r)) > 1e-4 + 1e-14 * np.max(np.abs(a)):
        raise Bad("%s off the grid: %r" % (what, (a - r).ravel()[:4]))
    return r


def pts(v, mult, what):
    return [tuple(p) for p in ints(v, mult, what).reshape(-1, 2).tolist()]


def transformation(e, o):
    if o.x_reflection:
        e["strans"] = 0x8000
    if o.magnification is not None:
        e["mag"] = float(o.magnification)
    if o.rotation is not None:
        e["angle"] = float(o.rotation)
    return e


def elements(cell, lib, mult):
    out = []
    for p in cell.polygons:
        if not isinstance(p, gdspy.Polygon) and not isinstance(p, gdspy.PolygonSet):
            raise Bad("polygon of type %r" % type(p))
        for q, l, d in zip(p.polygons, p.layers, p.datatypes):
            xy = pts(q, mult, "polygon")
            out.append(dict(kind="boundary", layer=int(l), datatype=int(d), xy=xy + xy[:1], props=list(p.properties.items())))
    for p in cell.paths:
        if p.n != 1 or not p.gdsii_path:
            raise Bad("path read with n=%r gdsii_path=%r" % (p.n, p.gdsii_path))
        if np.any(np.asarray(p.offsets) != 0):
            raise Bad("path read with offsets %r" % (p.offsets,))
        w = ints(p.widths, mult, "path width")
        if np.any(w != w.flat[0]) or w.shape != (len(p.points), 1):
            raise Bad("widths %r" % (p.widths,))
        e = dict(kind="path", layer=int(p.layers[0]), datatype=int(p.datatypes[0]), xy=pts(p.points, mult, "path"),
                 width=float(w.flat[0]) * (1 if p.width_transform else -1), props=list(p.properties.items()))
        end = p.ends[0]
        if isinstance(end, (tuple, list, np.ndarray)):
            e["pathtype"] = 4
            e["bgnextn"], e["endextn"] = [float(v) for v in ints(end, mult, "extension")]
        else:
            e["pathtype"] = {"flush": 0, "round": 1, "extended": 2}[end]
        out.append(e)
    for p in cell.labels:
        e = dict(kind="text", layer=int(p.layer), texttype=int(p.texttype), text=p.text, xy=pts(p.position, mult, "label"), presentation=int(p.anchor), props=list(p.properties.items()))
        out.append(transformation(e, p))
    for p in cell.references:
        r = p.ref_cell
        if isinstance(r, gdspy.Cell):
            name = r.name
            if lib.cells.get(name) is not r:
                raise Bad("reference to a cell %r that is not the one in the library" % name)
        else:
            name = r
            if name in lib.cells:
                raise Bad("reference to %r is not linked" % name)
        e = dict(kind="sref", sname=name, xy=pts(p.origin, mult, "origin"), props=list(p.properties.items()))
        if isinstance(p, gdspy.CellArray):
            # in database units, not rounded: steps are quotients
            e.update(kind="aref", colrow=[int(p.columns), int(p.rows)], spacing=[float(v) * mult for v in p.spacing])
        out.append(transformation(e, p))
    return out
