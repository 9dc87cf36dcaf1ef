"""Legal GDSII streams that gdspy would not write itself, each with the
description (as in libgen, in database units) of what they contain."""
import math

import gen
import libgen


def coord(rng):
    return rng.choice([rng.randint(-1000, 1000), rng.randint(-1000000, 1000000), rng.randint(-2 ** 31, 2 ** 31 - 1), 0]) if rng.random() < 0.3 else rng.randint(-100000, 100000)


def point(rng):
    return (coord(rng), coord(rng))


def i16(rng):
    return rng.choice([0, 1, 2, 3, 7, 63, 255, 256, 1000, 32767])


def common(rng, e):
    if rng.random() < 0.15:
        e["elflags"] = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.15:
        e["plex"] = rng.randint(0, 2 ** 24)
    e["props"] = [(a, libgen.text(rng, 126 if rng.random() < 0.1 else 12, empty=True)) for a in rng.sample(range(1, 128), rng.choice([0, 0, 0, 1, 2, 3]))]
    return e


def split(rng, e, maxrec=8191):
    n = len(e["xy"])
    if n > maxrec or rng.random() < 0.2:
        out = []
        while n:
            k = min(n, rng.choice([maxrec, rng.randint(1, min(n, maxrec))]))
            out.append(k)
            n -= k
        e["xyrecords"] = out
    return e


def strans(rng, e, d):
    """STRANS, MAG and ANGLE."""
    d.update(rotation=None, magnification=None, x_reflection=False)
    if rng.random() < 0.6:
        d["x_reflection"] = rng.random() < 0.5
        e["strans"] = (0x8000 if d["x_reflection"] else 0) | (rng.choice([0, 2, 4, 6]) if rng.random() < 0.2 else 0)
        if rng.random() < 0.5:
            d["magnification"] = e["mag"] = rng.choice([1.0, 0.5, 2.0, 1e-3, 37.25])
        if rng.random() < 0.6:
            d["rotation"] = e["angle"] = rng.choice([0.0, 90.0, 180.0, 270.0, 33.0, 359.5])
    return e, d


def element(rng, targets, kinds=None):
    k = rng.choice(kinds or ["boundary", "boundary", "box", "path", "path", "path", "text", "text", "sref", "sref", "aref", "node"])
    e = common(rng, {"kind": k})
    d = {"kind": k, "props": dict(e["props"])}
    if k in ("boundary", "box", "path", "text", "node"):
        e["layer"] = d["layer"] = i16(rng)
    if k in ("boundary", "box", "path", "node"):
        e["datatype"] = d["datatype"] = i16(rng)
    if k == "boundary":
        n = rng.choice([3, 3, 4, 5, 8, 40, 200] + ([8190, 8191, 9000, 20000] if rng.random() < 0.05 else []))
        p = [point(rng) for _ in range(n)]
        if p[0] == p[-1]:
            p[-1] = (p[-1][0] ^ 1, p[-1][1])
        e["xy"], d["xy"] = p + p[:1], p
        split(rng, e)
    elif k == "box":
        x0, x1 = sorted(rng.sample(range(-10000, 10000), 2))
        y0, y1 = sorted(rng.sample(range(-10000, 10000), 2))
        p = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
        e["xy"], d["xy"] = p + p[:1], p
        d["kind"] = "boundary"
    elif k == "path":
        n = rng.choice([2, 2, 3, 5, 20] + ([8191, 8192, 12000] if rng.random() < 0.05 else []))
        p = [point(rng) for _ in range(n)]
        for i in range(1, n):
            if p[i] == p[i - 1]:
                p[i] = (p[i][0] ^ 1, p[i][1])
        e["xy"] = d["xy"] = p
        split(rng, e)
        w = rng.choice([None, 0, 10, 250, 1000001, -20, -333])
        if w is not None:
            e["width"] = w
        d["width"], d["wt"] = abs(w or 0), (w or 0) >= 0
        t = rng.choice([None, 0, 1, 2, 4, 4])
        if t is not None:
            e["pathtype"] = t
        d["ends"] = {None: "flush", 0: "flush", 1: "round", 2: "extended", 4: None}[t]
        if t == 4:
            b, c = rng.choice([None, 0, 35, -12, 40000]), rng.choice([None, 0, 7, -3, 50000])
            if b is not None:
                e["bgnextn"] = b
            if c is not None:
                e["endextn"] = c
            d["ends"] = (b or 0, c or 0)
    elif k == "text":
        e["texttype"] = d["texttype"] = i16(rng)
        a = rng.choice([None] + sorted(libgen.ANCHORS))
        if a is not None:
            e["presentation"] = a | rng.choice([0, 0x10, 0x20, 0x30])
        d["anchor"] = a or 0
        if rng.random() < 0.2:
            e["pathtype"] = rng.choice([0, 1, 2])
        if rng.random() < 0.2:
            e["width"] = rng.choice([10, -10, 0])
        strans(rng, e, d)
        e["xy"] = d["xy"] = [point(rng)]
        e["text"] = d["text"] = libgen.text(rng, 512 if rng.random() < 0.05 else 30, empty=True)
    elif k in ("sref", "aref"):
        e["sname"] = d["sname"] = rng.choice(targets) if targets and rng.random() < 0.9 else "NOT_HERE%d" % rng.randrange(5)
        strans(rng, e, d)
        if k == "sref":
            e["xy"] = d["xy"] = [point(rng)]
        else:
            x, y = rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 6, 10 ** 6)
            cols, rows = rng.choice([1, 2, 3, 10, 32767]), rng.choice([1, 2, 5, 7, 1000])
            sx, sy = rng.randint(1, 20000), rng.choice([1, -1]) * rng.randint(1, 20000)
            t = math.radians(d["rotation"] or 0)
            f = -1 if d["x_reflection"] else 1
            e["colrow"] = d["colrow"] = [cols, rows]
            e["xy"] = [(x, y)] + [(int(round(u)), int(round(v))) for u, v in (
                (x + cols * sx * math.cos(t), y + cols * sx * math.sin(t)),
                (x - f * rows * sy * math.sin(t), y + f * rows * sy * math.cos(t)))]
            d["xy"], d["spacing"] = [(x, y)], (sx, sy)
    else:
        e["xy"] = [point(rng) for _ in range(rng.choice([1, 2, 10]))]
        d = None
    return e, d


def date(rng):
    return [rng.choice([0, 70, 99, 124, 1999, 2020, -1]), rng.randint(0, 12), rng.randint(0, 31), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]


def stream(rng, kinds=None, ncells=None, units=None, used=(), pad=True):
    """(bytes, library dict, {cell: [descriptions]})."""
    n = ncells or rng.choice([0, 1, 2, 3, 6])
    names = []
    for _ in range(n):
        names.append(gen.name(rng, list(names) + list(used)))
    lib = {
        "version": rng.choice([3, 5, 6, 7, 600]),
        "bgnlib": date(rng) + date(rng),
        "name": rng.choice(["LIB", "A.DB", "", "LIBRARY.DB", libgen.text(rng, 30)]),
        "units": units or rng.choice([(1e-3, 1e-9), (1e-3, 1e-9), (5e-3, 5e-9), (1e-4, 1e-10), (1.0, 1e-6), (1e-3, 1e-8), (2.5e-3, 1e-9), (1 / 256.0, 2.54e-8)]),
        "extra": [x for x in [
            (0x1F, "REFA.DB" + "\0" * 37 + "REFB.DB" + "\0" * 37), (0x20, ("FONT.TX" + "\0" * 37) * 4), (0x23, "ATTR.AT" + "\0" * 37), (0x22, rng.choice([2, 3, 99]))
        ] if rng.random() < 0.15],
        "cells": [],
    }
    docs = {}
    for nm in names:
        els, ds = [], []
        for _ in range(rng.choice([0, 1, 3, 8, 20])):
            # references to any cell of the file that cannot make a loop: those
            # that come later or earlier in the order of the list below
            e, d = element(rng, [t for t in names if t > nm], kinds)
            els.append(e)
            if d is not None:
                ds.append(d)
        lib["cells"].append({"bgnstr": date(rng) + date(rng), "name": nm, "elements": els})
        docs[nm] = ds
    import gds

    data = gds.library_bytes(lib)
    if pad and rng.random() < 0.3:
        data += bytes(-len(data) % 2048)
    return data, lib, docs
