"""GDSII, independently of gdspy: a strict parser and a free-form writer."""
import math
import struct

(HEADER, BGNLIB, LIBNAME, UNITS, ENDLIB, BGNSTR, STRNAME, ENDSTR, BOUNDARY, PATH, SREF, AREF, TEXT, LAYER, DATATYPE, WIDTH, XY, ENDEL,
 SNAME, COLROW) = range(20)
NODE, TEXTTYPE, PRESENTATION = 0x15, 0x16, 0x17
STRING, STRANS, MAG, ANGLE = 0x19, 0x1A, 0x1B, 0x1C
REFLIBS, FONTS, PATHTYPE, GENERATIONS, ATTRTABLE = 0x1F, 0x20, 0x21, 0x22, 0x23
ELFLAGS, NODETYPE, PROPATTR, PROPVALUE, BOX, BOXTYPE, PLEX, BGNEXTN, ENDEXTN = 0x26, 0x2A, 0x2B, 0x2C, 0x2D, 0x2E, 0x2F, 0x30, 0x31

DTYPE = {
    HEADER: 2, BGNLIB: 2, LIBNAME: 6, UNITS: 5, ENDLIB: 0, BGNSTR: 2, STRNAME: 6, ENDSTR: 0, BOUNDARY: 0, PATH: 0, SREF: 0, AREF: 0,
    TEXT: 0, LAYER: 2, DATATYPE: 2, WIDTH: 3, XY: 3, ENDEL: 0, SNAME: 6, COLROW: 2, NODE: 0, TEXTTYPE: 2, PRESENTATION: 1, STRING: 6,
    STRANS: 1, MAG: 5, ANGLE: 5, REFLIBS: 6, FONTS: 6, PATHTYPE: 2, GENERATIONS: 2, ATTRTABLE: 6, ELFLAGS: 1, NODETYPE: 2, PROPATTR: 2,
    PROPVALUE: 6, BOX: 0, BOXTYPE: 2, PLEX: 3, BGNEXTN: 3, ENDEXTN: 3,
}
COUNT = {HEADER: 1, BGNLIB: 12, BGNSTR: 12, UNITS: 2, LAYER: 1, DATATYPE: 1, WIDTH: 1, COLROW: 2, TEXTTYPE: 1, PRESENTATION: 1, STRANS: 1,
         MAG: 1, ANGLE: 1, PATHTYPE: 1, GENERATIONS: 1, ELFLAGS: 1, NODETYPE: 1, PROPATTR: 1, BOXTYPE: 1, PLEX: 1, BGNEXTN: 1, ENDEXTN: 1}


class Malformed(Exception):
    pass


def real8(b):
    n = int.from_bytes(b, "big")
    m = n & ((1 << 56) - 1)
    e = ((n >> 56) & 0x7F) - 64
    v = math.ldexp(m, 4 * e - 56)
    return -v if n >> 63 else v


def real8_normal(b):
    n = int.from_bytes(b, "big")
    m = n & ((1 << 56) - 1)
    return m >> 52 != 0 if m else n == 0


def to_real8(v):
    if v == 0:
        return bytes(8)
    m, e = math.frexp(abs(v))
    x = -((-e) // 4)
    k = int(math.ldexp(m, 56 + e - 4 * x))
    if not -64 <= x <= 63:
        raise ValueError(v)
    return (((1 if v < 0 else 0) << 63) | ((x + 64) << 56) | k).to_bytes(8, "big")


def records(data):
    """[(type, dtype, payload, offset)], checking the framing."""
    pos, out = 0, []
    while pos < len(data):
        if len(data) - pos < 4:
            raise Malformed("%d stray bytes at %d" % (len(data) - pos, pos))
        size, typ, dt = struct.unpack(">HBB", data[pos : pos + 4])
        if size < 4 or size % 2:
            raise Malformed("record size %d at %d" % (size, pos))
        if pos + size > len(data):
            raise Malformed("record at %d longer than the file" % pos)
        out.append((typ, dt, data[pos + 4 : pos + size], pos))
        pos += size
        if typ == ENDLIB:
            break
    if pos != len(data):
        raise Malformed("%d bytes after ENDLIB" % (len(data) - pos))
    return out


def value(typ, dt, p, pos):
    if typ not in DTYPE:
        raise Malformed("unknown record %02x at %d" % (typ, pos))
    if dt != DTYPE[typ]:
        raise Malformed("record %02x at %d has data type %d" % (typ, pos, dt))
    if dt == 0:
        if p:
            raise Malformed("record %02x at %d should be empty" % (typ, pos))
        return None
    if dt == 6:
        s = p
        if s.endswith(b"\0"):
            s = s[:-1]
        if b"\0" in s:
            raise Malformed("null in string %r at %d" % (p, pos))
        if len(p) - len(s) == 1 and len(s) % 2 == 0:
            raise Malformed("string %r at %d padded without need" % (p, pos))
        return s.decode("ascii")
    fmt, w = {1: ("H", 2), 2: ("h", 2), 3: ("l", 4), 5: (None, 8)}[dt]
    if len(p) % w:
        raise Malformed("record %02x at %d has %d bytes" % (typ, pos, len(p)))
    n = len(p) // w
    if typ in COUNT and n != COUNT[typ]:
        raise Malformed("record %02x at %d has %d values" % (typ, pos, n))
    if dt == 5:
        for i in range(n):
            if not real8_normal(p[8 * i : 8 * i + 8]):
                raise Malformed("unnormalised real %s at %d" % (p[8 * i : 8 * i + 8].hex(), pos))
        return [real8(p[8 * i : 8 * i + 8]) for i in range(n)]
    return list(struct.unpack(">%d%s" % (n, fmt), p))


KEY = {LAYER: "layer", DATATYPE: "datatype", TEXTTYPE: "texttype", BOXTYPE: "datatype", NODETYPE: "datatype", WIDTH: "width", PATHTYPE: "pathtype",
       BGNEXTN: "bgnextn", ENDEXTN: "endextn", PRESENTATION: "presentation", STRANS: "strans", MAG: "mag", ANGLE: "angle", COLROW: "colrow",
       SNAME: "sname", STRING: "text", ELFLAGS: "elflags", PLEX: "plex"}
KIND = {BOUNDARY: "boundary", PATH: "path", SREF: "sref", AREF: "aref", TEXT: "text", NODE: "node", BOX: "box"}
# (record, required); XY is special
SHAPE = {
    "boundary": [(ELFLAGS, 0), (PLEX, 0), (LAYER, 1), (DATATYPE, 1), (XY, 1)],
    "path": [(ELFLAGS, 0), (PLEX, 0), (LAYER, 1), (DATATYPE, 1), (PATHTYPE, 0), (WIDTH, 0), (BGNEXTN, 0), (ENDEXTN, 0), (XY, 1)],
    "sref": [(ELFLAGS, 0), (PLEX, 0), (SNAME, 1), (STRANS, 0), (MAG, 0), (ANGLE, 0), (XY, 1)],
    "aref": [(ELFLAGS, 0), (PLEX, 0), (SNAME, 1), (STRANS, 0), (MAG, 0), (ANGLE, 0), (COLROW, 1), (XY, 1)],
    "text": [(ELFLAGS, 0), (PLEX, 0), (LAYER, 1), (TEXTTYPE, 1), (PRESENTATION, 0), (PATHTYPE, 0), (WIDTH, 0), (STRANS, 0), (MAG, 0), (ANGLE, 0), (XY, 1), (STRING, 1)],
    "node": [(ELFLAGS, 0), (PLEX, 0), (LAYER, 1), (NODETYPE, 1), (XY, 1)],
    "box": [(ELFLAGS, 0), (PLEX, 0), (LAYER, 1), (BOXTYPE, 1), (XY, 1)],
}


class Parser(object):
    def __init__(self, data):
        self.recs = records(data)
        self.i = 0

    def peek(self):
        if self.i >= len(self.recs):
            raise Malformed("unexpected end of file")
        return self.recs[self.i][0]

    def next(self, typ=None):
        t = self.peek()
        if typ is not None and t != typ:
            raise Malformed("record %02x at %d, expected %02x" % (t, self.recs[self.i][3], typ))
        v = value(*self.recs[self.i])
        self.i += 1
        return v

    def library(self):
        lib = {"version": self.next(HEADER)[0], "bgnlib": self.next(BGNLIB), "name": self.next(LIBNAME)}
        for opt in (REFLIBS, FONTS, ATTRTABLE, GENERATIONS):
            if self.peek() == opt:
                self.next()
        lib["units"] = self.next(UNITS)
        lib["cells"] = []
        while self.peek() != ENDLIB:
            lib["cells"].append(self.structure())
        self.next(ENDLIB)
        return lib

    def structure(self):
        c = {"bgnstr": self.next(BGNSTR), "name": self.next(STRNAME), "elements": []}
        if not c["name"]:
            raise Malformed("cell without name")
        while self.peek() != ENDSTR:
            c["elements"].append(self.element())
        self.next(ENDSTR)
        return c

    def element(self):
        t = self.peek()
        if t not in KIND:
            raise Malformed("record %02x at %d where an element should start" % (t, self.recs[self.i][3]))
        self.next()
        e = {"kind": KIND[t], "props": [], "xyrecords": []}
        for typ, need in SHAPE[e["kind"]]:
            if typ == XY:
                e["xy"] = []
                while self.peek() == XY:
                    v = self.next()
                    if len(v) % 2 or not v:
                        raise Malformed("XY with %d values" % len(v))
                    e["xyrecords"].append(len(v) // 2)
                    e["xy"] += [(v[k], v[k + 1]) for k in range(0, len(v), 2)]
                if not e["xy"]:
                    raise Malformed("%s without XY at %d" % (e["kind"], self.recs[self.i][3]))
            elif self.peek() == typ:
                v = self.next()
                e[KEY[typ]] = v[0] if typ in COUNT and COUNT[typ] == 1 else v
            elif need:
                raise Malformed("%s without record %02x at %d" % (e["kind"], typ, self.recs[self.i][3]))
        if ("mag" in e or "angle" in e) and "strans" not in e:
            raise Malformed("MAG or ANGLE without STRANS")
        while self.peek() == PROPATTR:
            a = self.next()[0]
            e["props"].append((a, self.next(PROPVALUE)))
        self.next(ENDEL)
        k, n = e["kind"], len(e["xy"])
        if k == "boundary" and (n < 4 or e["xy"][0] != e["xy"][-1]):
            raise Malformed("boundary of %d points, %s" % (n, "closed" if e["xy"][0] == e["xy"][-1] else "not closed"))
        if k == "box" and (n != 5 or e["xy"][0] != e["xy"][-1]):
            raise Malformed("box of %d points" % n)
        if k in ("sref", "text") and n != 1 or k == "aref" and n != 3 or k == "path" and n < 2:
            raise Malformed("%s with %d points" % (k, n))
        if k in ("sref", "aref", "text", "box") and len(e["xyrecords"]) != 1:
            raise Malformed("several XY records in %s" % k)
        if len(e["xyrecords"]) > 1 and n <= 8191:
            raise Malformed("XY split without need (%d points)" % n)
        return e


def parse(data):
    return Parser(data).library()


# ---- writing ------------------------------------------------------------

def rec(typ, *vals):
    dt = DTYPE[typ]
    if dt == 0:
        p = b""
    elif dt == 6:
        p = vals[0].encode("ascii")
        if len(p) % 2:
            p += b"\0"
    elif dt == 5:
        p = b"".join(to_real8(v) for v in vals)
    else:
        p = struct.pack(">%d%s" % (len(vals), {1: "H", 2: "h", 3: "l"}[dt]), *vals)
    return struct.pack(">HBB", len(p) + 4, typ, dt) + p


def element_bytes(e):
    out = [rec({v: k for k, v in KIND.items()}[e["kind"]])]
    for typ, _ in SHAPE[e["kind"]]:
        if typ == XY:
            xy, i = e["xy"], 0
            for n in e.get("xyrecords") or [len(xy)]:
                out.append(rec(XY, *[c for p in xy[i : i + n] for c in p]))
                i += n
        elif e.get(KEY[typ]) is not None:
            v = e[KEY[typ]]
            out.append(rec(typ, *(v if isinstance(v, (list, tuple)) else [v])))
    for a, v in e.get("props", []):
        out += [rec(PROPATTR, a), rec(PROPVALUE, v)]
    out.append(rec(ENDEL))
    return b"".join(out)


def cell_bytes(c):
    return rec(BGNSTR, *c["bgnstr"]) + rec(STRNAME, c["name"]) + b"".join(element_bytes(e) for e in c["elements"]) + rec(ENDSTR)


def library_bytes(lib):
    out = [rec(HEADER, lib.get("version", 600)), rec(BGNLIB, *lib["bgnlib"]), rec(LIBNAME, lib["name"])]
    out += [rec(t, *([v] if isinstance(v, (str, int)) else v)) for t, v in lib.get("extra", [])]
    out.append(rec(UNITS, *lib["units"]))
    out += [cell_bytes(c) for c in lib["cells"]]
    out.append(rec(ENDLIB))
    return b"".join(out)
