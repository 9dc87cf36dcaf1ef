"""C03: 8-byte reals, observed through magnifications, rotations and units."""
import io
import math
import struct
from fractions import Fraction

import gdspy

import gds

RULE = (
    "Batches of numbers (uniform bit patterns of doubles inside the range of the format, neighbours of powers of 2 and 16, short decimals, angles, integers, zeros, "
    "both signs) are written as magnifications and rotations of references, arrays and labels and as units; the 8 bytes found in the file are decoded exactly with rational "
    "arithmetic. Arbitrary legal 8-byte patterns are put in files and read back. Distinct by batch kind, exponent and sign."
)
ASSUMPTIONS = ["Numbers lie in the range of the format, 16**-65 to 16**63."]
REQUIRED = ["normalised", "encoded", "decoded", "round-trip", "units-encoded", "units-decoded"]

EPS = Fraction(1, 2 ** 52)


def cases(tier):
    k = 1 if tier == "quick" else 40
    return [("encode", 240 * k), ("decode", 160 * k), ("units", 200 * k)]


def exact(b):
    n = int.from_bytes(b, "big")
    v = Fraction(n & ((1 << 56) - 1), 1 << 56) * Fraction(16) ** (((n >> 56) & 0x7F) - 64)
    return -v if n >> 63 else v


def number(rng, kind=None):
    kind = kind or rng.choice(["bits", "pow16", "pow2", "decimal", "angle", "int", "zero", "few"])
    s = rng.choice([-1, 1])
    if kind == "zero":
        return 0.0 if rng.random() < 0.7 else 0
    if kind == "bits":
        return s * math.ldexp(rng.getrandbits(52) / 2.0 ** 52 * 0.5 + 0.5, rng.randint(-258, 252))
    if kind in ("pow16", "pow2"):
        e = rng.randint(-64, 62) * 4 if kind == "pow16" else rng.randint(-256, 250)
        v = math.ldexp(1.0, e)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 17])):
            v = math.nextafter(v, rng.choice([0, math.inf]) if rng.random() < 0.2 else 0)
        if rng.random() < 0.2:
            v = math.nextafter(math.ldexp(1.0, e), math.inf)
        return s * v
    if kind == "decimal":
        return s * float("%de%d" % (rng.randint(1, 9999), rng.randint(-20, 15)))
    if kind == "angle":
        return s * rng.choice([30, 45, 90, 180, 360, rng.uniform(0, 360)])
    if kind == "int":
        return s * rng.choice([1, 2, 15, 16, 17, 255, 256, 257, rng.randint(1, 2 ** 40)])
    return s * math.ldexp(rng.getrandbits(8) + 1, rng.randint(-240, 230))


def reals(data):
    """Payloads of MAG and ANGLE records in the order of the file."""
    return [(t, p) for t, dt, p, _ in gds.records(data) if t in (gds.MAG, gds.ANGLE)]


def run_case(kind, index, rng, m):
    if kind == "units":
        return units(rng, m)
    if kind == "decode":
        return decode(rng, m)
    vals = [number(rng) for _ in range(60)]
    cell = gdspy.Cell("A", exclude_from_current=True)
    want = []
    order = []
    for i in range(0, len(vals), 2):
        t = rng.choice(["ref", "array", "label"])
        a, b = vals[i], vals[i + 1]
        if t == "ref":
            o = gdspy.CellReference("X", magnification=a, rotation=b, ignore_missing=True)
        elif t == "array":
            b = math.fmod(b, 1e6) if abs(b) > 1e6 else b
            if b and abs(b) < 16.0 ** -65:
                b = 1.0
            o = gdspy.CellArray("X", 1, 1, (1, 1), magnification=a, rotation=b, ignore_missing=True)
        else:
            o = gdspy.Label("t", (0, 0), magnification=a, rotation=b)
        cell.add(o)
        order.append((isinstance(o, gdspy.Label), a, b))
    # labels come before references
    want = [(a, b) for l, a, b in order if l] + [(a, b) for l, a, b in order if not l]
    buf = io.BytesIO()
    lib = gdspy.GdsLibrary("L")
    lib.add(cell)
    lib.write_gds(buf)
    got = reals(buf.getvalue())
    m.require([t for t, p in got] == [gds.MAG, gds.ANGLE] * len(want), "encoded", "records %r" % [t for t, p in got][:8])
    flat = [v for p in want for v in p]
    for v, (t, p) in zip(flat, got):
        m.check(gds.real8_normal(p), "normalised", "%r is encoded as %s" % (v, p.hex()))
        x = exact(p)
        m.check(abs(x - Fraction(v)) <= EPS * abs(Fraction(v)) and (x == 0) == (v == 0), "encoded", "%r is encoded as %s = %r" % (v, p.hex(), float(x)))
        if v:
            m.state("encode", math.frexp(v)[1], v < 0)
    buf.seek(0)
    back = gdspy.GdsLibrary("M").read_gds(buf)
    c = back.cells["A"]
    objs = list(c.labels) + list(c.references)
    for (a, b), o in zip(want, objs):
        for v, r in ((a, o.magnification), (b, o.rotation)):
            m.check(r is not None and abs(r - v) <= 2.0 ** -52 * abs(v), "round-trip", "%r is read back as %r" % (v, r))
    m.sample({"first": [repr(v) for v in vals[:6]]})


def pattern(rng):
    k = rng.choice(["any", "any", "unnormal", "zero", "edge"])
    sign = rng.getrandbits(1) << 63
    e = rng.randrange(128) << 56
    if k == "any":
        m = rng.getrandbits(56) | (rng.randrange(1, 16) << 52)
    elif k == "unnormal":
        m = rng.getrandbits(rng.randrange(1, 52))
    elif k == "zero":
        return rng.choice([0, 0, 1 << 63, 0x40 << 56]).to_bytes(8, "big")
    else:
        m = rng.choice([(1 << 56) - 1, 1 << 52, (1 << 52) + 1, 1 << 55, (1 << 56) - rng.randrange(1, 300)])
    return (sign | e | m).to_bytes(8, "big")


def decode(rng, m):
    pats = [pattern(rng) for _ in range(60)]
    out = [gds.rec(gds.HEADER, 600), gds.rec(gds.BGNLIB, *([0] * 12)), gds.rec(gds.LIBNAME, "L"), gds.rec(gds.UNITS, 1e-3, 1e-9), gds.rec(gds.BGNSTR, *([0] * 12)), gds.rec(gds.STRNAME, "A")]
    for i in range(0, len(pats), 2):
        text = rng.random() < 0.5
        out.append(gds.rec(gds.TEXT) + gds.rec(gds.LAYER, 0) + gds.rec(gds.TEXTTYPE, i) if text else gds.rec(gds.SREF) + gds.rec(gds.SNAME, "S%d" % i))
        out.append(gds.rec(gds.STRANS, 0))
        out.append(struct.pack(">HBB", 12, gds.MAG, 5) + pats[i])
        out.append(struct.pack(">HBB", 12, gds.ANGLE, 5) + pats[i + 1])
        out.append(gds.rec(gds.XY, 0, 0))
        if text:
            out.append(gds.rec(gds.STRING, "t"))
        out.append(gds.rec(gds.ENDEL))
    out += [gds.rec(gds.ENDSTR), gds.rec(gds.ENDLIB)]
    lib = gdspy.GdsLibrary("M").read_gds(io.BytesIO(b"".join(out)))
    c = lib.cells["A"]
    got = {l.texttype: l for l in c.labels}
    got.update({int(r.ref_cell[1:]): r for r in c.references})
    for i in range(0, len(pats), 2):
        o = got[i]
        for p, v in ((pats[i], o.magnification), (pats[i + 1], o.rotation)):
            x = exact(p)
            m.check(abs(Fraction(float(v)) - x) <= EPS * abs(x), "decoded", "%s is %r, read as %r" % (p.hex(), float(x), v))
            m.state("decode", p[0], p[1] >> 4 == 0)
    m.sample({"patterns": [p.hex() for p in pats[:4]]})


def units(rng, m):
    if rng.random() < 0.5:
        unit = float("%de%d" % (rng.randint(1, 999), rng.randint(-12, 2)))
        precision = unit / rng.choice([1, 2, 3, 10, 16, 256, 1000, 1e6, rng.uniform(1, 1e5)])
        if rng.random() < 0.4:
            # db unit in user units next to a power of 16
            r = 16.0 ** -rng.randint(0, 5)
            r = math.nextafter(r, 0)
            precision = r * unit
        b = io.BytesIO()
        if rng.random() < 0.5:
            gdspy.GdsLibrary("L", unit=unit, precision=precision).write_gds(b)
        else:
            gdspy.GdsWriter(b, "L", unit=unit, precision=precision).close()
        p = [p for t, dt, p, _ in gds.records(b.getvalue()) if t == gds.UNITS][0]
        for v, q in ((Fraction(precision) / Fraction(unit), p[:8]), (Fraction(precision), p[8:])):
            m.check(gds.real8_normal(q), "normalised", "%r is encoded as %s" % (float(v), q.hex()))
            m.check(abs(exact(q) / v - 1) <= 2 * EPS, "units-encoded", "%r is encoded as %s = %r" % (float(v), q.hex(), float(exact(q))))
        b.seek(0)
        u, q = gdspy.get_gds_units(b)
        m.check(abs(u / unit - 1) <= 2e-15 and abs(q / precision - 1) <= 2.0 ** -52, "units-decoded", "%r %r read as %r %r" % (unit, precision, u, q))
        b.seek(0)
        l = gdspy.GdsLibrary("M").read_gds(b, units="import")
        m.check(abs(l.unit / unit - 1) <= 2e-15 and abs(l.precision / precision - 1) <= 2.0 ** -52, "units-decoded", "%r %r imported as %r %r" % (unit, precision, l.unit, l.precision))
        m.state("units", math.frexp(precision)[1], math.frexp(precision / unit)[1])
    else:
        p1, p2 = [struct.pack(">Q", ((rng.randint(50, 66) << 56) | rng.getrandbits(56) | (rng.randrange(1, 16) << 52))) for _ in range(2)]
        data = b"".join([gds.rec(gds.HEADER, 600), gds.rec(gds.BGNLIB, *([0] * 12)), gds.rec(gds.LIBNAME, "L"), struct.pack(">HBB", 20, gds.UNITS, 5) + p1 + p2, gds.rec(gds.ENDLIB)])
        u, q = gdspy.get_gds_units(io.BytesIO(data))
        m.check(abs(Fraction(float(q)) / exact(p2) - 1) <= EPS, "units-decoded", "%s read as %r" % (p2.hex(), q))
        m.check(abs(Fraction(float(u)) * exact(p1) / exact(p2) - 1) <= 4 * EPS, "units-decoded", "%s / %s read as %r" % (p2.hex(), p1.hex(), u))
        m.state("units-in", p1[0], p2[0])
