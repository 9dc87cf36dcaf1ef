"""Hobby's splines from the equations of mock curvature (METAFONT: the
program, sections 271 to 278), all unknowns in one dense linear system."""
import cmath
import math

import numpy as np


def reduce(a):
    """In (-pi, pi]."""
    return math.pi - (math.pi - a) % (2 * math.pi)


def velocity(theta, phi):
    a = math.sqrt(2) * (math.sin(theta) - math.sin(phi) / 16) * (math.sin(phi) - math.sin(theta) / 16) * (math.cos(theta) - math.cos(phi))
    return (2 + a) / (3 * (1 + 0.5 * (math.sqrt(5) - 1) * math.cos(theta) + 0.5 * (3 - math.sqrt(5)) * math.cos(phi)))


def controls(points, angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle=False):
    """[(z0, c0, c1, z1)] of all sections (complex numbers). Angles are used as
    given (relative to the chords, without reduction)."""
    z = [complex(*p) for p in points]
    n = len(z)
    m = n if cycle else n - 1  # sections
    angles = [None] * n if angles is None else list(angles)
    t_in = [t_in] * n if np.isscalar(t_in) else list(t_in)
    t_out = [t_out] * n if np.isscalar(t_out) else list(t_out)
    chord = [z[(k + 1) % n] - z[k] for k in range(m)]
    d = [abs(c) for c in chord]
    arg = [cmath.phase(c) for c in chord]
    # unknowns: theta of section k at 2k, phi at 2k + 1
    A, b = np.zeros((2 * m, 2 * m)), np.zeros(2 * m)
    alpha = [1.0 / t_out[k] for k in range(m)]
    beta = [1.0 / t_in[(k + 1) % n] for k in range(m)]

    def k0(row, k, f):  # mock curvature at the start of section k, times f
        c = f / (d[k] * alpha[k] ** 2)
        A[row, 2 * k] += c * (beta[k] - 3)
        A[row, 2 * k + 1] += c * beta[k]

    def k1(row, k, f):
        c = f / (d[k] * beta[k] ** 2)
        A[row, 2 * k] += c * alpha[k]
        A[row, 2 * k + 1] += c * (alpha[k] - 3)

    row = 0
    for j in range(n):
        out = j if j < m else None
        inn = (j - 1) % n if (cycle or j > 0) else None
        if angles[j] is not None:
            if out is not None:
                A[row, 2 * out], b[row] = 1, angles[j] - arg[out]
                row += 1
            if inn is not None:
                A[row, 2 * inn + 1], b[row] = 1, arg[inn] - angles[j]
                row += 1
        elif inn is None:
            k0(row, 0, 1)
            k1(row, 0, -curl_start)
            row += 1
        elif out is None:
            k1(row, m - 1, 1)
            k0(row, m - 1, -curl_end)
            row += 1
        else:
            k1(row, inn, 1)
            k0(row, out, -1)
            row += 1
            A[row, 2 * out], A[row, 2 * inn + 1], b[row] = 1, 1, -reduce(arg[out] - arg[inn])
            row += 1
    # (a single section without angles may be undetermined: straight)
    x = np.linalg.solve(A, b) if b.any() else np.zeros(2 * m)
    res = []
    for k in range(m):
        th, ph = x[2 * k], x[2 * k + 1]
        c0 = z[k] + cmath.exp(1j * th) * chord[k] * velocity(th, ph) * alpha[k]
        z1 = z[(k + 1) % n]
        c1 = z1 - cmath.exp(-1j * ph) * chord[k] * velocity(ph, th) * beta[k]
        res.append((z[k], c0, c1, z1))
    return res


def bezier(ctrl, u):
    """Points of the Bezier curve (de Casteljau) for all parameters u."""
    u = np.asarray(u, dtype=float).reshape(-1, 1)
    pts = [np.tile(np.asarray(c, dtype=float), (len(u), 1)) for c in ctrl]
    while len(pts) > 1:
        pts = [(1 - u) * a + u * b for a, b in zip(pts, pts[1:])]
    return pts[0]


def smooth(points, n=200, **kw):
    """Dense points of the whole spline."""
    out = []
    for c in controls(points, **kw):
        p = bezier([(v.real, v.imag) for v in c], np.linspace(0, 1, n))
        out.append(p if not out else p[1:])
    return np.vstack(out)
