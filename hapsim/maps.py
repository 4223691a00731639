"""Mapped coasts: moving, turning and mirroring them, and an independent
reading of what the starting state of a mapped coast has to be."""
import math

import numpy as np

LINES = ('shoreline', 'cliff', 'lagoon', 'outlet')


def each(g, fn):
    """fn applied to every point of the maps"""
    out = {k: [list(fn(p)) for p in g[k]] for k in LINES}
    out['river'] = list(fn(g['river']))
    return out


def turn(g, deg, about=None):
    a = math.radians(deg)
    ox, oy = about or g['river']
    return each(g, lambda p: (ox + (p[0] - ox) * math.cos(a) - (p[1] - oy) * math.sin(a),
                              oy + (p[0] - ox) * math.sin(a) + (p[1] - oy) * math.cos(a)))


def move(g, dx, dy):
    return each(g, lambda p: (p[0] + dx, p[1] + dy))


def axis(g):
    """(origin, unit vector to the right looking seaward, seaward unit vector, bearing of the seaward normal in degrees)"""
    P = np.array(g['shoreline'], float)
    c = P.mean(0)
    # direction of largest variance
    _, _, vt = np.linalg.svd(P - c, full_matrices=False)
    u = vt[0]
    R = np.array(g['river'], float)
    o = c + u * float(np.dot(R - c, u))
    n = np.array([-u[1], u[0]])
    if np.dot(R - c, n) > 0:
        n = -n
    # right of somebody looking out to sea
    right = np.array([n[1], -n[0]])
    return o, right, n, math.degrees(math.atan2(n[0], n[1]))


def local(g):
    o, r, n, _ = axis(g)
    return each(g, lambda p: (float(np.dot(np.array(p) - o, r)), float(np.dot(np.array(p) - o, n))))


def mirror(g):
    """reflected about the river axis"""
    o, r, n, _ = axis(g)

    def f(p):
        q = np.array(p, float) - o
        return tuple(o - r * np.dot(q, r) + n * np.dot(q, n))
    return each(g, f)


def crossings(line, x):
    """every y at which the polyline crosses the transect"""
    out = []
    for (x1, y1), (x2, y2) in zip(line[:-1], line[1:]):
        if (x1 < x) != (x2 < x):
            out.append(y1 + (x - x1) * (y2 - y1) / (x2 - x1))
    return out
