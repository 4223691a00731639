"""C21: the starting coast is the one the maps or settings describe."""
import math

import numpy as np

from .. import gen as G, maps, scenario
from . import common
from .c17 import wrap

COUNT = dict(quick=400, thorough=20000)
LEVEL = 'exploration'
RULE = ('Each case starts the model on a freshly mapped coast (any place and orientation, uneven vertices, indented cliffs, lagoons mapped '
        'as edge or outline, outlets to either side or straight out, any transect spacing, every line digitised in either direction and '
        'with redundant vertices) or on a coast described by lengths and widths, and runs a few steps.')
NOTE = ('the first record is compared with an independent reading of the same maps; where a crossing lies within rounding of a limit, or '
        'an outlet crosses transects but fits at none, nothing is judged')


def coast(r, s):
    """a coast in local coordinates (x to the right of the river looking seaward), then put somewhere"""
    s['num']['Dx'] = Dx = r.choice((10., 15., 20., 25., 12.3, 17.9, 22.22, 31.7, 19.95))
    a = math.radians(r.choice((r.uniform(-180, 180), r.uniform(-180, 180), r.choice((0, 90, 180, -90)) + r.uniform(-.5, .5))))
    ox, oy = r.uniform(1e4, 2e6), r.uniform(1e4, 5e6)
    tr = lambda p: [ox + p[0] * math.cos(a) - p[1] * math.sin(a), oy + p[0] * math.sin(a) + p[1] * math.cos(a)]
    L, R = r.uniform(400, 700), r.uniform(400, 700)
    br, lw = r.uniform(55, 110), r.uniform(25, 70)
    bow, ph, wl = r.choice((0., 3., 10.)), r.random() * 6, r.uniform(300, 900)
    y0 = lambda x: bow * math.sin(2 * math.pi * x / wl + ph)

    def walk(x0, x1, lo, hi):
        xs = [x0]
        while xs[-1] < x1:
            xs.append(xs[-1] + r.uniform(lo, hi))
        xs[-1] = max(x1, xs[-1])
        return xs
    gap = r.choice((15., 40., 90.))
    wig = r.choice((0., 1., 4.))
    shore = [(x, y0(x) + r.uniform(-wig, wig)) for x in walk(-L, R, gap / 2, gap * 1.5)]
    cw = r.choice((0., 0., 5., 15.))
    cliff = [(x, -br - lw - 20 + r.uniform(-cw, cw)) for x in walk(-L - 250, R + 250, 40, 200)]
    if r.random() < 0.4:
        # a gully: the line doubles back
        j = r.randrange(1, len(cliff) - 1)
        x, y = cliff[j]
        cliff[j:j + 1] = [(x, y), (x + 8, y - 30), (x - 5, y - 40), (x + 15, y - 4)] if cliff[j + 1][0] > x + 16 else [(x, y)]
    ll, lr = r.uniform(120, 260), r.uniform(120, 260)
    g = r.choice((0., 1., 4.))
    lag = [(x, -br + r.uniform(-g, g)) for x in walk(-ll, lr, 20, 120)]
    how = r.random()
    if how < 0.3:
        # mapped as an outline: there and back along the cliff, closed
        lag = lag + [(x, -br - lw + 5 * r.random()) for x, _ in reversed(lag[1:-1])] + [lag[0]]
    side = r.choice((-1, 1))
    kind = r.choice(('oblique', 'oblique', 'oblique', 'straight', 'short'))
    us = side * r.uniform(-60., 100.)
    if kind == 'straight':
        c = us - us % Dx
        us = c + Dx * r.uniform(.1, .9)
        e = min(Dx * .09, 1.) * r.uniform(.1, 1) * side
        out = [(us, -br + 1), (us + e, 40.)]
        if r.random() < 0.5:
            out.insert(1, (us + e * .4, -br / 2 - 3))
    elif kind == 'short':
        out = [(us, -br - r.uniform(-5, 15)), (us + side * r.uniform(1.2, 3) * Dx, 40.)]
    else:
        w = r.uniform(.35, .65)
        d = r.uniform(60, 250)
        out = [(us, -br + r.choice((-8., 1., r.uniform(-10, 2)))), (us + side * r.uniform(10, 25), -br * w - 3), (us + side * d, -br * w),
               (us + side * (d + r.uniform(.5, 30)), 40.)]
    shapes = dict(shoreline=shore, cliff=cliff, lagoon=lag, outlet=out)
    s['grid'] = dict(mode='shape', shapes=dict({k: [tr(p) for p in v] for k, v in shapes.items()}, river=tr((0., -br - lw - 20 + r.uniform(-30, 20)))))
    s['init'].update(OutletWidth=round(r.uniform(6, 20.), 3), BarrierElev=r.uniform(2.8, 6))


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C21', i)
    s = G.scenario_for(seed, 'C21-%d' % i, 'straight', hours=(0.1, 0.2))
    c = dict(scn=common.densify(s))
    s['time']['dur'] = int(s['time']['MorDtMin'] * r.randint(1, 3))
    s['init'].update(LagoonBed=round(r.uniform(-2, .3), 3), OutletBed=round(r.uniform(-2, .3), 3))
    if r.random() < 0.25:
        s['num']['Dx'] = r.choice((10., 12.3, 15., 17.9, 20., 22.22, 25., 31.7, 19.95))
        s['grid'].update(left=r.choice((200., 300., 431., r.uniform(150, 500))), right=r.choice((200., 300., 432., r.uniform(150, 500))),
                         beach=round(s['phys']['SpitWidth'] + r.uniform(1, 80), 2))
    else:
        coast(r, s)
        # how the same lines may be drawn as well
        c['flip'] = {k: r.random() < 0.5 for k in maps.LINES}
        c['extra'] = {k: [r.random() for _ in range(r.choice((0, 0, 1, 3)))] for k in ('cliff', 'lagoon', 'outlet')}
    return c


def redraw(case):
    g = {k: [list(p) for p in case['scn']['grid']['shapes'][k]] for k in maps.LINES}
    for k, at in case['extra'].items():
        for u in at:
            # a vertex in the middle of an existing leg, leg chosen by position
            j = min(int(u * (len(g[k]) - 1)), len(g[k]) - 2)
            f = (u * 7919.) % 1 * .8 + .1
            p, q = g[k][j], g[k][j + 1]
            g[k].insert(j + 1, [p[0] + f * (q[0] - p[0]), p[1] + f * (q[1] - p[1])])
    for k, rev in case['flip'].items():
        if rev:
            g[k].reverse()
    g['river'] = list(case['scn']['grid']['shapes']['river'])
    return g


class Fine(Exception):
    """too close to call"""


def beyond(a, b):
    if abs(a - b) < 1e-6:
        raise Fine()
    return a > b


def read_map(s):
    """the coast the maps describe"""
    q = maps.local(s['grid']['shapes'])
    Dx, p, ini = s['num']['Dx'], s['phys'], s['init']
    E = dict(orient=maps.axis(s['grid']['shapes'])[3], origin=maps.axis(s['grid']['shapes'])[0])
    sh = sorted(q['shoreline'])
    if any(b[0] - a[0] < 1e-6 for a, b in zip(sh, sh[1:])):
        raise Fine()
    k0, k1 = math.ceil(sh[0][0] / Dx), math.floor(sh[-1][0] / Dx)
    for k, x in ((k0, sh[0][0]), (k1, sh[-1][0])):
        if abs(k * Dx - x) < 1e-6 or abs(k * Dx - x) > Dx - 1e-6:
            raise Fine()
    X = Dx * np.arange(k0, k1 + 1)
    n = X.size
    Y, Z = np.full((n, 5), np.nan), np.full((n, 4), np.nan)
    W = float(ini['OutletWidth'])
    lx, ox = [v[0] for v in q['lagoon']], [v[0] for v in q['outlet']]
    for v in lx + ox + [v[0] for v in q['cliff']]:
        if abs(v / Dx - round(v / Dx)) * Dx < 1e-6:
            raise Fine()
    mouth = []
    crossed = False
    for i, x in enumerate(X):
        Y[i, 0] = [a[1] + (x - a[0]) / (b[0] - a[0]) * (b[1] - a[1]) for a, b in zip(sh, sh[1:]) if a[0] <= x <= b[0]][0]
        Y[i, 4] = max(maps.crossings(q['cliff'], x))
        c = maps.crossings(q['lagoon'], x)
        Y[i, 3] = max(c) if c else Y[i, 4]
        c = maps.crossings(q['outlet'], x)
        if len(c) > 1:
            raise Fine()
        if c:
            crossed = True
            if beyond(c[0] - W / 2, Y[i, 3]) and beyond(Y[i, 0], c[0] + W / 2):
                mouth.append(i)
                Y[i, 1], Y[i, 2] = c[0] + W / 2, c[0] - W / 2
    a, b = q['outlet'][0], q['outlet'][-1]
    if not beyond(b[1], a[1]):
        a, b = b, a
    right = 1 if beyond(b[0], a[0]) else -1
    if mouth:
        first, last = (mouth[0], mouth[-1]) if right > 0 else (mouth[-1], mouth[0])
        end = (X[first], X[last] + right * Dx / 2)
        if len(mouth) != abs(last - first) + 1:
            # in pieces: not a coast anybody means
            raise Fine()
    else:
        if crossed:
            raise Fine()
        first = int(np.where(X < min(ox))[0][-1]) + (right < 0)
        end = (X[first], X[first] + right * Dx / 2)
        Y[first, 1] = min(Y[first, 0] - p['SpitWidth'], (Y[first, 0] + Y[first, 3]) / 2 + W / 2)
        Y[first, 2] = Y[first, 1] - W
        Y[first, 3] = min(Y[first, 2] - .001, Y[first, 3])
        mouth = [first]
    Z[:, 0] = ini['BarrierElev']
    Z[mouth, 2] = ini['BarrierElev']
    Z[:, 3] = ini['LagoonBed']
    fall = [ini['LagoonBed'] + j / len(mouth) * (ini['OutletBed'] - ini['LagoonBed']) for j in range(len(mouth) + 1)]
    Z[mouth if right > 0 else mouth[::-1], 1] = fall[:-1]
    E.update(X=X, Y=Y, Z=Z, end=end, endz=ini['OutletBed'], endw=W)
    return E


def described(s):
    """the coast the lengths and widths describe"""
    Dx, p, ini, g = s['num']['Dx'], s['phys'], s['init'], s['grid']
    # the transects that are needed to cover the lengths asked for, one at the river
    X = Dx * np.arange(-math.ceil(g['left'] / Dx - 1e-9), math.ceil(g['right'] / Dx - 1e-9) + 1)
    n = X.size
    Y, Z = np.full((n, 5), np.nan), np.full((n, 4), np.nan)
    Y[:, 0] = 0.
    Y[:, 3:] = -g['beach']
    i = int(np.argmin(np.abs(X)))
    Y[i, 1] = -p['SpitWidth']
    Y[i, 2] = Y[i, 1] - ini['OutletWidth']
    Y[i, 3] = Y[i, 2] - .001
    Y[i, 4] = Y[i, 2] - p['RiverWidth']
    Z[:, 0] = ini['BarrierElev']
    Z[i, 2] = ini['BarrierElev']
    Z[i, 1] = (ini['LagoonBed'] + ini['OutletBed']) / 2
    Z[:, 3] = ini['LagoonBed']
    return dict(orient=0., origin=(0., 0.), X=X, Y=Y, Z=Z, end=(0., 0.), endz=ini['OutletBed'], endw=ini['OutletWidth'])


YV = ('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y')
ZV = ('barrier_crest_z', 'outlet_bed_z', 'inner_barrier_crest_z', 'lagoon_bed_z')


def run(case, ctx):
    s = case['scn']
    mapped = s['grid']['mode'] == 'shape'
    try:
        E = read_map(s) if mapped else described(s)
    except Fine:
        ctx.probe('too close to call')
        return
    q = dict(s)
    if mapped:
        q['grid'] = dict(s['grid'], shapes=redraw(case))
    r = ctx.sim(q)
    if r['status'] != 'ok' and not r.get('records', 1):
        common.died(ctx, r, 'completion')
        return
    if common.died(ctx, r, 'completion'):
        return
    m = ctx.rows(r, q)
    if not common.wellformed(ctx, m):
        return
    ctx.sim_s += m['time'][-1] - m['time'][0]
    ctx.count('starts')
    if mapped:
        ctx.count('mapped')
        ctx.probe('outlet to the %s, %s' % ('right' if E['end'][1] > E['end'][0] else 'left', 'several transects' if
                                            np.sum(~np.isnan(E['Y'][:, 1])) > 1 else 'one transect'))
    at = m['_attrs']
    X = np.asarray(m['transect_x'], float)
    if X.size != E['X'].size or np.max(np.abs(X - E['X'])) > 1e-6 * np.max(np.abs(X)):
        ctx.bad('transects', '%d transects from %g to %g, described: %d from %g to %g' % (X.size, X[0], X[-1], E['X'].size, E['X'][0], E['X'][-1]))
        return
    if abs(wrap(math.radians(at['ModelOrientation'] - E['orient']))) > 1e-6:
        ctx.bad('axis', 'coast faces %r, described: %r' % (float(at['ModelOrientation']), E['orient']))
        return
    if math.hypot(at['ModelOriginX'] - E['origin'][0], at['ModelOriginY'] - E['origin'][1]) > 1e-3:
        ctx.bad('axis', 'origin %r %r, described: %r' % (float(at['ModelOriginX']), float(at['ModelOriginY']), tuple(E['origin'])))
        return
    for vs, want in ((YV, E['Y']), (ZV, E['Z'])):
        for j, v in enumerate(vs):
            x = np.asarray(m[v][0], float)
            ok = np.isclose(x, want[:, j], rtol=0, atol=1e-5, equal_nan=True)
            if not np.all(ok):
                k = int(np.where(~ok)[0][0])
                ctx.bad(v, 'at transect %g: %r, described: %r (%d transects differ)' % (X[k], float(x[k]), float(want[k, j]), np.sum(~ok)))
                return
    x = np.asarray(m['outlet_end_x'][0], float)
    if np.max(np.abs(x - E['end'])) > 1e-6 * np.max(np.abs(X)):
        ctx.bad('outlet_end_x', '%r, described: %r' % (x.tolist(), list(map(float, E['end']))))
        return
    for v, want in (('outlet_end_z', E['endz']), ('outlet_end_width', E['endw']), ('outlet_closed', 0)):
        if abs(float(m[v][0]) - want) > 1e-6:
            ctx.bad(v, '%r, described: %r' % (float(m[v][0]), want))
            return
    # the river comes down from its upstream end to the bed of the lagoon
    z, p, Dx = np.asarray(m['river_bed_z'][0], float), s['phys'], s['num']['Dx']
    n = p['UpstreamLength'] / Dx
    if not n - 1e-6 <= z.size < n + 1 + 1e-6 or np.max(np.abs(z[::-1] - s['init']['LagoonBed'] - p['RiverSlope'] * Dx * np.arange(z.size))) > 1e-6:
        ctx.bad('river_bed_z', '%d cells from %g to %g; described: %g m long, falling at %g to %g' % (
            z.size, z[0], z[-1], p['UpstreamLength'], p['RiverSlope'], s['init']['LagoonBed']))
