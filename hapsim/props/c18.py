"""C18: mirrored coasts have mirrored histories."""
import json

import numpy as np

from .. import gen as G, maps, scenario
from . import common

COUNT = dict(quick=150, thorough=6000)
LEVEL = 'exploration'
RULE = ('Each case simulates a coast and its reflection about the river axis with reflected waves, recorded every step: states right before '
        'elongation, truncation, closure and breach on either side, open, closed, straight and mapped coasts, some with several places '
        'acting at once and with the same failing solves in both.')
NOTE = ('bitwise, or to rounding where sums run in the opposite order; a difference counts only if a run perturbed in the last digits '
        'does not show one of that size')

SEG = ('lst',)
ALONG = ('lst',)
TX = ('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y', 'lagoon_bed_z', 'outlet_bed_z', 'barrier_crest_z',
      'inner_barrier_crest_z', 'lagoon_wl', 'lagoon_vel', 'lagoon_bedload', 'outlet_wl', 'outlet_vel', 'outlet_bedload', 'cst',
      'overwash_proportion', 'lst')
NEG = ('lst', 'wave_dir', 'outlet_end_x')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C18', i)
    x = r.random()
    lab = 'C18-%d' % i
    if x < 0.62:
        s = G.directed(seed, lab, steps=(8, 30) if tier == 'quick' else (15, 120))
    else:
        s = G.scenario_for(seed, lab, r.choice(('open', 'open', 'closed', 'shape')), hours=(0.4, 1.) if tier == 'quick' else (1, 5))
    c = s.get('craft')
    if c:
        # nothing may be exactly alike on both sides
        c.update(tie_seed=r.randint(1, 10 ** 6), nan_end=False, dtype='f8')
        c['frac'] = min(max(c['frac'], 0.03), 0.97)
        c['us'] = max(1, c['us'])
        k = 'lag_r' if c['side'] > 0 else 'lag_l'
        c[k] = max(c[k], c['us'] + 1)
        need = max(c['us'] + c['len'] + 2, c['lag_l'] + 2, c['lag_r'] + 2)
        c['nl'], c['nr'] = max(c['nl'], need), max(c['nr'], need)
        if s['family'] == 'dir-edge':
            c['nr' if c['side'] > 0 else 'nl'] = c['us'] + c['len'] + 1 if c['us'] + c['len'] + 1 > c[k] else need
    else:
        # one crest level for the whole mapped coast: the first of equally low places would give
        s['init']['BarrierElev'] = max(s['init']['BarrierElev'], 15.)
    case = dict(scn=common.densify(s))
    if r.random() < 0.15:
        est = int(s['time']['dur'] / s['time']['HydDt'] * 3) + 2
        case['solver'] = [dict(at=r.randint(1, est), len=r.choice((1, 5)), kind='value') for _ in range(2)]
    return case


def reflect(s):
    m = json.loads(json.dumps(s))
    w = m['weather']['wave']
    n = 0.
    if m.get('craft'):
        m['craft']['mirror'] = not m['craft'].get('mirror')
    elif m['grid']['mode'] == 'shape':
        n = maps.axis(s['grid']['shapes'])[3]
        m['grid']['shapes'] = maps.mirror(s['grid']['shapes'])
    else:
        m['grid']['left'], m['grid']['right'] = m['grid']['right'], m['grid']['left']
    rows = scenario.series(s, 'wave')
    m.setdefault('series', {})['wave'] = [list(x[:4]) + [2 * n - x[4]] + list(x[5:]) for x in rows]
    return m


def flip(o):
    f = {}
    for v, a in o.items():
        if v.startswith('_') or a.dtype.kind not in 'fi' or v in ('transect_x', 'shore_segment_x'):
            f[v] = a
            continue
        b = a
        if v in TX:
            b = b[:, ::-1]
        if v in NEG:
            b = -b
        f[v] = b
    return f


def jog(s, e=1e-11):
    """the same coast, off by what rounding may do"""
    p = json.loads(json.dumps(s))
    if p.get('craft'):
        p['craft']['eps'] = e
    elif p['grid']['mode'] == 'shape':
        p['grid']['shapes'] = maps.move(p['grid']['shapes'], 300 * e, -300 * e)
        p['init']['BarrierElev'] *= 1 + 0.1 * e
    else:
        p['init']['BarrierElev'] *= 1 + 0.1 * e
        p['init']['OutletWidth'] *= 1 + 0.1 * e
    return p


def width(x, y):
    """largest difference, NaN only matching NaN"""
    x, y = np.atleast_1d(x).astype(float), np.atleast_1d(y).astype(float)
    if np.any(np.isnan(x) != np.isnan(y)):
        return np.inf
    d = np.abs(x - y) / (1 + np.abs(y))
    d = d[~np.isnan(d)]
    return float(d.max()) if d.size else 0.


def spread(A, B, k, vs=common.MAINV):
    """(size, variable) of the largest difference of record k"""
    if k >= A['time'].size or k >= B['time'].size:
        return np.inf, 'number of records'
    if abs(A['time'][k] - A['time'][0] - B['time'][k] + B['time'][0]) > 1e-6:
        return np.inf, 'length of the step'
    w = [(width(A[v][k], B[v][k]), v) for v in vs]
    return max(w)


def compare(ctx, kind, A, B, tol, control, what, vs=common.MAINV, stop=None):
    """A and B record by record. control(e): the run of A with its start off by e."""
    n = min(A['time'].size, B['time'].size)
    for k in range(n):
        ctx.count('records')
        e, v = spread(A, B, k, vs)
        if e <= tol:
            if stop is not None and stop(k):
                return False
            continue
        for j in range(4):
            C = control((1e-11, -1e-11, 3e-12, -4e-11)[j])
            ctx.probe('control run')
            if C is not None:
                ec = max(spread(A, C, j, vs)[0] for j in range(min(k + 2, n)))
                if e <= max(tol, 1e3 * ec):
                    ctx.probe('undecided: sensitive to rounding')
                    return False
        x, y = np.atleast_1d(A[v][k]).astype(float), np.atleast_1d(B[v][k]).astype(float) if v in A else (None, None)
        if v in A and x.shape == y.shape:
            with np.errstate(invalid='ignore'):
                bad = (np.isnan(x) != np.isnan(y)) | (np.abs(x - y) > tol * (1 + np.abs(y)))
            j = int(np.argmax(bad))
            ctx.bad(kind, 'record %d: %s[%d] %r, %s %r' % (k + A.get('_k', 0), v, j, float(x.ravel()[j]), what, float(y.ravel()[j])))
        else:
            ctx.bad(kind, 'record %d: %s' % (k, v))
        return False
    if A['time'].size != B['time'].size:
        ctx.bad(kind, '%d records, %s %d' % (A['time'].size, what, B['time'].size))
        return False
    return True


WATER = ('river_wl', 'river_vel', 'lagoon_vel', 'outlet_vel', 'outlet_end_vel', 'dummy_xs_vel')


def part(o, k):
    return {v: (a[k:k + 1] if not v.startswith('_') and a.ndim and a.shape[0] == o['time'].size and v not in (
        'transect_x', 'shore_segment_x', 'river_dist') else a) for v, a in o.items()}


def run(case, ctx):
    s = case['scn']
    env = dict(solver=case.get('solver', []))
    D = common.dense(ctx, s, env)
    if D is None:
        return
    M = common.dense(ctx, reflect(s), env)
    if M is None:
        return
    ctx.count('pairs')
    exact = s['grid']['mode'] != 'shape' or bool(s.get('craft'))
    X, Y = D.m['transect_x'], M.m['transect_x']
    if X.shape != Y.shape or np.max(np.abs(X + Y[::-1])) > 1e-9:
        ctx.bad('transects', '%g..%g, reflected coast %g..%g' % (X[0], X[-1], Y[0], Y[-1]))
        return

    def control(e):
        q = common.dense(ctx, jog(s, e), env)
        return q and q.m
    Dx = s['num']['Dx']
    last = []

    def even(k):
        # an outlet ending right on a transect (which side of it the drift is caught on is a convention), or with no upstream end: the
        # sides are alike to the rules, and either may be taken from here
        x = D.m['outlet_end_x'][k]
        if np.any(np.isnan(x)) or abs(x[1] / Dx - round(x[1] / Dx)) < 1e-9:
            ctx.probe('sides alike')
            if not D.m['outlet_closed'][k] and not np.any(np.isnan(x)):
                last.append(k + 1)
            return True
        return False
    tol = 1e-9 if exact else 1e-6
    R = flip(M.m)
    if compare(ctx, 'mirror', D.m, R, tol, control, 'reflected coast', stop=even):
        for v in common.TSV:
            a, b = D.ts[v], flip(M.ts)[v]
            if width(a, b) > (1e-9 if exact else 1e-5):
                ctx.bad('mirror', 'time series %s' % v)
                return
        if common.same(D.m['shoreline_y'], flip(M.m)['shoreline_y']):
            ctx.probe('bit for bit')
    for k in last:
        # ... but the water runs the same way one step further
        if k < D.m['time'].size and k < M.m['time'].size:
            ctx.probe('water only')
            compare(ctx, 'mirror', part(D.m, k), part(R, k), tol, lambda e: (lambda q: q and part(q, k))(control(e)),
                    'reflected coast', vs=WATER)
