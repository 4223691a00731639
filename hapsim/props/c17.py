"""C17: recorded forcing against the supplied series."""
import math

import numpy as np

from .. import gen as G, maps, scenario
from . import common
from .c03 import shift

COUNT = dict(quick=160, thorough=7000)
LEVEL = 'exploration'
RULE = ('Each case is one dense run on a straight, mapped or continued coast facing any direction, driven by series with regular or '
        'irregular times (finer and coarser than the step, starting long before or at the start, ending at or after the end), waves from '
        'any bearing including offshore and across north, on any calendar day, fixed and adaptive steps, some with failing solves.')
NOTE = ('every recorded forcing value is recomputed from the files supplied, for the time it applies to, with the orientation of the '
        'coast worked out independently')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C17', i)
    fam = r.choice(('shape', 'shape', 'straight', 'open', 'closed', 'dir'))
    lab = 'C17-%d' % i
    if fam == 'dir':
        s = G.directed(seed, lab, steps=(8, 30))
    else:
        s = G.scenario_for(seed, lab, fam, hours=(0.4, 1.2) if tier == 'quick' else (1, 6))
    common.densify(s)
    t, w = s['time'], s['weather']
    if fam in ('shape', 'straight'):
        t['start'] += r.choice((0, 0, 1, 30, 59, 61, 333))
        s['t_shift'] = t['start']
    t['dur'] += r.choice((0, 0, 0, 1, 7, 13))
    if r.random() < 0.5:
        shift(s, r.choice((-36525, -245, -1, 3, 12, 30, 91, 181, 547, 1277, 7000, 36000)) + r.randint(0, 40))
    orient = 0.
    if fam == 'shape':
        s['grid']['shapes'] = maps.turn(s['grid']['shapes'], r.choice((0., r.uniform(-180, 180), r.uniform(-180, 180))))
        orient = maps.axis(s['grid']['shapes'])[3]
    elif s.get('craft') and r.random() < 0.6:
        orient = s['craft']['orient'] = round(r.uniform(-180, 180), 3)
    q = w['wave']
    rel = r.choice((q['dir'], q['dir'], r.uniform(-180, 180), 178., -178.))
    q.update(dir=round(orient + rel, 3), dt=r.choice((7, 15, 30, 60, 180)), swing=r.choice((0., 10., 40., 120.)), period=r.choice((1., 2., 7., 13.)),
             lead=r.choice((1, 1, 5, 60)), tail=r.choice((0, 0, 7200, 86400)), bearing=r.choice((0, 360, 360)))
    for k in ('flow', 'sea'):
        w[k].update(dt=r.choice((1, 5, 15, 30, 60, 180)), lead=r.choice((1, 1, 5, 60)), tail=r.choice((0, 0, 7200, 86400)))
    for k in ('flow', 'sea', 'wave'):
        if r.random() < 0.35:
            w[k]['jitter'] = r.randint(1, 10 ** 6)
    if not w['flow']['events']:
        # something has to change for the times to matter
        w['flow']['events'] = [dict(t=t['dur'] * r.random(), rise=max(600., t['dur'] * r.random()), decay=max(900., t['dur']), peak=r.choice((10., 60.)))]
    if w['sea']['range'] == 0.:
        w['sea']['range'] = 0.6
    c = dict(scn=s)
    if r.random() < 0.15:
        est = int(t['dur'] / t['HydDt'] * 3) + 2
        c['solver'] = [dict(at=r.randint(1, est), len=r.choice((1, 5)), kind=r.choice(('singular', 'nan', 'value'))) for _ in range(2)]
    return c


def orientation(s):
    if s['grid']['mode'] == 'shape' and not s.get('craft'):
        return maps.axis(s['grid']['shapes'])[3]
    return s.get('craft', {}).get('orient', 0.)


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def direction(F, t, orient):
    """interpolated the short way round, relative to the seaward normal"""
    a, b = F.bracket('wave', t)
    x = 0. if b[0] == a[0] else (t - a[0]) / (b[0] - a[0])
    d = wrap(math.radians(b[4] - a[4]))
    if abs(abs(d) - math.pi) < 1e-6:
        return None
    return wrap(math.radians(a[4] - orient) + x * d)


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s, dict(solver=case.get('solver', [])))
    if D is None:
        return
    F = scenario.Forcing(s)
    orient = orientation(s)
    got = D.m['_attrs']['ModelOrientation']
    ctx.count('orientation')
    if abs(wrap(math.radians(got - orient))) > 1e-6:
        ctx.bad('orientation', 'seaward normal stored as %r degrees, the coast faces %r' % (float(got), orient))
        return
    hyd = float(s['time']['HydDt'])
    T = common.abstime(D.m)
    prev = float(s['time']['MorDtMin'])
    end = common.t_end(s)
    for k in range(T.size):
        a = T[k - 1] if k else T[0]
        full = lambda d: a + (math.floor(d / hyd + 1e-9) * hyd if d >= hyd - 1e-9 else d)
        for v, kind in (('river_flow', 'flow'), ('sea_level', 'sea')):
            x = float(D.ts[v][k])
            ctx.count(v)
            ok = lambda t: abs(x - F.at(kind, t)) <= 1e-8 * (1 + abs(x))
            if k and abs(float(D.m[v][k]) - x) > 1e-8 * (1 + abs(x)):
                ctx.bad(v, 'record %d: %r in the main file, %r in the time series' % (k, float(D.m[v][k]), x))
                return
            if ok(T[k]) or k and ok(full(T[k] - a)):
                continue
            old = full(min(prev, end - a)) if k else T[0]
            fin = 'hydraulics-window' if k and abs(old - T[k]) > 1e-6 and ok(old) else None
            ctx.bad(v, 'record %d (%g s after the start): %r, supplied for the end of the step: %r%s' % (
                k, T[k] - T[0], x, F.at(kind, T[k]), ' (value of %g s earlier: the water was run for the length of the step before)' % (T[k] - old) if fin else ''), finding=fin)
            if not fin:
                return
        ctx.count('waves')
        h, d = float(D.ts['hs_offshore'][k]), float(D.ts['wave_dir'][k])
        if k and (abs(float(D.m['hs_offshore'][k]) - h) > 1e-8 * (1 + h) or abs(float(D.m['wave_dir'][k]) - d) > 1e-8):
            ctx.bad('waves', 'record %d: %r m from %r rad in the main file, %r m from %r rad in the time series' % (
                k, float(D.m['hs_offshore'][k]), float(D.m['wave_dir'][k]), h, d))
            return
        if abs(h - F.at('wave', a, 5)) > 1e-8 * (1 + h):
            ctx.bad('hs_offshore', 'record %d: %r, supplied for the start of the step: %r' % (k, h, F.at('wave', a, 5)))
            return
        want = direction(F, a, orient)
        if want is None:
            continue
        # across south exactly either sign will do
        if abs(wrap(d - want)) > 1e-7 or abs(d) > math.pi + 1e-9:
            ctx.bad('wave_dir', 'record %d: %r rad, supplied for the start of the step: %r' % (k, d, want))
            return
        prev = float(D.ts['mordt'][k])
        if k:
            A, B = F.bracket('wave', a)
            if abs(math.radians(B[4] - A[4])) > math.pi:
                ctx.probe('interpolated across north')
            if abs(d) > 3:
                ctx.probe('waves directly offshore')
            if abs(T[k] - T[k - 1] - D.ts['mordt'][k - 1]) > 1e-6:
                ctx.probe('step length changed')
