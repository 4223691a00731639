"""C19: histories do not depend on the date or on where the coast lies."""
import datetime as dt
import json

import numpy as np

from .. import gen as G, maps, scenario
from . import common
from .c03 import shift
from .c18 import compare, jog, width

COUNT = dict(quick=130, thorough=6000)
LEVEL = 'exploration'
RULE = ('Each case simulates a coast and weather twice: on two dates (across month ends, leap days, years and centuries, in the past and '
        'future, some continued in a second leg from a file of the first), or at two places and orientations (maps, stored axis and wave '
        'bearings moved and turned together, past due north), in full or thinned output, fixed and adaptive steps, failing solves included.')
NOTE = ('bitwise between dates; up to rounding between places, where a difference counts only if runs perturbed in the last digits do not '
        'show one of that size')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C19', i)
    lab = 'C19-%d' % i
    kind = r.choice(('date', 'date', 'leg', 'turn', 'turn', 'axis'))
    h = (0.3, 0.9) if tier == 'quick' else (1, 6)
    if kind == 'turn':
        s = G.scenario_for(seed, lab, 'shape', hours=h)
    elif kind == 'axis':
        s = G.directed(seed, lab, steps=(8, 30)) if r.random() < 0.6 else G.scenario_for(seed, lab, r.choice(('open', 'closed')), hours=h)
    elif r.random() < 0.4:
        s = G.directed(seed, lab, steps=(8, 40))
    else:
        s = G.scenario_for(seed, lab, r.choice(('straight', 'open', 'closed', 'shape')), hours=h)
    common.densify(s)
    for k in ('flow', 'sea', 'wave'):
        s['weather'][k].update(dt=r.choice((7, 15, 30, 60, 180)), lead=r.choice((1, 1, 5, 60)), tail=r.choice((0, 7200, 86400)))
        if r.random() < 0.3:
            s['weather'][k]['jitter'] = r.randint(1, 10 ** 6)
    s['weather']['wave']['bearing'] = r.choice((0, 0, 360))
    c = dict(kind=kind, scn=s)
    if kind in ('date', 'leg'):
        # the hours around which dates turn
        a = r.choice((0, -36524, 3652, 7305)) + r.randint(-3000, 3000)
        b = r.choice(('near', 'turn', 'turn', 'far'))
        if b == 'turn':
            d = r.choice((dt.date(2000, 2, 28), dt.date(2004, 2, 28), dt.date(2001, 2, 28), dt.date(1999, 12, 31), dt.date(2100, 2, 28),
                          dt.date(2011, 12, 31), dt.date(2012, 1, 12), dt.date(2007, 3, 31), dt.date(2013, 12, 12), dt.date(1970, 1, 1),
                          dt.date(2038, 1, 19), dt.date(2013, 4, 7), dt.date(2013, 9, 29)))
            a = (d - scenario.EPOCH.date()).days - s['time']['start'] // 86400
            if r.random() < 0.7:
                # start in the last minutes of the day
                x = 86400 - 60 * r.randint(1, 20) - s['time']['start'] % 86400
                for o, k in ((s['time'], 'start'), (s, 't_shift')):
                    o[k] = o.get(k, 0) + x
                if s.get('hotstart'):
                    s['hotstart']['at'] += x
                if s.get('craft'):
                    s['craft']['t'] += x
        elif b == 'near':
            a = r.randint(1, 40)
        c['days'] = a if a else 1
        if kind == 'leg':
            c['cut'] = r.uniform(0.2, 0.9)
            c['off'] = r.choice((0, r.randint(-20, 20)))
        if r.random() < 0.4:
            s['out']['OutInt'] = r.choice((0.01, 0.05, 0.25))
    else:
        c['deg'] = round(r.choice((r.uniform(-180, 180), r.uniform(-180, 180), 90., 180., -90., r.uniform(-1, 1))), 4)
        c['by'] = [round(r.uniform(-1e6, 1e6), 2), round(r.uniform(-1e6, 5e6), 2)]
    if r.random() < 0.2:
        est = int(s['time']['dur'] / s['time']['HydDt'] * 3) + 2
        c['solver'] = [dict(at=r.randint(1, est), len=r.choice((1, 5)), kind='value' if kind in ('turn', 'axis') else
                            r.choice(('singular', 'nan', 'value'))) for _ in range(2)]
    return c


def copy(s):
    return json.loads(json.dumps(s))


def fixed(s):
    """the same scenario with its series written out"""
    s = copy(s)
    s['series'] = {k: [list(x) for x in scenario.series(s, k)] for k in ('flow', 'sea', 'wave')}
    return s


def later(s, days):
    q = copy(s)
    shift(q, days)
    for rows in q['series'].values():
        for x in rows:
            x[0] += 86400 * days
    return q


def turned(s, deg, by):
    q = copy(s)
    if q['grid']['mode'] == 'shape' and not q.get('craft'):
        q['grid']['shapes'] = maps.move(maps.turn(q['grid']['shapes'], -deg), *by)
    else:
        q['craft']['orient'] = q['craft'].get('orient', 0.) + deg
        q['craft']['origin'] = by
    for x in q['series']['wave']:
        x[4] += deg
        if q['weather']['wave'].get('bearing'):
            x[4] %= q['weather']['wave']['bearing']
    return q


def alike(ctx, A, B, days, what):
    for nm, vs in (('m', common.MAINV), ('ts', common.TSV)):
        a, b = A[nm], B[nm]
        n = a['time'].size
        if n != b['time'].size:
            ctx.bad('date', '%s: %d records, %d when moved by %d days' % (what, n, b['time'].size, days))
            return False
        ta, tb = common.abstime(a), common.abstime(b)
        j = np.where(np.abs(tb - ta - 86400. * days) > 2e-6)[0]
        if j.size:
            ctx.bad('date', '%s: record %d at %r, %r when moved by %d days' % (what, j[0], float(ta[j[0]]), float(tb[j[0]]), days))
            return False
        for k in range(n):
            ctx.count('records')
            d = common.diff_rows(a, k, b, k, vs)
            if d:
                ctx.bad('date', '%s: record %d when moved by %d days: %s' % (what, k, days, d))
                return False
    return True


def both(ctx, r, s):
    return dict(m=ctx.rows(r, s), ts=ctx.rows(r, s, 'TsOutFile'))


def dates(case, ctx):
    s = fixed(case['scn'])
    q = later(s, case['days'])
    env = dict(solver=case.get('solver', []))
    legs = [(s, q, None)]
    if case['kind'] == 'leg':
        legs.append((None, None, case['cut']))
    prev = None
    for a, b, cut in legs:
        wa, wb = ctx.dir(), ctx.dir()
        if cut is not None:
            ma = prev[0]
            t = common.abstime(ma)
            at = int(round(t[min(t.size - 1, int(cut * t.size))])) + case['off']
            a, b = copy(s), copy(q)
            for x, w, old, d in ((a, wa, prev[1], 0), (b, wb, prev[2], case['days'])):
                x.pop('craft', None)
                x['hotstart'] = dict(file='start.nc', at=at + 86400 * d, cont=True)
                scenario.shutil_copy(old + '/out.nc', w + '/start.nc')
        ra = ctx.sim(a, env, wd=wa)
        if common.died(ctx, ra, 'completion'):
            return
        rb = ctx.sim(b, env, wd=wb)
        if rb['status'] != 'ok':
            ctx.bad('date', 'moved by %d days the run does not end: %s %s' % (case['days'], rb.get('type', rb['status']), rb.get('msg', '')))
            return
        A, B = both(ctx, ra, a), both(ctx, rb, b)
        ctx.sim_s += 2 * (A['m']['time'][-1] - A['m']['time'][0])
        ctx.count('pairs')
        if not alike(ctx, A, B, case['days'], 'continued' if cut is not None else 'run'):
            return
        t = common.abstime(B['m'])
        if (scenario.EPOCH + dt.timedelta(seconds=float(t[0]))).date() != (scenario.EPOCH + dt.timedelta(seconds=float(t[-1]))).date():
            ctx.probe('over midnight')
        prev = (A['m'], wa, wb)


SKIP = ('wave_dir',)


def places(case, ctx):
    s = fixed(case['scn'])
    q = turned(s, case['deg'], case['by'])
    env = dict(solver=case.get('solver', []))
    D = common.dense(ctx, s, env)
    if D is None:
        return
    E = common.dense(ctx, q, env, kind='place')
    if E is None:
        return
    ctx.count('pairs')
    X, Y = D.m['transect_x'], E.m['transect_x']
    if X.shape != Y.shape or np.max(np.abs(X - Y)) > 1e-6:
        ctx.bad('place', 'transects %g..%g, elsewhere %g..%g' % (X[0], X[-1], Y[0], Y[-1]))
        return
    mapped = not s.get('craft')
    tol = 1e-6 if mapped else 1e-9

    def control(e):
        c = common.dense(ctx, jog(s, e), env)
        return c and c.m
    # the direction is an angle: the same way round
    for o in (D.m, E.m, D.ts, E.ts):
        o['wave_dir'] = np.angle(np.exp(1j * (o['wave_dir'] - 1e-4)))
    if compare(ctx, 'place', D.m, E.m, tol, control, 'elsewhere'):
        for v in common.TSV:
            if width(D.ts[v], E.ts[v]) > 10 * tol:
                ctx.bad('place', 'time series %s' % v)
                return


def run(case, ctx):
    (dates if case['kind'] in ('date', 'leg') else places)(case, ctx)
