"""C08: water balance of every hydraulic step."""
import numpy as np

from .. import gen as G, scenario, water
from . import common

COUNT = dict(quick=220, thorough=6000)
LEVEL = 'exploration'
RULE = ('Each case is one dense run with one hydraulic step per record and a tight solver tolerance: open, closed, opening and closing, '
        'floods and tides, permeable barriers, offline lagoon on one or both sides, some with failing solves.')
NOTE = ('mass and momentum of every reach and of the whole water body are recomputed from consecutive records by independent code; steps that '
        'fell back to the steady profile are left out')


def gen(seed, i, tier):
    c = common.mixed(seed, 'C08', i, share=0.5, adaptive=False, solver=0.15, steps=(8, 30) if tier == 'quick' else (20, 120),
                     hours=(0.2, 0.5) if tier == 'quick' else (1, 4))
    r = scenario.rng_for(seed, 'C08x', i)
    s = c['scn']
    t = s['time']
    t['HydDt'] = r.choice((5., 10., 15., 20., 30.))
    n = int(t['dur'] / t['MorDtMin'])
    t['MorDtMin'] = t['MorDtMax'] = t['HydDt']
    if i % 4 == 3:
        return several(c, r)
    if s['family'].startswith('dir-'):
        t['dur'] = int(n * t['HydDt'])
    else:
        t['dur'] = int(min(t['dur'], 90 * t['HydDt']))
    s['num'].update(ErrTol=r.choice((1e-6, 1e-7)), MaxIt=80)
    s['phys']['BarrierPermeability'] = r.choice((0., 0.0005, 0.002, 0.01))
    if r.random() < 0.4:
        # quick changes of level and flow
        w = s['weather']
        w['sea'].update(range=r.choice((1., 2.5)), dt=15, phase=round(r.random(), 3))
        w['flow'].update(dt=15, events=[dict(t=r.uniform(0, t['dur']), rise=900., decay=3600., peak=r.choice((30., 150.)))])
    return c


def several(c, r):
    """several hydraulic steps between records"""
    s = c['scn']
    t = s['time']
    c.pop('solver', None)
    c['kind'] = 'window'
    m = r.choice((2, 3, 6, 12))
    t['MorDtMin'] = t['MorDtMax'] = m * t['HydDt']
    t['dur'] = int(r.randint(3, 12) * t['MorDtMin'])
    s['num'].update(ErrTol=1e-8, MaxIt=80)
    s['phys']['BarrierPermeability'] = r.choice((0., 0.002, 0.01))
    w = s['weather']
    w['sea'].update(range=r.choice((0.6, 1.5, 2.5)), dt=r.choice((1, 15)), phase=round(r.random(), 3))
    if r.random() < 0.6:
        w['flow'].update(dt=r.choice((1, 15)), events=[dict(t=r.uniform(-300, t['dur']), rise=900., decay=3600., peak=r.choice((30., 150.)))])
    return c


def windows(case, ctx, D):
    """each window repeated, step by step, by an independent solver"""
    s = case['scn']
    P, F = D.P, scenario.Forcing(s)
    off = common.units_epoch(D.m)
    warned = any(q in m for _, m in D.r['text'] for q in ('Falling back', 'Max iterations', 'LinAlgError'))
    for k, st, prev, left in D.steps():
        dt = st.b.t - st.a.t
        n = int(round(dt / P.HydDt))
        if abs(dt - n * P.HydDt) > 1e-6 or n < 1:
            continue
        if not st.agree or st.lost:
            ctx.probe('step not comparable')
            continue
        h, V, missing = water.before(st)
        V = np.where(V == 0, 1e-4, V)
        fine, fr = True, 0.
        for j in range(1, n + 1):
            t = st.a.t + j * P.HydDt + off
            V0 = np.where(V == 0, 1e-4, V)
            if not water.usable(h, np.where(V0 == 1e-4, 1., V0) if st.closed else V0):
                ctx.probe('window: dry or still')
                fine = False
                break
            q = water.advance(st.ch, P, P.HydDt, h, V0, F.at('flow', t), F.at('sea', t))
            if q is None or np.any(q[0] < 0.02):
                ctx.probe('window: not solved')
                fine = False
                break
            fr = max(fr, float(np.max(np.abs(q[1]) / np.sqrt(9.81 * q[0]))))
            h, V = q
            if st.closed:
                V[-1] = 0.
        if not fine:
            continue
        ctx.count('window of %d closed' % n if st.closed else 'window of %d open' % n)
        dh, dv = np.max(np.abs(h - st.h)), np.max(np.abs(V - st.V)[:-1])
        c = st.ch
        reach = np.zeros(c.z.size)
        reach[:-1] += c.dx / 2
        reach[1:] += c.dx / 2
        reach = reach * c.B + c.area
        mean = abs(np.sum((h - st.h) * reach) / np.sum(reach))
        # in a closed lagoon velocities of exactly zero count as 1e-4 m/s, decided by rounding
        drift = 2e-6 + n * P.HydDt * 1e-4 * np.max(h * c.B) / np.sum(reach)
        tol = (2e-4 + 2 * drift, 1e-3, drift) if st.closed else (2e-6, 2e-5, 2e-6)
        if st.closed:
            for x in (1e-7, 1e-6, 1e-5):
                ctx.probe('closed: mean level differs by more than %g' % x, int(mean > x))
        if dh > tol[0] or dv > tol[1] or mean > tol[2]:
            if warned:
                ctx.probe('window in a run with warnings')
                continue
            if fr > 0.9 and dh > 0.01:
                ctx.probe('super-critical window with another solution')
                continue
            j = int(np.argmax(np.abs(h - st.h)))
            ctx.bad('window', 'record %d, %d hydraulic steps: depth %.8g in cross-section %d, the balance leads to %.8g (velocity off by %.3g)' % (
                k + 1, n, st.h[j], j, h[j], dv))
            return


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s, dict(solver=case.get('solver', [])))
    if D is None:
        return
    if case.get('kind') == 'window':
        return windows(case, ctx, D)
    P = D.P
    ap = [a for a in D.r['appends'] if a[0] == s['out']['OutFile']][-len(D.H):]
    for k, st, prev, left in D.steps():
        dt = st.b.t - st.a.t
        if abs(dt - P.HydDt) > 1e-6:
            continue                                    # last, shorter step
        # boundary flow is judged even where the interior is not comparable
        if ap[k + 1][4] >= P.ErrTol:
            ctx.probe('not converged')
            continue
        if not st.agree or st.lost:
            ctx.probe('step not comparable')
            continue
        h0, V0, missing = water.before(st)
        if not (water.usable(h0, np.where(V0 == 0, 1., V0)) and water.usable(st.h, st.V)):
            ctx.probe('dry or still cross-section')
            continue
        V0 = np.where(V0 == 0, 0.0001, V0)              # the model never works with velocities of zero
        r = water.balance(st, P, dt, h0, V0, st.h, st.V)
        ctx.count('closed' if st.closed else 'open')
        if missing:
            ctx.count('channel changed')
        if P.BarrierPermeability and np.any(np.abs(r.seep) > 0):
            ctx.count('seepage')
        if np.any(st.ch.area > 0):
            ctx.count('offline storage')
        if abs(r.Q1[0] - st.b.flow) > 1e-4 * (1 + st.b.flow):
            ctx.bad('inflow', 'step %d: %.9g m3/s enter, river flow is %.9g' % (k, r.Q1[0], st.b.flow))
        if st.closed:
            if abs(r.Q1[-1]) > 1e-3:
                ctx.bad('outflow', 'step %d: %.6g m3/s leave the closed lagoon' % (k, r.Q1[-1]))
        elif abs(st.ch.z[-1] + st.h[-1] - st.b.sea) > 1e-5:
            ctx.bad('sea level', 'step %d: downstream level %.6g, sea at %.6g' % (k, st.ch.z[-1] + st.h[-1], st.b.sea))
        tol = 1e-6
        j = int(np.argmax(np.abs(r.level)))
        if abs(r.level[j]) > tol:
            ctx.bad('mass', 'step %d reach %d: %.6g m3 unaccounted for (%.3g m of water)' % (k, j, r.mass[j], r.level[j]))
        j = int(np.argmax(np.abs(r.vel)))
        if abs(r.vel[j]) > tol * 10:
            ctx.bad('momentum', 'step %d reach %d: velocity off by %.6g m/s' % (k, j, r.vel[j]))
        if abs(r.total) > tol * float(np.sum(r.area)):
            ctx.bad('volume', 'step %d: stored %.6g m3 more, in minus out %.6g m3' % (k, r.volume, r.inout))
        ctx.probe('level residual above 1e-7', int(np.max(np.abs(r.level)) > 1e-7))
        ctx.probe('level residual above 1e-6', int(np.max(np.abs(r.level)) > 1e-6))
        ctx.probe('velocity residual above 1e-6', int(np.max(np.abs(r.vel)) > 1e-6))
        ctx.probe('velocity residual above 1e-5', int(np.max(np.abs(r.vel)) > 1e-5))
        if ctx.violations:
            return
