"""C07: steady starting and fallback profiles."""
import numpy as np

from .. import gen as G, hist, ref, scenario, water
from . import common

COUNT = dict(quick=330, thorough=9000)
LEVEL = 'exploration'
RULE = ('A third of the cases start fresh on a generated coast (maps, straight coasts and crafted outlets to either side) and run one step; the '
        'others inject bursts of failing linear solves in every way and place (a few leave the solver alone) over a dense run.')
NOTE = ('the steps that have to fall back are known from the injected failures and the observed convergence; their profile is judged by an '
        'independent energy-line oracle')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C07', i)
    if i % 3 == 0:
        s = G.scenario_for(seed, 'C07-%d' % i, r.choice(('straight', 'shape', 'open')), hours=(1, 1))
        s['time']['dur'] = int(s['time']['MorDtMin'])
        # unusual profiles: steep or adverse beds, tiny and huge flows, high and low sea
        s['weather']['flow']['base'] = round(10 ** r.uniform(0.6, 3.2), 3)
        s['weather']['flow']['events'] = []
        s['weather']['sea'].update(mean=r.uniform(-3, 2.5), range=r.choice((0., 2.)))
        s['init'].update(OutletBed=round(r.uniform(-2.5, 0.5), 2), LagoonBed=round(r.uniform(-2., 0.5), 2))
        s['num']['Beta'] = r.choice((0., 0.5, 1., 1.05, 1.2))
        s['num']['ErrTol'] = r.choice((0.001, 1e-4, 1e-5))
        s['num']['MaxIt'] = r.choice((30, 60))
        s['phys']['RiverSlope'] = r.choice((0.001, 0.003, 0.01, 0.02))
        return dict(kind='fresh', scn=common.densify(s))
    c = common.mixed(seed, 'C07', i, share=0.6, steps=(6, 25), hours=(0.3, 0.7) if tier == 'quick' else (1, 3), adaptive=r.random() < 0.4 and None)
    c['kind'] = 'fallback'
    s = c['scn']
    t = s['time']
    if r.random() < 0.5:
        # one water step per record, so that the step after can be followed too
        n = int(t['dur'] / t['MorDtMin'])
        t['MorDtMin'] = t['MorDtMax'] = t['HydDt']
        t['dur'] = int(min(n, 60) * t['HydDt'])
        s['num'].update(ErrTol=1e-6, MaxIt=80)
        c['follow'] = True
    est = int(t['dur'] / t['HydDt'] * (4 if c.get('follow') else 3)) + 2
    c['solver'] = []
    for _ in range(r.choice((1, 2, 4, 8))):
        k = r.choice(('singular', 'value', 'memory', 'nan', 'allnan', 'kick', 'overshoot'))
        f = dict(kind=k, at=r.choice((1, r.randint(1, est), r.randint(1, est))), len=r.choice((1, 1, 2, 3, 8)))
        if k in ('kick', 'overshoot'):
            f['len'] = s['num']['MaxIt'] + 3
            f['amp'] = r.choice((0.01, 0.3)) if k == 'kick' else r.choice((-0.6, -1., 2.5))
        if k == 'nan':
            f['idx'] = r.randint(0, 200)
        c['solver'].append(f)
    return c


def judge(ctx, st, P, what):
    bad, ncrit = water.steady_faults(st.ch, P, st.h, st.V, st.b.flow, st.b.sea)
    ctx.count(what)
    ctx.count('critical depth', ncrit)
    if st.ch.z[-1] + st.h[-1] > st.b.sea + 1e-6:
        ctx.count('critical at the sea')
    for nm, j, got, want in bad[:3]:
        ctx.bad(nm, '%s at t=%g, cross-section %d of %d: %.9g, expected %.9g' % (what, st.b.t, j, st.ch.z.size, got, want))


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s, dict(solver=case.get('solver', [])))
    if D is None:
        return
    P = D.P
    H = D.H
    fresh = not s.get('hotstart') or s['craft']['kind'] == 'open'
    if fresh and not H[0].closed:
        st = hist.Step(H[0], H[0], P, ref.assemble(H[0], P))
        if not st.agree:
            ctx.bad('starting profile', 'the water of the first record does not cover the channel of the first record')
            return
        judge(ctx, st, P, 'starting profile')
        F = scenario.Forcing(s)
        t = H[0].t + common.units_epoch(D.m)
        for nm, got, kd in (('flow', H[0].flow, 'flow'), ('sea level', H[0].sea, 'sea')):
            if abs(got - F.at(kd, t)) > 1e-6 * (1 + abs(got)):
                ctx.bad('starting ' + nm, '%.9g recorded, %.9g supplied' % (got, F.at(kd, t)))
    if ctx.violations or case['kind'] == 'fresh':
        return
    ap = [a for a in D.r['appends'] if a[0] == s['out']['OutFile']][-len(H):]
    fell = False
    for k, st, prev, left in D.steps():
        q = ap[k + 1]
        back = q[4] >= P.ErrTol
        dt = st.b.t - st.a.t
        if not st.agree or st.lost:
            fell = back
            continue
        if back and not st.closed:
            ctx.probe('fell back')
            judge(ctx, st, P, 'fallback profile')
            ctx.count('warning')
            # records are written after the step: warnings of this step lie between two records
            if q[5] <= ap[k][5]:
                ctx.bad('silent', 'step %d fell back to the steady profile without a warning' % k)
        elif fell and case.get('follow') and abs(dt - P.HydDt) < 1e-6 and not st.closed:
            h0, V0, missing = water.before(st)
            if water.usable(h0, np.where(V0 == 0, 1., V0)) and water.usable(st.h, st.V):
                r = water.balance(st, P, dt, h0, np.where(V0 == 0, .0001, V0), st.h, st.V)
                ctx.count('step after a fallback')
                if np.max(np.abs(r.level)) > 1e-6 or np.max(np.abs(r.vel)) > 1e-5:
                    ctx.bad('continuation', 'step %d does not continue from the steady profile of the step before: %g m, %g m/s unaccounted for' % (
                        k, np.max(np.abs(r.level)), np.max(np.abs(r.vel))))
        fell = back
        if ctx.violations:
            return
