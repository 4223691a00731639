"""C11: the adaptive step."""
import numpy as np

from .. import ref
from . import common

COUNT = dict(quick=160, thorough=9000)
LEVEL = 'exploration'
RULE = ('Each case is one dense run with its own minimum, maximum and hydraulic step; calm, stormy and flooding histories, '
        'half of them with durations that are no multiple of the step.')
NOTE = ('the rate of every quantity is worked out independently from the records; limits, need for reduction and growth are '
        'judged from those rates')


def gen(seed, i, tier):
    from .. import scenario
    c = common.mixed(seed, 'C11', i, share=1. if i % 4 == 1 else 0.55, steps=(10, 60), hours=(0.5, 1.2) if tier == 'quick' else (1, 6))
    r = scenario.rng_for(seed, 'C11x', i)
    t = c['scn']['time']
    t['HydDt'] = r.choice((5., 10., 15., 20.))
    t['MorDtMin'] = t['HydDt'] * r.choice((1, 1, 2, 3))
    t['MorDtMax'] = t['MorDtMin'] * r.choice((1, 2, 3, 4, 6, 8, 16, 30))
    c['scn']['num']['MaxMorChange'] = r.choice((0.002, 0.01, 0.05, 0.2, 1.0))
    k = c['scn'].get('craft')
    if k and i % 4 == 2:
        # a slug or a pit in the river is what changes fastest
        k['riv_hump'] = [round(r.uniform(0.2, 0.9), 3), round(r.choice((-1, 1)) * r.uniform(0.1, 0.8), 3), r.choice((1.5, 3., 6.))]
        c['scn']['weather']['wave'].update(Hs=0.5, events=[])
    if k and i % 4 == 1:
        # calm sea, high beach: only river and lagoon move, by little or much
        s = c['scn']
        s['weather']['wave'].update(Hs=round(r.uniform(0.1, 0.5), 3), events=[])
        s['weather']['flow'].update(base=round(r.choice((20., 60., 120., 250.)) * r.uniform(0.8, 1.2), 2))
        s['phys'].update(OT_coef=0.00005, Kcoef=0.005, ShorelineErosionRate=0.)
        k.update(crest=r.uniform(7., 9.), low=None, crest_wig=0., spit_z=None, riv_jit=round(r.choice((0.02, 0.1, 0.3, 0.6)) * r.uniform(0.7, 1.3), 4))
        if r.random() < 0.7:
            k.update(riv_jit=0., riv_saw=[[round(r.uniform(0.1, 0.8), 3), round(r.choice((0.05, 0.3, 0.8)) * r.uniform(0.7, 1.3), 3), r.choice((4, 7, 12))]])
        if r.random() < 0.75:
            k.update(kind='closed', relic=False, relic2=None, wl=round(r.uniform(-0.3, 0.5), 3))
        s['num']['MaxMorChange'] = round(10 ** r.uniform(-4.5, -1), 6)
        t['MorDtMax'] = t['MorDtMin'] * r.choice((4, 16, 30, 60))
    t['dur'] = min(t['dur'], int(t['MorDtMin'] * 150)) + r.choice((0, 0, 1, 13))
    return c


def run(case, ctx):
    D = common.dense(ctx, case['scn'])
    if D is None:
        return
    P = D.P
    e = 1e-7
    caps = 0
    n = len(D.H) - 1
    for k, st, prev, left in D.steps():
        a, b = st.a, st.b
        dt = b.t - a.t
        ctx.count('step in range')
        if abs(dt - D.ts['mordt'][k + 1]) > 1e-6 * (1 + dt):
            ctx.bad('mordt', 'step %d took %g s, recorded %g' % (k, dt, D.ts['mordt'][k + 1]))
        last = k == n - 1
        if dt > P.MorDtMax * (1 + e) or dt > left * (1 + e):
            ctx.bad('too-long', 'step %d: %g s, maximum %g, left %g' % (k, dt, P.MorDtMax, left))
        if dt < P.MorDtMin * (1 - e) and not last and left > P.MorDtMin * (1 + e):
            ctx.bad('too-short', 'step %d: %g s, minimum %g, left %g' % (k, dt, P.MorDtMin, left))
        if last and abs(dt - left) > 1e-6:
            ctx.bad('end', 'last step %g s, left %g' % (dt, left))
        if not st.agree:
            continue
        fast = []
        for w in ((None,) if not st.lost else (False, True)):
            h = st.h
            asp = st.ch.B / np.where(np.isnan(h), 1., h)
            if w is not None:
                asp[np.isnan(h)] = 1e9 if w else 0.
            asp = asp[1:] if st.ch.closed else asp[1:-1]
            for j in (0., 1e-9, -1e-9):
                with np.errstate(all='ignore'):
                    R = ref.sediment_rates(a, st.ch, P, st.bl, asp * (1 + j), b.lst, b.cst, b.ow)
                    fast.append(R.fastest)
                    what = R.what
        start = min(prev, left)
        lo, hi = min(fast), max(fast)
        if hi * start > P.MaxMorChange:
            ctx.count('limited by ' + what)
        ctx.count('need for reduction' if dt < start else 'step not reduced')
        if dt < start * (1 - e) and hi * 2 * dt < P.MaxMorChange * (1 - 1e-6) and dt > P.MorDtMin * (1 + e):
            ctx.bad('reduced', 'step %d reduced from %g to %g s though %g s would have changed at most %g m' % (k, start, dt, 2 * dt, hi * 2 * dt))
        if dt < start * (1 - e) and abs(dt - P.MorDtMin) < e and hi * start < P.MaxMorChange * (1 - 1e-6):
            ctx.bad('reduced', 'step %d reduced from %g to %g s though nothing moved by more than %g m' % (k, start, dt, hi * start))
        if lo * dt > P.MaxMorChange * (1 + 1e-6) and dt > min(P.MorDtMin, left) * (1 + e):
            ctx.bad('not-reduced', 'step %d of %g s (minimum %g) would change %g m, %g permitted' % (k, dt, P.MorDtMin, lo * dt, P.MaxMorChange))
        if hi * dt < P.MaxMorChange / 2 * (1 - 1e-6) and 2 * dt <= min(P.MorDtMax, left) * (1 - e):
            ctx.bad('no-growth', 'step %d of %g s changes only %g m, maximum step %g, left %g' % (k, dt, hi * dt, P.MorDtMax, left))
        if dt > start * (1 + e):
            ctx.count('growth')
            if lo * dt > P.MaxMorChange * (1 + 1e-6):
                ctx.bad('grown', 'step %d grown from %g to %g s, changes %g m' % (k, start, dt, lo * dt))
        capped = lo * dt > P.MaxMorChange * (1 + 1e-6)
        caps += capped
        # nothing moves further than permitted, except by the documented adjustments
        ok, d, A, r, _ = ref.check_step(st, prev, left, P)
        if set(A.did) <= {'capped'}:
            ctx.count('capped' if capped else 'within limit')
            for nm, x, y in (('position', a.Y, b.Y), ('level', a.Z, b.Z), ('river bed', a.riv, b.riv), ('outlet end', a.endx, b.endx),
                             ('outlet end width', a.endw, b.endw), ('outlet end level', a.endz, b.endz)):
                with np.errstate(invalid='ignore'):
                    mv = np.nanmax(np.abs(np.asarray(x) - np.asarray(y)))
                if mv > P.MaxMorChange * (1 + 1e-6):
                    ctx.bad('moved-too-far', 'step %d: %s moved %g m, %g permitted' % (k, nm, mv, P.MaxMorChange))
        if ctx.violations:
            return
    ctx.count('warnings')
    if D.r['log'].get('WARNING', 0) < caps:
        ctx.bad('silent-cap', '%d steps were capped, %d warnings logged' % (caps, D.r['log'].get('WARNING', 0)))
