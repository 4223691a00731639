"""C09: sediment exchange of every step against the reference model."""
from .. import ref
from . import common

COUNT = dict(quick=240, thorough=12000)
LEVEL = 'exploration'
RULE = ('Each case is one dense run; three quarters start right before an adjustment is due (elongation, truncation, filling, merging, '
        'cliff contact, relic channels, breach), a fifth inject failing solves.')
NOTE = ('every recorded step is recomputed by an independent reference model from the recorded state, water and rates, and compared '
        'with the next record')


def gen(seed, i, tier):
    return common.mixed(seed, 'C09', i, solver=0.2, hours=(0.7, 1.5) if tier == 'quick' else (1, 6),
                        steps=(8, 30) if tier == 'quick' else (10, 90))


def run(case, ctx):
    D = common.dense(ctx, case['scn'], dict(solver=case.get('solver', [])))
    if D is None:
        return
    for k, st, prev, left in D.steps():
        if not st.agree:
            ctx.probe('step not comparable')
            continue
        ok, d, A, r, dt = ref.check_step(st, prev, left, D.P)
        ctx.count('step')
        for x in set(A.did):
            ctx.probe('rule ' + x)
            ctx.count('rule ' + x)
        if not ok:
            # leave the length of the step and the opening decision to C11 and C12
            if any(w in ('timestep', 'outlet_closed') for w, *_ in d) and dt > 0:
                ok2, d2, A2 = again(st, prev, left, D.P)
                if ok2:
                    continue
                d, A = [x for x in d2 if x[0] != 'outlet_closed'], A2
                if not d:
                    continue
            ctx.bad('sediment', 'step %d (t=%g): %s; rules %s' % (k, st.a.t, show(d), sorted(set(A.did))))
            return


def again(st, prev, left, P):
    """the same step with the recorded length imposed"""
    class Q:
        pass
    q = Q()
    q.__dict__.update(P.__dict__)
    dt = st.b.t - st.a.t
    q.MorDtMin = q.MorDtMax = dt
    ok, d, A, r, _ = ref.check_step(st, dt, dt, q)
    return ok, d, A


def show(d):
    return '; '.join('%s[%s] should be %.9g, is %.9g' % x for x in (d or [])[:5])
