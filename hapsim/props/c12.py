"""C12: opening and closing."""
import numpy as np

from .. import gen as G, ref, scenario
from . import common

COUNT = dict(quick=200, thorough=9000)
LEVEL = 'exploration'
RULE = ('Four fifths of the cases are dense runs that start close to an opening or closure (thin or low barrier, narrow channel, end or lagoon, '
        'relic channels, split lagoons, either side); one fifth fill a closed lagoon with steady inflow until it has to breach.')
NOTE = ('every step is judged by an independent reference of the closure and breach rules; liveness as breach within the time needed '
        'to fill the lagoon')

KINDS = ('closelst', 'closeow', 'pinch', 'river', 'spill', 'spill', 'erode', 'erode', 'relic', 'relic', 'fill', 'truncsea', 'elong',
         'trunccliff', 'shiftfirst', 'edge', 'trunclag', 'merge')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C12', i)
    if r.random() < 0.2:
        return fillcase(seed, i, r)
    if r.random() < 0.15:
        s = G.scenario_for(seed, 'C12-%d' % i, r.choice(('closed', 'closed', 'open', 'shape')), hours=(0.7, 1.5))
    else:
        s = G.directed(seed, 'C12-%d' % i, r.choice(KINDS), steps=(8, 40) if tier == 'quick' else (20, 150))
    c = dict(kind='dense', scn=common.densify(s))
    if r.random() < 0.2:
        est = int(s['time']['dur'] / s['time']['HydDt'] * 3) + 2
        c['solver'] = [dict(at=r.randint(1, est), len=r.choice((1, 2, 5)), kind=r.choice(('singular', 'nan', 'value')))
                       for _ in range(r.choice((1, 2, 4)))]
    return c


def fillcase(seed, i, r):
    s = scenario.base()
    s['family'] = 'filling'
    G.numbers(r, s)
    s['time']['start'] = 86400 * r.randint(0, 20)
    s['t_shift'] = s['time']['start']
    G.craft_state(r, s, 'closed')
    c = s['craft']
    c.update(shore_wig=0., lag_wig=0., crest_wig=r.choice((0., 0.3)), crest=r.uniform(1.6, 2.6), relic=r.random() < 0.5,
             nan_end=r.random() < 0.5, wl=r.uniform(0.2, 0.8), lagwidth=r.choice((20., 30.)), us=r.randint(0, 3))
    c['low'] = [r.randint(-2, 2), r.uniform(1.2, 1.6)] if r.random() < .6 else None
    if r.random() < 0.4:
        c['pinch'] = [r.choice((-2, -1, 1, 2)), 0.5 * s['phys']['MinOutletWidth']]
    s['phys'].update(BarrierPermeability=0., OT_coef=0., Kcoef=0.005)
    s['num']['MaxMorChange'] = 0.1
    q = s['weather']
    q['flow'].update(base=round(r.uniform(8., 18.), 2), events=[])
    q['sea'].update(mean=-0.5, range=r.choice((0., 0.5)), events=[])
    q['wave'].update(Hs=0.5, events=[], swing=0., dir=round(r.uniform(-5, 5), 2))
    s['time'].update(HydDt=20., MorDtMin=40., MorDtMax=120.)
    D = s['num']['Dx']
    n = c['lag_l'] + c['lag_r'] + 1
    vol = (n * D * c['lagwidth'] + s['phys']['RiverWidth'] * s['phys']['UpstreamLength']) * (c['crest'] + c['crest_wig'] - c['wl'] + 0.5)
    t = vol / q['flow']['base']
    s['time']['dur'] = int(t * 1.3 + 1200) // 120 * 120
    return dict(kind='fill', scn=common.densify(s))


def run(case, ctx):
    if case['kind'] == 'fill':
        return fill(case, ctx)
    D = common.dense(ctx, case['scn'], dict(solver=case.get('solver', [])))
    if D is None:
        return
    for k, st, prev, left in D.steps():
        a, b, c = st.a, st.b, st.ch
        ctx.count('closure')
        if st.closed != c.closed or not st.agree:
            # exact ties may go either way
            alt = [ref.assemble(a, D.P, ref.Tie(m)) for m in (1, 2)]
            if any(x.closed == st.closed and st.rec_online == set(x.online) and st.rec_out == set(x.outix) for x in alt):
                continue
            ctx.bad('closure' if st.closed != c.closed else 'waterway',
                    'step %d (t=%g): water %s, online lagoon %s, channel %s; the recorded coast is %s%s with lagoon %s, channel %s' % (
                        k, a.t, 'closed' if st.closed else 'open', sorted(st.rec_online), sorted(st.rec_out),
                        'closed' if c.closed else 'open', ' (%s)' % c.why if c.why else '', sorted(c.online), sorted(c.outix)))
            return
        for w, _ in c.why:
            ctx.count('closed by ' + w)
            ctx.probe('closed by ' + w)
        ok, d, A, r, dt = ref.check_step(st, prev, left, D.P)
        what = [x for x in set(A.did) if 'breach' in x or 'spill' in x or x in ('relic cut off',)]
        for x in what:
            ctx.probe(x)
            ctx.count(x)
        if not what:
            ctx.count('no opening')
        if ok:
            continue
        flag = A.closed != b.closed
        # where a breach happened, or was due
        opened = bool(b.endx[0] == b.endx[1])
        if flag or (A.breach is not None or opened) and any(
                w == 'outlet_end_x' or (j == A.breach and w in ('outlet_bank1_y', 'outlet_bank2_y', 'outlet_bed_z', 'inner_barrier_crest_z'))
                or w == 'outlet_end_width' for w, j, _, _ in d):
            from .c09 import again, show
            ok2, d2, A2 = again(st, prev, left, D.P)
            if ok2:
                continue
            ctx.bad('breach', 'step %d (t=%g): recorded %s with outlet at %s; expected %s%s: %s' % (
                k, a.t, 'closed' if b.closed else 'open', b.endx.tolist(), 'closed' if A2.closed else 'open',
                ' with a %s at X=%g' % ([x for x in A2.did if 'breach' in x], a.X[A2.breach]) if A2.breach is not None else '', show(d2)))
            return
        if any(w == 'outlet_end_x' and np.isnan(p) != np.isnan(q) for w, j, p, q in d):
            ctx.bad('relic', 'step %d: connection of the relic channel %s, expected %s' % (k, b.endx.tolist(), A.endx.tolist()))
            return


def fill(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s)
    if D is None:
        return
    H, P = D.H, D.P
    ctx.count('liveness')
    # stored volume below the highest crest the water can reach, over the inflow
    a = H[0]
    if not a.closed:
        return
    x0 = int(np.argmin(np.abs(a.X)))
    W = np.maximum(a.Y[:, 3] - a.Y[:, 4], 0)
    top = np.nanmax(np.fmax(a.Z[:, 0], a.Z[:, 2])[W > 0])
    low = min(np.nanmin(a.lag_wl[W > 0]), np.nanmin(a.riv_wl))
    area = np.sum(W) * P.Dx + P.RiverWidth * P.Dx * (a.riv.size + 1)
    # part of the river above the lagoon level holds the depth of the flow as well
    q = min(h.flow for h in H)
    T = area * (top - low + 0.5) / q * 1.15 + 6 * P.MorDtMax
    opened = [k for k, h in enumerate(H) if not h.closed]
    if not opened:
        if H[-1].t - a.t > T:
            ctx.bad('no-breach', 'closed for %g s with inflow of %g m3/s, lagoon at %s; %g s suffice to fill it to %g m' % (
                H[-1].t - a.t, q, H[-1].lag_wl[x0], T, top))
        else:
            ctx.probe('run shorter than the bound')
        return
    k = opened[0]
    if H[k].t - a.t > T:
        ctx.bad('late-breach', 'breached after %g s, %g s suffice' % (H[k].t - a.t, T))
    # it is only breached for a reason: water above a crest, or a barrier gone
    lvl = np.nanmax(H[k].lag_wl)
    ctx.count('cause')
    lowest = np.nanmin(np.fmax(H[k - 1].Z[:, 0], np.nan_to_num(H[k - 1].Z[:, 2], nan=-99.)))
    if lvl < min(lowest, np.nanmin(H[k - 1].Z[:, 0])) - 0.3 and np.all(H[k].Y[:, 0] > H[k].Y[:, 3]):
        ctx.bad('cause', 'breached with water at %g m and crests above %g m' % (lvl, lowest))
    # and then drains
    later = [h for h in H[k + 1:] if h.t > H[k].t + 600]
    if later and not any(h.closed for h in H[k:]):
        ctx.count('drains')
        # how far the level falls depends on how wide the flow can make the outlet: the flow through it must at least be there
        out = np.mean([D.ts['lagoon_outflow'][h.k] for h in later])
        if np.nanmin([h.lag_wl[x0] for h in H[k + 1:]]) > lvl - 0.05 and out < 0.5 * q:
            ctx.bad('not-drained', 'lagoon at %g m and outflow of %g m3/s %g s after the breach at %g m' % (
                later[-1].lag_wl[x0], out, later[-1].t - H[k].t, lvl))
