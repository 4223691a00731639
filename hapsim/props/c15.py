"""C15: synthetic forcing."""
import math
import random

import numpy as np

from .. import engine, gen as G, scenario
from . import common
from .c03 import shift

COUNT = dict(quick=190, thorough=8000)
LEVEL = 'exploration'
RULE = ('Each case draws parameters of the synthetic river and tide and loads the model with them: twice with the same seed under different '
        'states of the global generators (also in a new interpreter), without a seed, for a longer period, and, when the record starts '
        'before the run, for another start of the run. A share runs the model and compares what was recorded with the loaded series.')
NOTE = ('the series are those loadmod.loadModel returns to the simulated process, which also saves the global generator states before and after.')

TIDE = (12 * 60 + 25.2) * 60


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C15', i)
    s = G.scenario_for(seed, 'C15-%d' % i, family=r.choice(('straight', 'straight', 'open')))
    shift(s, r.choice((0, 0, -366, 28, 59, 118, 485, 1580, 7305)))
    s['time']['start'] = s['time']['start'] + r.choice((0, 0, 60, 137, 86399))
    s['t_shift'] = s['time']['start']
    if s.get('hotstart'):
        s['hotstart']['at'] = s['craft']['t'] = s['time']['start']
    gap = r.choice((0.01, 0.05, 0.2, 1., 5., 30., 400.))
    days = min(max(gap * r.uniform(1, 12), 0.05), r.choice((2., 10., 60.)))
    s['time']['dur'] = int(days * 86400)
    f = dict(MeanDaysBetweenEvents=gap, MeanEventIncrease=r.choice((1., 50., 300.)), FastDecayRate=r.choice((0.05, 0.3, 3., 30.)),
             SlowDecayRate=r.choice((0.001, 0.015, 0.2)), FastFlowProp=r.choice((0., 0.5, 0.9, 1.)), RisingLimbTime=r.choice((0.001, 0.02, 0.25, 1.5)),
             HydrographDt=r.choice((5., 7., 15., 60., 100., 360.)), RandomSeed=r.choice((0, r.randint(-5, 10 ** 6), r.randint(-5, 10 ** 6))))
    if r.random() < 0.35:
        lead = r.choice((60, 3600, 86400, 10 * 86400))
        f['HydrographStart'] = scenario._fmt(scenario.EPOCH + scenario.dt.timedelta(seconds=s['time']['start'] - lead))
    while s['time']['dur'] / 60 / f['HydrographDt'] > 4000:
        f['HydrographDt'] *= 2
    if f['FastFlowProp'] == 1. and r.random() < 0.5:
        del f['SlowDecayRate']
    for k, v in (('FastDecayRate', 20.), ('SlowDecayRate', 20.)):
        if k in f and gap > 1:
            f[k] = min(f[k], v / gap)        # flows stay distinguishable from zero
    h = dict(MeanSeaLevel=round(r.uniform(-0.5, 0.5), 3), TidalRange=r.choice((0., 0.6, 1.8, 4.)), SeaLevelDt=r.choice((1., 7., 15., 60., 100.)))
    while s['time']['dur'] / 60 / h['SeaLevelDt'] > 20000:
        h['SeaLevelDt'] *= 2
    s['weather']['wave']['dt'] = 360
    s['synthetic'] = dict(flow=f, sea=h)
    if r.random() < 0.2:
        del s['synthetic'][r.choice(('flow', 'sea'))]
        for k in ('flow', 'sea'):
            s['weather'][k].update(dt=360, events=[])
    c = dict(scn=s, amb=[dict(np_seed=r.randint(0, 1 << 31), py_seed=r.randint(0, 1 << 31), mem=r.choice((1, 2, 3)), mem_seed=r.randint(0, 1 << 31),
                              clock=r.choice((0, 10 ** 9)), clock_step=r.choice((0, 1, 977))) for _ in range(2)],
             longer=int(s['time']['dur'] * r.choice((0.02, 0.3, 1.))) + 60 * r.randint(1, 500), fresh=i % 8 == 3, draw=r.randint(0, 50),
             later=r.choice((60, 3600, 40000)), run=i % 4 == 1)
    return c


def shrink(case):
    for f in (0.25, 0.5, 0.8):
        c = scenario.json.loads(scenario.json.dumps(case))
        c['scn']['time']['dur'] = int(case['scn']['time']['dur'] * f)
        if c['scn']['time']['dur'] > 600:
            yield c
    for k in ('fresh', 'run'):
        if case[k]:
            yield dict(case, **{k: False})


def load(ctx, s, amb, draw=0, fresh=None):
    """loadModel in a simulated process; the series and what it did to the global generators"""
    wd = ctx.dir()
    cfg = scenario.write_inputs(s, wd)

    def go():
        import logging
        engine.apply_env(dict(ambient=amb), wd)
        lg = logging.getLogger()
        lg.handlers[:] = []
        lg.setLevel(logging.CRITICAL)
        from hapuamod import loadmod
        for _ in range(draw):
            random.random()
            np.random.rand()
        b = (random.getstate(), [str(x) for x in np.random.get_state()])
        try:
            L = loadmod.loadModel(cfg)
        except Exception as e:
            return dict(status='raise', type=type(e).__name__, msg=str(e)[:300], where=engine.where(e))
        a = (random.getstate(), [str(x) for x in np.random.get_state()])
        out = dict(status='ok', touched=a != b)
        for nm, ts in (('flow', L[1]), ('sea', L[3])):
            t = (ts.index.values.astype('datetime64[ns]').astype(np.int64) - np.datetime64(scenario.EPOCH, 'ns').astype(np.int64)) / 1e9
            out[nm] = (t, np.array(ts.values, float).reshape(len(t)))
        out['kinds'] = [type(L[1]).__name__, type(L[3]).__name__]
        return out
    ctx.runs += 1
    return engine.in_child(go, wd, cpu=200)


def common_part(a, b, upto):
    """series a and b agree at the times they share before upto"""
    ta, tb = a[0], b[0]
    lo, hi = max(ta[0], tb[0]), min(ta[-1], tb[-1], upto)
    x, y = ta[(ta >= lo) & (ta <= hi)], tb[(tb >= lo) & (tb <= hi)]
    if x.size != y.size or np.any(x != y):
        return 'times differ between %r and %r' % (lo, hi)
    u, v = a[1][(ta >= lo) & (ta <= hi)], b[1][(tb >= lo) & (tb <= hi)]
    if np.any(u != v):
        j = int(np.argmax(u != v))
        return 'value at %r s: %r and %r' % (float(x[j] - lo), float(u[j]), float(v[j]))
    return None


def run(case, ctx):
    s = case['scn']
    syn = s['synthetic']
    t0, t1 = common.t_start(s), common.t_end(s)
    a = load(ctx, s, case['amb'][0], case['draw'])
    ctx.sim_s += s['time']['dur']
    if a['status'] != 'ok':
        ctx.bad('generation', '%s %s %s %s' % (a['status'], a.get('type'), a.get('where'), a.get('msg', a.get('err'))))
        return
    ctx.fire('ambient_perturbed', 2)
    ctx.count('loads')
    if a['touched']:
        ctx.bad('global state', 'loading the model changed the state of the global random generators')
    for k in syn:
        t, v = a[k]
        if np.any(np.diff(t) <= 0) or t[0] > t0 or t[-1] < t1:
            ctx.bad('coverage', '%s from %r to %r s after the start of a run of %r s' % (k, t[0] - t0, t[-1] - t0, t1 - t0))
            return
        dt = 60 * (syn['flow']['HydrographDt'] if k == 'flow' else syn['sea']['SeaLevelDt'])
        if np.max(np.diff(t)) > dt * (1 + 1e-9):
            ctx.bad('coverage', '%s has a gap of %r s, interval %r s' % (k, float(np.max(np.diff(t))), dt))
        if not np.all(np.isfinite(v)):
            ctx.bad('values', '%s not finite' % k)
            return
        ctx.count('values', v.size)
    if 'flow' in syn and np.min(a['flow'][1]) <= 0:
        ctx.bad('values', 'flow down to %r' % float(np.min(a['flow'][1])))
    if 'sea' in syn:
        h = syn['sea']
        t, v = a['sea']
        amp = h['TidalRange'] / 2
        if np.max(np.abs(v - h['MeanSeaLevel'])) > amp + 1e-9:
            ctx.bad('tide', 'from %r to %r, mean %r, range %r' % (float(v.min()), float(v.max()), h['MeanSeaLevel'], h['TidalRange']))
        # a sinusoid of the tidal period about the mean level
        w = 2 * np.pi * (t - t0) / TIDE
        A = np.stack([np.sin(w), np.cos(w)], 1)
        x = np.linalg.lstsq(A, v - h['MeanSeaLevel'], rcond=None)[0]
        if np.max(np.abs(A @ x - (v - h['MeanSeaLevel']))) > 1e-6 + 1e-6 * amp:
            ctx.bad('tide', 'not a sinusoid of 12 h 25.2 min about %r' % h['MeanSeaLevel'])
        if t.size > 20 and abs(math.hypot(*x) - amp) > 1e-6 + 1e-6 * amp:
            ctx.bad('tide', 'amplitude %r, range %r' % (math.hypot(*x), h['TidalRange']))
        ctx.count('tide')
    if ctx.violations:
        return
    # again, elsewhere
    b = load(ctx, s, case['amb'][1], 0)
    for k in syn:
        if b['status'] != 'ok' or not (common.same(a[k][0], b[k][0]) and common.same(a[k][1], b[k][1])):
            ctx.bad('not reproducible', '%s differs under other states of the global generators' % k)
            return
    ctx.count('repeated')
    # longer
    s2 = scenario.json.loads(scenario.json.dumps(s))
    s2['time']['dur'] += case['longer']
    b = load(ctx, s2, case['amb'][1], 3)
    if b['status'] != 'ok':
        ctx.bad('generation', 'longer period: %s %s' % (b['status'], b.get('msg')))
        return
    for k in syn:
        d = common_part(a[k], b[k], t1)
        ctx.count('extended')
        if d:
            ctx.bad('extension', '%s of a period %r s longer: %s' % (k, case['longer'], d))
            return
    if 'flow' in syn:
        # the same record for a run that starts later
        if 'HydrographStart' in syn['flow'] and case['later'] < s['time']['dur']:
            s3 = scenario.json.loads(scenario.json.dumps(s))
            s3['time']['start'] += case['later']
            s3['time']['dur'] -= case['later']
            if s3.get('hotstart'):
                s3['hotstart']['at'] = s3['craft']['t'] = s3['time']['start']
            b = load(ctx, s3, case['amb'][1], 1)
            if b['status'] != 'ok':
                ctx.bad('generation', 'later start: %s %s' % (b['status'], b.get('msg')))
                return
            d = common_part(a['flow'], b['flow'], t1)
            ctx.count('later start')
            if d:
                ctx.bad('not reproducible', 'flow for a run that starts %r s later: %s' % (case['later'], d))
                return
        # another seed, and none
        s4 = scenario.json.loads(scenario.json.dumps(s))
        s4['synthetic']['flow']['RandomSeed'] += 1
        b = load(ctx, s4, case['amb'][0], case['draw'])
        if b['status'] == 'ok' and common.same(a['flow'][1], b['flow'][1]) and t1 - t0 > 4 * 86400 * syn['flow']['MeanDaysBetweenEvents']:
            ctx.bad('seed', 'seeds %d and %d give the same flow' % (syn['flow']['RandomSeed'], s4['synthetic']['flow']['RandomSeed']))
            return
        del s4['synthetic']['flow']['RandomSeed']
        x, y = load(ctx, s4, case['amb'][0], case['draw']), load(ctx, s4, case['amb'][0], case['draw'])
        if x['status'] == 'ok' and y['status'] == 'ok':
            ctx.count('unseeded')
            if x['touched']:
                ctx.bad('global state', 'drawing without a seed changed the state of the global random generators')
            # with few events in the period the series could coincide by chance (no event at all)
            if common.same(x['flow'][1], y['flow'][1]) and t1 - t0 > 30 * 86400 * syn['flow']['MeanDaysBetweenEvents']:
                ctx.bad('seed', 'two runs without a seed have the same flow')
            if common.same(x['flow'][1], y['flow'][1]) and np.ptp(x['flow'][1]) > 0 and np.any(np.diff(x['flow'][1]) > 0):
                ctx.bad('seed', 'two runs without a seed have the same flow')
        else:
            ctx.bad('generation', 'without a seed: %s %s' % (x.get('msg'), y.get('msg')))
    if ctx.violations:
        return
    if case['fresh']:
        wd = ctx.dir()
        s5 = scenario.json.loads(scenario.json.dumps(s))
        short(s5)
        # same record, other interpreter: compared through what a short run records
        q0 = ctx.sim(s5, dict(ambient=case['amb'][0]))
        q1 = engine.simulate_fresh(s5, dict(ambient=case['amb'][1]), wd, 12345 + case['draw'])
        ctx.note(s5, q1)
        ctx.fire('fresh_interpreter')
        if q0['status'] == q1['status'] == 'ok':
            x, y = ctx.rows(q0, s5), engine.read_rows(wd + '/out.nc')
            for v in ('river_flow', 'sea_level'):
                if not common.same(x[v], y[v]):
                    ctx.bad('not reproducible', '%s differs in another interpreter' % v)
            ctx.count('other interpreter')
        elif q1['status'] == 'died':
            common.died(ctx, q1, 'generation')
    if case['run']:
        s5 = scenario.json.loads(scenario.json.dumps(s))
        short(s5)
        q = ctx.sim(s5, dict(ambient=case['amb'][0]))
        if q['status'] != 'ok':
            return                       # extreme flows may be beyond the model; C01 looks after completion
        m = ctx.rows(q, s5)
        ctx.sim_s += s5['time']['dur']
        b = load(ctx, s5, case['amb'][1], 2)
        tm = common.abstime(m)
        for k, v in (('flow', 'river_flow'), ('sea', 'sea_level')):
            if k in syn:
                want = np.interp(tm, *b[k])
                ctx.count('recorded', tm.size)
                if np.any(np.abs(m[v] - want) > 1e-6 * (1 + np.abs(want))):
                    j = int(np.argmax(np.abs(m[v] - want)))
                    ctx.bad('not used', 'record %d at %r: %s %r, generated series %r' % (j, float(tm[j]), v, float(m[v][j]), float(want[j])))
                    return


def short(s):
    t = s['time']
    t['MorDtMax'] = t['MorDtMin']
    t['dur'] = int(t['MorDtMin']) * 8
    common.densify(s)
