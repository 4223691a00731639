"""C02: output schedule of the two result files."""
import numpy as np

from .. import gen as G, scenario
from . import common

COUNT = dict(quick=170, thorough=6000)
LEVEL = 'exploration'
RULE = ('Each case runs one generated history twice: recording every step in both files, and with two drawn output intervals '
        '(shorter than, equal to, longer than and incommensurable with the step, longer than the run, fractions of a second), some '
        'with failing linear solves.')
NOTE = ('step times are taken from the densely recorded twin.')


def interval(r, t):
    d = t['dur']
    return r.choice((t['MorDtMin'], t['MorDtMin'] * r.randint(2, 5), t['MorDtMin'] * r.uniform(0.2, 4.), t['MorDtMax'] * r.uniform(0.6, 2.5),
                     t['HydDt'], t['HydDt'] / 3, round(t['MorDtMin'] * r.uniform(1, 4), 1) + 0.5, float(d), d / 2., d + 100., d * 3.,
                     r.choice((60., 300., 900.)), float(r.randint(7, 400))))


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C02', i)
    c = common.mixed(seed, 'C02', i, share=0.6, steps=(10, 40), hours=(0.4, 1.2) if tier == 'quick' else (1, 4), solver=0.2)
    t = c['scn']['time']
    t['start'] += r.choice((0, 0, 1, 17)) if c['scn']['family'] in ('straight', 'shape') else 0
    t['dur'] += r.choice((0, 0, 1, 13))
    if r.random() < 0.6:
        t['MorDtMax'] = t['MorDtMin'] * r.choice((2, 3, 8))
        c['scn']['num']['MaxMorChange'] = r.choice((0.05, 0.2, 0.5))
    c['sched'] = [interval(r, t), interval(r, t)]
    return c


def due(times, every):
    """Index of each record: the first step not before the due time that has no record yet."""
    out = [0]
    nxt = times[0] + every
    for k in range(1, len(times)):
        if times[k] >= nxt - 1e-7:
            out.append(k)
            nxt += every
    return out


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s, dict(solver=case.get('solver', [])))
    if D is None:
        return
    times = D.m['time']
    if np.any(np.diff(times) <= 0):
        ctx.bad('order', 'times do not increase')
        return
    if not np.array_equal(times, D.ts['time']):
        ctx.bad('schedule', 'the two files of a densely recorded run disagree about the steps')
        return
    if abs(D.m['time'][0] + common.units_epoch(D.m) - s['time']['start']) > 1e-6:
        ctx.bad('start', 'first record at %r' % float(times[0]))
    step = np.diff(times)
    if not np.allclose(step, D.ts['mordt'][1:], rtol=0, atol=1e-6):
        k = int(np.argmax(np.abs(step - D.ts['mordt'][1:])))
        ctx.bad('step length', 'records %d and %d are %r s apart, step recorded as %r' % (k, k + 1, float(step[k]), float(D.ts['mordt'][k + 1])))
    s2 = scenario.json.loads(scenario.json.dumps(s))
    s2['out'].update(OutInt=case['sched'][0], TsOutInt=case['sched'][1])
    r = ctx.sim(s2, dict(solver=case.get('solver', [])))
    if common.died(ctx, r, 'completion'):
        return
    ctx.sim_s += times[-1] - times[0]
    for which, vs, dense, every in (('OutFile', common.MAINV, D.m, case['sched'][0]), ('TsOutFile', common.TSV, D.ts, case['sched'][1])):
        o = ctx.rows(r, s2, which)
        if not common.wellformed(ctx, o if which == 'OutFile' else None, o if which == 'TsOutFile' else None):
            return
        want = due(times, every)
        ctx.count('records', len(want))
        if len(want) == 1:
            ctx.probe('only the first record')
        elif len(want) < len(times):
            ctx.probe('some steps without record')
        got = o['time']
        if np.any(np.diff(got) <= 0):
            ctx.bad('order', '%s: times %s' % (which, got[:20].tolist()))
        w = times[want]
        if got.size != w.size or np.any(got != w):
            j = next((j for j in range(min(got.size, w.size)) if got[j] != w[j]), min(got.size, w.size))
            ctx.bad('schedule', '%s every %g s: record %d of %d at %s, expected %s of %d' % (
                which, every, j, got.size, got[j] - times[0] if j < got.size else None, w[j] - times[0] if j < w.size else None, w.size))
            continue
        ctx.count('contents', len(want))
        for j, k in enumerate(want):
            d = common.diff_rows(o, j, dense, k, vs)
            if d:
                ctx.bad('contents', '%s record %d (step %d): %s' % (which, j, k, d))
                break
