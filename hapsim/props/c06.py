"""C06: independence of the environment and of other runs."""
import numpy as np

from .. import engine, gen as G, scenario
from . import common

COUNT = dict(quick=130, thorough=3600)
LEVEL = 'exploration'
RULE = ('Each case runs a generated history once as the reference and again: with another wall clock (running backwards or jumping), other '
        'states of the global random number generators and other contents of uninitialised memory; after other runs in the same process; '
        'interleaved with 1-2 other runs by a seeded scheduler that switches at solver calls and file operations; in an interpreter '
        'with another hash seed, time zone and locale. Half inject singular matrices.')
NOTE = ('all comparisons are bit for bit, except the creation stamp.')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C06', i)
    kind = ('ambient', 'ambient', 'inter', 'inter', 'seq', 'fresh')[i % 6]
    c = common.mixed(seed, 'C06', i, share=0.6, steps=(5, 18), hours=(0.3, 0.6) if tier == 'quick' else (0.6, 3), solver=0.5)
    c['kind'] = kind
    s = c['scn']
    if r.random() < 0.3:
        syn(r, s)
    if kind in ('inter', 'seq'):
        c['others'] = []
        for k in range(r.choice((1, 1, 2))):
            o = common.mixed(seed, 'C06o%d' % k, i, share=0.6, steps=(5, 15), hours=(0.3, 0.6), solver=0.3)
            if r.random() < 0.3:
                o['scn'] = scenario.json.loads(scenario.json.dumps(s))     # the same model twice
                if r.random() < 0.5:
                    o['scn']['phys']['Kcoef'] *= 2
            c['others'].append(o)
        c['sched'] = dict(seed=r.randint(0, 1 << 30), every=r.choice((1, 1, 2, 5, 17)))
    c['ambient'] = dict(np_seed=r.randint(0, 1 << 31), py_seed=r.randint(0, 1 << 31), mem=r.choice((0, 1, 2, 3)), mem_seed=r.randint(0, 1 << 31),
                        clock=r.choice((-10 ** 9, 0, 10 ** 6, 10 ** 9)), clock_step=r.choice((0, 1, -1, 3600, -100000)))
    c['hash'] = r.randint(1, 4 * 10 ** 9)
    c['extra'] = dict(TZ=r.choice(('Pacific/Auckland', 'America/New_York', 'UTC')), LC_ALL=r.choice(('C', 'C.UTF-8')))
    return c


def syn(r, s):
    """synthetic river and tide"""
    s['synthetic'] = dict(flow=dict(MeanDaysBetweenEvents=r.choice((0.05, 1., 10.)), MeanEventIncrease=r.choice((10., 50.)), FastDecayRate=r.choice((0.3, 3.)),
                                    SlowDecayRate=0.015, FastFlowProp=0.9, RisingLimbTime=r.choice((0.5, 6.)), HydrographDt=r.choice((15., 60.)),
                                    RandomSeed=r.randint(0, 999)),
                          sea=dict(MeanSeaLevel=0.1, TidalRange=1.2, SeaLevelDt=15.))


def rename(s, k):
    s = scenario.json.loads(scenario.json.dumps(s))
    s['out'].update(OutFile='out%s.nc' % k, TsOutFile='ts%s.nc' % k)
    return s


def compare(ctx, a, b, what):
    for f, vs in ((0, common.MAINV), (1, common.TSV)):
        x, y = a[f], b[f]
        if x['time'].size != y['time'].size:
            ctx.bad('different', '%s: %d and %d records' % (what, x['time'].size, y['time'].size))
            return False
        for k in range(x['time'].size):
            d = common.diff_rows(x, k, y, k, vs + ('time',))
            ctx.count('records')
            if d:
                ctx.bad('different', '%s: %s record %d: %s' % (what, ('main', 'time series')[f], k, d))
                return False
        at = [n for n in x['_attrs'] if n != 'ModelStartTime' and x['_attrs'][n] != y['_attrs'].get(n)]
        if at or x['_units'] != y['_units']:
            ctx.bad('different', '%s: attributes %s' % (what, at))
            return False
    return True


def both(ctx, wd, s):
    return [engine.read_rows('%s/%s' % (wd, s['out'][f])) for f in ('OutFile', 'TsOutFile')]


def same_end(ctx, r, q, what):
    if (r['status'], r.get('type')) != (q['status'], q.get('type')):
        ctx.bad('different', '%s: ended with %s %s, before with %s %s' % (what, q['status'], q.get('type') or q.get('err', '')[-200:], r['status'], r.get('type')))
        return False
    return True


def run(case, ctx):
    s = case['scn']
    fault = dict(solver=case.get('solver', []))
    r = ctx.sim(s, fault)
    if common.died(ctx, r, 'completion'):
        return
    ref = both(ctx, r['wd'], s)
    span = ref[0]['time'][-1] - ref[0]['time'][0]
    ctx.sim_s += 2 * span
    kind = case['kind']
    if kind == 'ambient':
        q = ctx.sim(s, dict(fault, ambient=case['ambient']))
        ctx.fire('ambient_perturbed')
        if same_end(ctx, r, q, 'other environment'):
            compare(ctx, ref, both(ctx, q['wd'], s), 'other environment %s' % case['ambient'])
        return
    if kind == 'fresh':
        wd = ctx.dir()
        q = engine.simulate_fresh(s, dict(fault, ambient=case['ambient']), wd, case['hash'], case['extra'])
        ctx.note(s, q)
        ctx.fire('fresh_interpreter')
        if same_end(ctx, r, q, 'other interpreter'):
            compare(ctx, ref, both(ctx, wd, s), 'hash seed %d, %s' % (case['hash'], case['extra']))
        return
    # several models in one process
    wd = ctx.dir()
    jobs, refs = [], {}
    import os
    for k, c in enumerate([case] + case['others']):
        ident = 'ABC'[k]
        s2 = rename(c['scn'], ident)
        d = os.path.join(wd, 'in' + ident)
        os.makedirs(d)
        cfg = scenario.write_inputs(s2, d)
        jobs.append((ident, cfg, dict(solver=c.get('solver', []))))
        if k == 0:
            refs[ident] = (s2, r, ref)
        else:
            w = ctx.dir()
            q = ctx.sim(c['scn'], dict(solver=c.get('solver', [])), wd=w)
            if common.died(ctx, q, 'completion'):
                return
            refs[ident] = (s2, q, both(ctx, w, c['scn']))
            ctx.sim_s += 2 * s2['time']['dur']
    if kind == 'seq':
        jobs = jobs[1:] + jobs[:1] if case['sched']['seed'] % 2 else jobs + [jobs[0]][:0]
    q = engine.simulate_many(jobs, wd, case['sched'] if kind == 'inter' else None)
    if q['status'] != 'ok':
        ctx.bad('different', 'several runs in one process: %s %s' % (q['status'], q.get('err', '')[-300:]))
        return
    ctx.runs += len(jobs)
    ctx.probe('switches', q['switches'])
    ctx.fire('interleaved' if kind == 'inter' else 'same_process', len(jobs))
    for ident, (s2, r0, ref0) in refs.items():
        what = 'run %s of %d %s' % (ident, len(jobs), 'interleaved' if kind == 'inter' else 'in sequence')
        if not same_end(ctx, r0, q['runs'][ident], what):
            ctx.violations[-1]['detail'] += ' ' + str(q['runs'][ident].get('msg'))[:150] + ' ' + str(q['runs'][ident].get('where'))
            return
        if not compare(ctx, ref0, both(ctx, wd, s2), what):
            return
