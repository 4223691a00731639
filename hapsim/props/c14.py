"""C14: observation does not disturb."""
import numpy as np

from .. import engine, gen as G, scenario
from . import common
from .c02 import interval

COUNT = dict(quick=110, thorough=3000)
LEVEL = 'exploration'
RULE = ('Each case runs a generated history as the reference (every step recorded, nothing else) and under 3 drawn sets of observation '
        'settings: output intervals, live plots (drawn off screen), log interval, debug messages, readers copying the files at drawn '
        'solver calls. Some inject failing solves.')
NOTE = ('plots go to the off-screen backend; records of the same time are compared bit for bit.')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C14', i)
    c = common.mixed(seed, 'C14', i, share=0.75, steps=(6, 20), hours=(0.3, 0.6) if tier == 'quick' else (0.6, 2.5), solver=0.25)
    s = c['scn']
    s['out']['LogInt'] = 1e6
    t = s['time']
    c['variants'] = []
    for k in range(3):
        v = dict(OutInt=interval(r, t), TsOutInt=interval(r, t), LogInt=r.choice((1e6, 1e6, 0.5, t['MorDtMin'], 300.)))
        if r.random() < 0.3:
            v.update(OutInt=common.FAR)
        v['PlotInt'] = 0. if k and r.random() < 0.75 else max(t['dur'] / r.choice((1., 2., 4.)), t['MorDtMin'] * r.choice((1, 2.5)))
        v['debug'] = r.random() < 0.5
        v['snaps'] = sorted(r.randint(1, 200) for _ in range(r.choice((0, 3, 10))))
        if r.random() < 0.3:
            v['OutFile'], v['TsOutFile'] = 'other.nc', 'sub.ts.nc'
        c['variants'].append(v)
    return c


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s, dict(solver=case.get('solver', [])))
    if D is None:
        return
    tm = {float(t): k for k, t in enumerate(D.m['time'])}
    for v in case['variants']:
        s2 = scenario.json.loads(scenario.json.dumps(s))
        s2['out'].update({k: v[k] for k in v if k in ('OutInt', 'TsOutInt', 'LogInt', 'PlotInt', 'OutFile', 'TsOutFile')})
        r = ctx.sim(s2, dict(solver=case.get('solver', []), debug=v['debug'], snaps=v['snaps']), cpu=300)
        if v['PlotInt']:
            ctx.fire('plotting')
        if v['debug']:
            ctx.fire('debug_messages')
        ctx.sim_s += s['time']['dur']
        what = {k: v[k] for k in ('OutInt', 'TsOutInt', 'LogInt', 'PlotInt', 'debug')}
        if r['status'] != 'ok':
            common.died(ctx, r, 'observed run')
            ctx.violations[-1]['detail'] += ' %s' % what
            return
        for f, vs, base in (('OutFile', common.MAINV, D.m), ('TsOutFile', common.TSV, D.ts)):
            o = ctx.rows(r, s2, f)
            for j in range(o['time'].size):
                k = tm.get(float(o['time'][j]))
                if k is None:
                    ctx.bad('disturbed', '%s: %s has a record at a time the run does not step on' % (what, f))
                    return
                d = common.diff_rows(o, j, base, k, vs)
                ctx.count('records')
                if d:
                    ctx.bad('disturbed', '%s: %s record %d (step %d): %s' % (what, f, j, k, d))
                    return
            if o['time'].size < 1 or r['solves'] != D.r['solves']:
                ctx.bad('disturbed', '%s: %d linear solves, %d in the undisturbed run' % (what, r['solves'], D.r['solves']))
                return
