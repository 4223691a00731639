"""C04: durability of records and honesty about write errors."""
import os

import numpy as np

from .. import engine, gen as G, scenario
from . import common

COUNT = dict(quick=150, thorough=4000)
LEVEL = 'exploration'
RULE = ('Each case runs a short generated history undisturbed, then again with its files copied off the disk at drawn solver calls (what a '
        'reader sees and a killed process leaves), killed at a solver call, and with 4 disk faults (full, broken, over quota or short '
        'write, once or from then on; torn write and death) at drawn write operations of drawn records of either file.')
NOTE = ('Process death, not power loss: what the kernel has accepted survives. Which records must be on disk is counted by the '
        'converged steps of the water solver, independent of how files are handled.')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C04', i)
    if r.random() < 0.7:
        s = G.directed(seed, 'C04-%d' % i, adaptive=False)
    else:
        s = G.scenario_for(seed, 'C04-%d' % i, adaptive=False)
    t = s['time']
    n = r.randint(4, 9)
    t['MorDtMin'] = t['MorDtMax'] = t['HydDt']
    t['dur'] = int(n * t['HydDt'])
    s['num']['ErrTol'] = 1e-5
    s['num']['MaxIt'] = 80
    common.densify(s)
    f = []
    for _ in range(4):
        f.append(dict(file=r.choice(('out.nc', 'ts.nc', None)), nth=r.choice((1, 2, 3, r.randint(2, n))),
                      kind=r.choice(('ENOSPC', 'EIO', 'EDQUOT', 'short', 'torn', 'crash')),
                      op=r.choice((1, r.randint(1, 6), r.randint(1, 30), r.randint(1, 120))), sticky=int(r.random() < 0.5)))
    return dict(scn=s, faults=f, at=[r.random() for _ in range(4)])


def prefix(ctx, path, base, vs, want, what):
    """the file holds exactly the first `want` records of base"""
    try:
        o = engine.read_rows(path)
    except Exception as e:
        ctx.bad('unreadable', '%s: %s: %s' % (what, type(e).__name__, e))
        return False
    if o['time'].size != want:
        ctx.bad('records lost', '%s: %d records, %d were written before' % (what, o['time'].size, want))
        return False
    for k in range(want):
        d = common.diff_rows(o, k, base, k, vs + ('time',))
        if d:
            ctx.bad('record altered', '%s: record %d: %s' % (what, k, d))
            return False
    a = [k for k in base['_attrs'] if k != 'ModelStartTime' and o['_attrs'].get(k) != base['_attrs'][k]]
    if a or o['_units'] != base['_units']:
        ctx.bad('record altered', '%s: attributes %s' % (what, a[:4]))
        return False
    return True


def run(case, ctx):
    s = case['scn']
    tol = s['num']['ErrTol']
    r = ctx.sim(s, dict(hires=False, conv_tol=tol))
    if common.died(ctx, r, 'completion'):
        return
    base = {'out': ctx.rows(r, s), 'ts': ctx.rows(r, s, 'TsOutFile')}
    vs = {'out': common.MAINV, 'ts': common.TSV}
    if not common.wellformed(ctx, base['out'], base['ts']):
        return
    n = base['out']['time'].size
    ctx.sim_s += s['time']['dur'] * (len(case['faults']) + 3)
    conv = r['conv']
    steady = len(conv) == n - 1 == base['ts']['time'].size - 1 and conv[-1] == r['solves']
    if steady:
        done = lambda k: 1 + sum(1 for c in conv if c < k)      # records on disk before solve k
        at = sorted({1 + int(x * r['solves']) for x in case['at']} | {c + 1 for c in conv[:-1]})
        q = ctx.sim(s, dict(hires=False, snaps=at))
        if common.died(ctx, q, 'completion'):
            return
        for k in at:
            for f in ('out', 'ts'):
                ctx.count('reader')
                if not prefix(ctx, q['wd'] + '/.snap.%d.%s' % (k, f), base[f], vs[f], done(k), '%s.nc seen before solve %d' % (f, k)):
                    return
        k = at[int(case['at'][0] * len(at))]
        q = ctx.sim(s, dict(hires=False, crash_solve=k))
        if q['status'] != 'crash':
            ctx.bad('crash', 'not reached: %s' % q['status'])
            return
        for f in ('out', 'ts'):
            ctx.count('killed between records')
            if not prefix(ctx, '%s/%s.nc' % (q['wd'], f), base[f], vs[f], done(k), '%s.nc after the process was killed before solve %d' % (f, k)):
                return
    else:
        ctx.probe('steps not countable')
    for d in case['faults']:
        q = ctx.sim(s, dict(hires=False, disk=d))
        what = '%s %s at operation %d of write %d%s' % (d['kind'], d['file'] or 'any file', d['op'], d['nth'], ' and after' if d['sticky'] else '')
        ctx.count('disk fault')
        hit = q['status'] in ('crash', 'died', 'raise') or q['stats'][3] > 0
        if hit:
            ctx.fire('disk_' + d['kind'])
        if q['status'] == 'ok':
            # success may only be reported when nothing is missing
            for f in ('out', 'ts'):
                if not prefix(ctx, '%s/%s.nc' % (q['wd'], f), base[f], vs[f], n, '%s.nc of a run that ended normally, %s' % (f, what)):
                    return
            if hit:
                ctx.count('recovered')
            continue
        if q['status'] in ('hang', 'budget'):
            ctx.bad('error', '%s: %s' % (what, q['status']))
            return
        if q['status'] == 'raise' and q['stats'][3] == 0:
            ctx.bad('error', 'run failed although nothing was injected: %s %s' % (q.get('type'), q.get('msg')))
            return
        ctx.count('reported')
        # only the file that was being written may be damaged
        opened = {e[1] for e in q['events'] if e[0] == 'open' and e[2] != 'r'}
        if 'ts.nc' not in opened and q['status'] != 'died':
            continue
        if q['status'] == 'died' and not os.path.exists(q['wd'] + '/ts.nc'):
            continue
        ctx.count('other file')
        least = [] if q['status'] != 'raise' else [e[1] for e in q['events'] if e[0] == 'close' and e[2] == 'a']
        good = 0
        for f in ('out', 'ts'):
            try:
                o = engine.read_rows('%s/%s.nc' % (q['wd'], f))
                k = o['time'].size
                good += k >= least.count(f + '.nc') and k <= n and all(
                    common.diff_rows(o, j, base[f], j, vs[f] + ('time',)) is None for j in range(k))
            except Exception:
                pass
        if not good:
            ctx.bad('both files damaged', what)
            return
