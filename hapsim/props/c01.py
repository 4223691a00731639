"""C01: completion and liveness under weather and solver faults."""
import numpy as np

from .. import gen as G, scenario
from . import common

COUNT = dict(quick=110, thorough=3000)
LEVEL = 'exploration'
RULE = ('Each case is one simulated run of a generated coast, weather and configuration; two thirds also inject 1-8 bursts of '
        'failing linear solves (singular, ValueError, MemoryError, NaN, inexact, overshooting).')

KINDS = ('singular', 'singular', 'value', 'memory', 'nan', 'allnan', 'kick', 'overshoot')


def faults(r, est):
    out = []
    for _ in range(r.choice((1, 1, 2, 4, 8))):
        k = r.choice(KINDS)
        at = r.choice((1, 2, r.randint(1, max(2, est // 10)), r.randint(1, est), r.randint(1, est)))
        ln = r.choice((1, 1, 2, 3, 12, 40))
        f = dict(at=at, len=ln, kind=k)
        if k == 'kick':
            f['amp'] = r.choice((0.01, 0.2, -0.5))
        if k == 'overshoot':
            f['amp'] = r.choice((0.5, 3., -1.))
        if k == 'nan':
            f['idx'] = r.randint(0, 200)
        out.append(f)
    return out


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C01', i)
    s = G.scenario_for(seed, 'C01-%d' % i, fast=True, hours=(1, 4) if tier == 'quick' else (2, 12))
    s['out'].update(OutInt=r.choice((900., 1800.)), TsOutInt=1.)
    # end times that are not whole numbers of steps
    if r.random() < 0.4:
        s['time']['dur'] += r.choice((1, 7, 13, 59, 61))
    solver = faults(r, int(s['time']['dur'] / s['time']['HydDt'] * 3) + 2) if r.random() < 0.67 else []
    return dict(scn=s, solver=solver)


def run(case, ctx):
    s = case['scn']
    t = s['time']
    dur = t['dur']
    bound = int((dur / t['MorDtMin'] + 2) * (t['MorDtMax'] / t['HydDt'] + 2) * s['num']['MaxIt'] * 2)
    opens = int(2 * (dur / t['MorDtMin'] + 4) + 50)
    r = ctx.sim(s, dict(solver=case.get('solver', []), max_solves=bound, max_opens=opens))
    ctx.count('completion')
    if common.died(ctx, r, 'completion'):
        return
    ctx.sim_s += dur
    ts = ctx.rows(r, s, 'TsOutFile')
    m = ctx.rows(r, s)
    if not common.wellformed(ctx, m, ts):
        return
    end = common.t_end(s) - common.units_epoch(ts)
    ctx.count('end_time')
    if abs(ts['time'][-1] - end) > 1e-6:
        ctx.bad('end-time', 'last step at %r, configured end %r' % (ts['time'][-1], end))
    ctx.count('bounded_steps')
    if len(ts['time']) - 1 > dur / t['MorDtMin'] + 1 + 1e-6:
        ctx.bad('steps', '%d steps for %g s with minimum step %g' % (len(ts['time']) - 1, dur, t['MorDtMin']))
    ctx.count('finite', m['time'].size + ts['time'].size)
    for v in ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir', 'shoreline_y', 'lagoon_y', 'cliff_y', 'barrier_crest_z',
              'lagoon_bed_z', 'lagoon_wl', 'river_bed_z', 'river_wl', 'river_vel', 'river_bedload', 'lst', 'cst',
              'overwash_proportion', 'outlet_end_width', 'outlet_end_z', 'lagoon_bedload', 'outlet_bedload'):
        a = m[v]
        if not np.all(np.isfinite(a)) or np.any(np.abs(a) > 1e9):
            k = int(np.argwhere(~(np.abs(a) <= 1e9))[0][0])
            ctx.bad('finite', '%s not finite in record %d' % (v, k))
    for v in ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir', 'lagoon_level', 'lagoon_outflow', 'sed_inflow', 'mordt'):
        if not np.all(np.abs(ts[v]) <= 1e9):
            k = int(np.argwhere(~(np.abs(ts[v]) <= 1e9))[0][0])
            ctx.bad('finite', '%s not finite in time series record %d' % (v, k))

