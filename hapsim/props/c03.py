"""C03: agreement of the result files with each other, with the model and with
the starting record."""
import math

import numpy as np

from .. import gen as G, hist, ref, scenario
from . import common

COUNT = dict(quick=160, thorough=5000)
LEVEL = 'exploration'
RULE = ('Each case records one generated history every step, as shipped (single precision) and with the result variables kept in double '
        'precision, and starts a further run from a drawn record of either file.')
NOTE = ('model values are those the twin run hands to a double-precision file.')

SHARED = ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir', 'outlet_end_x', 'outlet_closed')
ATTRS = ('Kcoef', 'RhoSed', 'RhoSea', 'RhoRiv', 'VoidRatio', 'Gravity', 'GammaRatio', 'WaveDataDepth', 'ClosureDepth', 'BeachSlope',
         'RiverSlope', 'GrainSize', 'CritShieldsStress', 'UpstreamLength', 'RiverWidth', 'RoughnessManning', 'WidthDepthRatio', 'BackshoreElev',
         'MaxOutletElev', 'OT_coef', 'OT_exp', 'BeachTopElev', 'SpitWidth', 'TargetBarHeight', 'TargetBarWidth', 'MinOutletWidth',
         'OutletSedSpreadDist', 'OutletBankEroFac', 'BarrierPermeability', 'ShorelineErosionRate')
M, MS, QB = 'm', 'm/s', 'm3(bulk including voids)/s'
UNITS = dict(transect_x=M, shore_segment_x=M, river_dist=M, sea_level=M, river_flow='m3/s', hs_offshore=M, wave_dir='radians', shoreline_y=M,
             outlet_bank1_y=M, outlet_bank2_y=M, lagoon_y=M, cliff_y=M, lagoon_bed_z=M, outlet_bed_z=M, barrier_crest_z=M,
             inner_barrier_crest_z=M, lagoon_wl=M, lagoon_vel=MS, lagoon_bedload=QB, outlet_wl=M, outlet_vel=MS, outlet_bedload=QB,
             lst='m3/hour', cst='m3/hour', river_bed_z=M, river_wl=M, river_vel=MS, river_bedload=QB, outlet_end_x=M, outlet_end_width=M,
             outlet_end_z=M, outlet_end_wl=M, outlet_end_vel=MS, outlet_end_bedload=QB, dummy_xs_dep=M, dummy_xs_vel=MS)
TSUNITS = dict(sea_level=M, river_flow='m3/s', hs_offshore=M, wave_dir='radians', lagoon_level=M, lagoon_outflow='m3/s', sed_inflow='m3/s',
               outlet_end_x=M, mordt='s')
STATE = ('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y', 'lagoon_bed_z', 'outlet_bed_z', 'barrier_crest_z',
         'inner_barrier_crest_z', 'river_bed_z', 'outlet_end_x', 'outlet_end_width', 'outlet_end_z')
WATER = ('lagoon_wl', 'lagoon_vel', 'river_wl', 'river_vel', 'outlet_wl', 'outlet_vel', 'outlet_end_wl', 'outlet_end_vel', 'dummy_xs_dep',
         'dummy_xs_vel')


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C03', i)
    c = common.mixed(seed, 'C03', i, share=0.6, steps=(6, 25), hours=(0.3, 0.8) if tier == 'quick' else (1, 3))
    s = c['scn']
    if r.random() < 0.5:
        day = r.choice((-36525, -400, -250, -1, 0, 30, 91, 181, 547, 1277, 7000, 36000))
        shift(s, day)
    s['name'] = r.choice(('sim', 'Hurunui', 'a b', 'test_1'))
    c['take'] = r.random()
    c['off'] = r.choice((0, 0, -1, 1, 3))
    c['from32'] = r.random() < 0.5
    c['cont'] = r.random() < 0.5
    return c


def shift(s, days):
    """the same scenario on another calendar day"""
    d = days * 86400
    s['time']['start'] += d
    s['t_shift'] = s.get('t_shift', 0) + d
    if s.get('hotstart'):
        s['hotstart']['at'] += d
    if s.get('craft'):
        s['craft']['t'] += d


def nanmean(a):
    b = a[~np.isnan(a)]
    return float(np.mean(b)) if b.size else math.nan


def near(a, b, rt, at):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= at + rt * abs(b)


def agree(ctx, s, m, ts, hi):
    """main against time series file, record by record"""
    P = hist.Par(s)
    rt, at = (1e-9, 1e-9) if hi else (3e-6, 3e-6)
    n = m['time'].size
    H = hist.history(m)
    for k in range(n):
        d = common.diff_rows(m, k, ts, k, SHARED)
        if d:
            ctx.bad('files disagree', 'record %d: %s' % (k, d))
            return
        lv = nanmean(m['lagoon_wl'][k])
        if not near(float(ts['lagoon_level'][k]), lv, rt, at):
            ctx.bad('lagoon level', 'record %d: %r, mean of the transects %r' % (k, float(ts['lagoon_level'][k]), lv))
            return
        if k > 0 and not near(float(ts['sed_inflow'][k]), float(m['river_bedload'][k][0]), rt, at * 1e-3):
            ctx.bad('sediment inflow', 'record %d: %r, upstream bedload %r' % (k, float(ts['sed_inflow'][k]), float(m['river_bedload'][k][0])))
            return
        if k == 0:
            continue
        st = hist.Step(H[k - 1], H[k], P, ref.assemble(H[k - 1], P))
        if not st.agree:
            ctx.count('channel differs')
            continue
        if st.closed:
            q = 0. if st.V[-1] == 0 else st.h[-1] * st.V[-1] * st.ch.B[-1]
        else:
            q = H[k].dum_dep * H[k].dum_vel * st.ch.B[-1]
        if math.isnan(q):
            continue
        if not near(float(ts['lagoon_outflow'][k]), float(q), 1e-9 if hi else 1e-4, 1e-7 if hi else 1e-2):
            ctx.bad('lagoon outflow', 'record %d: %r, last cross-section %r' % (k, float(ts['lagoon_outflow'][k]), float(q)))
            return
        ctx.count('outflow')
    ctx.count('records', n)


def header(ctx, s, path, tspath, m, ts):
    import netCDF4
    from .. import engine
    ctx.count('header')
    start = scenario.start_time(s)
    for p, which, units in ((path, 'main', UNITS), (tspath, 'time series', TSUNITS)):
        d = engine.real['Dataset'](p)
        try:
            if d.ModelName != s['name']:
                ctx.bad('name', '%s: %r' % (which, d.ModelName))
            if d['time'].units != 'seconds since %04d-%02d-%02d' % (start.year, start.month, start.day) or d['time'].calendar != 'standard':
                ctx.bad('reference date', '%s: %r' % (which, d['time'].units))
            for v, u in units.items():
                if d[v].units != u:
                    ctx.bad('units', '%s %s: %r' % (which, v, d[v].units))
            if d['time'].dtype != np.float64:
                ctx.bad('precision', '%s: times stored as %s' % (which, d['time'].dtype))
            if which == 'main':
                for a in ATTRS:
                    if abs(float(d.getncattr(a)) - s['phys'][a]) > 1e-12 * max(1, abs(s['phys'][a])):
                        ctx.bad('parameter', '%s stored as %r, configured %r' % (a, d.getncattr(a), s['phys'][a]))
        finally:
            d.close()
    X = np.asarray(m['transect_x'], float)
    Dx = s['num']['Dx']
    x0 = np.argmin(np.abs(X))
    tol = 1e-6 * np.max(np.abs(X))          # coordinates are stored to single precision
    if np.max(np.abs(X - Dx * (np.arange(X.size) - x0))) > tol or np.max(np.abs(m['shore_segment_x'] - (X[1:] + X[:-1]) / 2)) > tol or \
            np.max(np.abs(m['river_dist'] - Dx * np.arange(m['river_dist'].size))) > tol:
        ctx.bad('coordinates', 'transects %s, segments %s, river %s' % (X[:3], m['shore_segment_x'][:3], m['river_dist'][:3]))
    if s['grid']['mode'] == 'straight' and not s.get('craft'):
        if abs(-X[0] - s['grid']['left']) > Dx + tol or abs(X[-1] - s['grid']['right']) > Dx + tol:
            ctx.bad('coordinates', 'coast from %g to %g, configured %g and %g' % (X[0], X[-1], -s['grid']['left'], s['grid']['right']))


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s)
    if D is None:
        return
    r = ctx.sim(s, dict(hires=False))
    if common.died(ctx, r, 'completion'):
        return
    m4, ts4 = ctx.rows(r, s), ctx.rows(r, s, 'TsOutFile')
    if not common.wellformed(ctx, m4, ts4):
        return
    header(ctx, s, r['wd'] + '/' + s['out']['OutFile'], r['wd'] + '/' + s['out']['TsOutFile'], m4, ts4)
    for o, hi, vs in ((m4, D.m, common.MAINV + ('time',)), (ts4, D.ts, common.TSV + ('time',))):
        for v in vs:
            want = hi[v] if v in ('time', 'outlet_closed') else hi[v].astype(np.float32)
            ctx.count('rounding', want.size)
            if not common.same(o[v], want):
                ctx.bad('rounding', '%s is not the model value rounded once' % v)
    agree(ctx, s, D.m, D.ts, True)
    agree(ctx, s, m4, ts4, False)
    if ctx.violations:
        return
    # start again from one of the records
    n = D.m['time'].size
    k = min(n - 1, int(case['take'] * n))
    src, swd = (m4, r['wd']) if case['from32'] else (D.m, D.r['wd'])
    P = hist.Par(s)
    H = hist.history(src)
    c = ref.assemble(H[k], P)
    if c.closed != H[k].closed:
        ctx.probe('closing at the start')
        return
    s2 = scenario.json.loads(scenario.json.dumps(s))
    s2.pop('craft', None)
    t = src['time'][k] + common.units_epoch(src)
    off = case['off'] if n > 1 and 0 < k < n - 1 and abs(case['off']) < min(s['time']['MorDtMin'] / 2 - 1, (src['time'][-1] - src['time'][-2]) / 2) else 0
    at = int(round(t)) + off
    s2['hotstart'] = dict(file='start.nc', at=at, cont=case['cont'])
    if abs(t - round(t)) > 0.4:
        return
    if case['cont']:
        end = scenario.EPOCH  # end time unchanged: dur counts from the configured start
    else:
        s2['time']['start'] = s['time']['start']
    wd = ctx.dir()
    scenario.shutil_copy(swd + '/' + s['out']['OutFile'], wd + '/start.nc')
    if case['cont'] and k == n - 1:
        return
    # the run only has to make its first record
    r2 = ctx.sim(s2, dict(hires=not case['from32'], max_opens=6), wd=wd)
    if r2['status'] not in ('ok', 'budget'):
        common.died(ctx, r2, 'start from a record')
        return
    m2 = ctx.rows(r2, s2)
    if m2['time'].size < 1:
        ctx.bad('first record', 'none')
        return
    ctx.count('first record')
    t2 = m2['time'][0] + common.units_epoch(m2)
    want = t if case['cont'] else s['time']['start']
    if abs(t2 - want) > 1e-6:
        ctx.bad('first record', 'at %r, expected %r' % (t2, want))
    if not np.array_equal(m2['transect_x'], src['transect_x']):
        ctx.bad('first record', 'transects differ')
        return
    d = common.diff_rows(m2, 0, src, k, STATE + ('outlet_closed',))
    if d:
        ctx.bad('first record', 'record %d of %d: %s' % (k, n, d))
        return
    if not np.all(src['lagoon_vel'][k] == 0):
        rt = 2e-7 if case['from32'] else 1e-12
        sk = {v: src[v] for v in src}
        j = ~np.isnan(m2['outlet_vel'][0])
        d = common.close_rows(m2, 0, sk, k, WATER, rt, 1e-6 if case['from32'] else 1e-11)
        if d:
            ctx.bad('first record', 'water of record %d of %d: %s' % (k, n, d))
        ctx.count('first record water')
