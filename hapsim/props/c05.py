"""C05: crash, restart and continuation."""
import numpy as np

from .. import engine, gen as G, hist, ref, scenario
from . import common

COUNT = dict(quick=140, thorough=5000)
LEVEL = 'exploration'
RULE = ('Each case runs a generated history to its end, kills the same run at a drawn solver call, continues it from what is on disk, kills '
        'that run again and continues once more (chains of up to 3); others continue the finished run from a drawn record in its middle. '
        'Histories start right before something happens to the outlet in most cases.')
NOTE = ('records kept in double precision (seam), fixed morphological step, solver tolerance 1e-9, so that a continued run can be compared '
        'number by number.')

VS = common.MAINV
SOFT = {v for v in VS if v.endswith('_wl') or v.endswith('_vel') or v.endswith('_dep') or v.endswith('bedload')}


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C05', i)
    c = common.mixed(seed, 'C05', i, share=0.7, steps=(8, 24), hours=(0.4, 0.8) if tier == 'quick' else (0.6, 3), adaptive=False)
    s = c['scn']
    c.pop('solver', None)
    t = s['time']
    t['MorDtMax'] = t['MorDtMin']
    t['dur'] = max(3, int(t['dur'] / t['MorDtMin'])) * t['MorDtMin']
    t['dur'] = int(t['dur'])
    s['num'].update(ErrTol=1e-9, MaxIt=200)
    if r.random() < 0.3:
        t['dur'] += r.choice((1, 7))
    if r.random() < 0.4:
        from .c03 import shift
        shift(s, r.choice((-366, -31, 28, 29, 118, 485, 1580, 7305)))
    c['kind'] = r.choice(('crash', 'crash', 'middle'))
    if i % 6 == 4:
        c['kind'] = 'nearest'
        c['gap'] = r.choice((900, 7200, 50000, 86400, 100000, 300000))
        c['at'] = [round(r.uniform(-0.1, 1.1), 6) for _ in range(4)]
    c['cuts'] = [round(r.uniform(0.05, 0.95), 4) for _ in range(r.choice((1, 2, 3)))]
    c['off'] = [round(r.uniform(-0.45, 0.45), 3) for _ in range(3)]
    return c


def continued(s, at):
    s2 = scenario.json.loads(scenario.json.dumps(s))
    s2.pop('craft', None)
    s2['hotstart'] = dict(file='start.nc', at=at, cont=True)
    return s2


def compare(ctx, m, base, k0, what, skipflag, first=None, control=None):
    """m repeats base from record k0 on"""
    n = base['time'].size - k0
    first = k0 if first is None else first
    loose = bool(np.any(base['outlet_closed'][first:k0 + 1]) or np.any(np.isnan(base['outlet_end_wl'][first + 1:k0 + 1])))
    t, tb = common.abstime(m), common.abstime(base)
    if m['time'].size > n:
        ctx.bad('continuation', '%s: %d records, the uninterrupted run has %d from there on' % (what, m['time'].size, n))
        return False
    for j in range(m['time'].size):
        if abs(t[j] - tb[k0 + j]) > 1e-6:
            ctx.bad('continuation', '%s: record %d at %r instead of %r' % (what, j, float(t[j]), float(tb[k0 + j])))
            return False
        if j == 0:
            vs = [v for v in VS if v not in ('lagoon_bedload', 'outlet_bedload', 'outlet_end_bedload', 'river_bedload', 'lst', 'cst',
                                             'overwash_proportion', 'sea_level', 'river_flow', 'hs_offshore', 'wave_dir')]
            if skipflag:
                vs = [v for v in vs if v != 'outlet_closed']
        else:
            vs = VS
        # in a closed lagoon the model sets velocities that are exactly zero to 1e-4, which rounding decides
        loose = loose or bool(base['outlet_closed'][k0 + j]) or bool(np.isnan(base['outlet_end_wl'][k0 + j]))
        d = common.close_rows(m, j, base, k0 + j, [v for v in vs if v not in SOFT], 2e-6, 1e-4 if loose else 2e-6) or \
            common.close_rows(m, j, base, k0 + j, [v for v in vs if v in SOFT and 'vel' not in v], 1e-2 if loose else 2e-6, 2e-4 if loose else 2e-6) or \
            common.close_rows(m, j, base, k0 + j, [v for v in vs if 'vel' in v], 2e-6, 2e-3 if loose else 2e-6)
        ctx.count('records')
        if d and control is not None and control(j):
            ctx.probe('undecided: sensitive to rounding')
            return False
        if d:
            ctx.bad('continuation', '%s: record %d after the restart: %s' % (what, j, d))
            return False
    return True


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s)
    if D is None:
        return
    P = D.P
    base, n = D.m, D.m['time'].size
    tb = common.abstime(base)
    if np.any(np.diff(tb) < s['time']['MorDtMin'] - 1e-6) and np.any(np.diff(tb)[:-1] < s['time']['MorDtMin'] - 1e-6):
        ctx.bad('step', 'fixed step not kept')
        return
    if case['kind'] == 'middle':
        for j, x in enumerate(case['cuts']):
            k = max(0, min(n - 2, int(x * n)))
            if k == 0 and s.get('craft') is None and np.all(base['lagoon_vel'][0] == 0):
                continue
            step = min(tb[k + 1] - tb[k], tb[k] - tb[k - 1] if k else 1e9)
            at = int(round(tb[k] + case['off'][j] * step * 0.9))
            if abs(at - tb[k]) > 0.49 * step:
                at = int(round(tb[k]))
            s2 = continued(s, at)
            wd = ctx.dir()
            scenario.shutil_copy(D.r['wd'] + '/out.nc', wd + '/start.nc')
            r = ctx.sim(s2, {}, wd=wd)
            if common.died(ctx, r, 'continuation'):
                return
            m = ctx.rows(r, s2)
            ctx.sim_s += m['time'][-1] - m['time'][0]
            ctx.fire('restart')
            note(ctx, D, k, P)
            closing = ref.assemble(D.H[k], P).closed != D.H[k].closed
            if m['time'].size != n - k and not ctx.violations:
                ctx.bad('continuation', 'from record %d of %d, requested %+.1f s: %d records, expected %d' % (k, n, at - tb[k], m['time'].size, n - k))
                return
            if not compare(ctx, m, base, k, 'from record %d of %d' % (k, n), closing, None, sensitive(ctx, s2, {}, wd, m)):
                return
        return
    if case['kind'] == 'nearest':
        return nearest(case, ctx, D, base, n)
    # crash, restart, crash, restart
    total = D.r['solves']
    k0 = 0
    first = None
    wd = None
    scn = s
    for j, x in enumerate(case['cuts'] + [None]):
        env = {} if x is None else dict(crash_solve=max(1, int(x * total)))
        w2 = ctx.dir()
        if wd is not None:
            scenario.shutil_copy(wd + '/out.nc', w2 + '/start.nc')
        r = ctx.sim(scn, env, wd=w2)
        if r['status'] != 'crash' and common.died(ctx, r, 'continuation'):
            return
        m = ctx.rows(r, scn)
        if m['time'].size < 1:
            ctx.bad('continuation', 'no record on disk')
            return
        ctx.sim_s += m['time'][-1] - m['time'][0]
        if j:
            closing = ref.assemble(D.H[k0], P).closed != D.H[k0].closed
            if not compare(ctx, m, base, k0, 'restart %d (from record %d of %d)' % (j, k0, n), closing, first, sensitive(ctx, scn, env, w2, m)):
                return
        k0 += m['time'].size - 1
        first = k0 if first is None else first
        if r['status'] == 'ok':
            if k0 != n - 1:
                ctx.bad('continuation', 'restart %d ends at record %d of %d' % (j, k0, n - 1))
            return
        if k0 >= n - 1:
            return
        ctx.fire('restart')
        note(ctx, D, k0, P)
        wd = w2
        at = int(round(tb[k0] + abs(case['off'][j % 3]) * s['time']['MorDtMin']))
        if x is not None and j % 2:
            at = int(round(tb[k0])) + 86400          # long after the last record: the last one is closest
        scn = continued(s, at)
        if scn['hotstart']['at'] > s['time']['start'] + s['time']['dur'] + 90000:
            scn['hotstart']['at'] = int(round(tb[k0]))
        total = max(2, int(total * (1 - (x or 0))))


def sensitive(ctx, s, env, wd, m):
    """do continuations from starts that differ in the last digits differ among themselves (solves that do not settle)?"""
    def ask(j):
        import netCDF4
        for sign in (1, -1):
            w = ctx.dir()
            scenario.shutil_copy(wd + '/start.nc', w + '/start.nc')
            f = netCDF4.Dataset(w + '/start.nc', 'a')
            for v in ('river_vel', 'lagoon_vel', 'outlet_vel', 'outlet_end_vel', 'dummy_xs_vel'):
                a = f.variables[v][:]
                f.variables[v][:] = a * (1 + sign * 1e-14)
            f.close()
            r = ctx.sim(s, env, wd=w)
            if r['status'] not in ('ok', 'crash'):
                continue
            q = ctx.rows(r, s)
            ctx.probe('control run')
            for i in range(1, min(j + 1, q['time'].size, m['time'].size)):
                if common.close_rows(q, i, m, i, VS, 1e-6, 1e-6):
                    return True
        return False
    return ask


def nearest(case, ctx, D, base, n):
    """a file whose records lie minutes to days apart; which one is taken"""
    import netCDF4
    s = case['scn']
    r = scenario.rng_for(case['gap'], 'nearest', n)
    t = np.cumsum([0] + [int(case['gap'] * r.uniform(0.3, 2.)) for _ in range(n - 1)])
    for x in case['at']:
        at = int(t[0] + x * (t[-1] - t[0]))
        dist = np.abs(t - at)
        k = int(np.argmin(dist))
        if n > 1 and np.sort(dist)[1] - dist[k] < 4:
            continue                                    # as good as a tie
        if k == 0 and s.get('craft') is None:
            continue
        wd = ctx.dir()
        scenario.shutil_copy(D.r['wd'] + '/out.nc', wd + '/start.nc')
        f = netCDF4.Dataset(wd + '/start.nc', 'a')
        f.variables['time'][:] = t + s['time']['start'] - common.units_epoch(base)
        f.close()
        s2 = continued(s, s['time']['start'] + at)
        s2['hotstart']['cont'] = False
        s2['time']['dur'] = int(s['time']['MorDtMin'])
        q = ctx.sim(s2, {}, wd=wd)
        if common.died(ctx, q, 'continuation'):
            return
        m = ctx.rows(q, s2)
        ctx.count('nearest record')
        vs = ('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y', 'lagoon_bed_z', 'outlet_bed_z', 'barrier_crest_z',
              'inner_barrier_crest_z', 'river_bed_z', 'outlet_end_x', 'outlet_end_width', 'outlet_end_z')
        if common.close_rows(m, 0, base, k, vs, 2e-6, 2e-6):
            hit = [j for j in range(n) if not common.close_rows(m, 0, base, j, vs, 2e-6, 2e-6)]
            ctx.bad('record', 'requested %d s, records at %s: starts from record %s, the closest is %d' % (at, t[max(0, k - 2):k + 3].tolist(), hit[:3], k))
            return
        if case['gap'] > 43200:
            ctx.probe('records days apart')


def note(ctx, D, k, P):
    a = D.H[k]
    ctx.probe('restart from a closed outlet' if a.closed else 'restart from an open outlet')
    if np.any(~np.isnan(a.Y[:, 1])) and a.closed:
        ctx.probe('restart with a relic channel')
