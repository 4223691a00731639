"""Helpers shared by the property modules."""
import datetime as dt

import numpy as np

from .. import scenario

MAINV = ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir', 'shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y',
         'cliff_y', 'lagoon_bed_z', 'outlet_bed_z', 'barrier_crest_z', 'inner_barrier_crest_z', 'lagoon_wl', 'lagoon_vel',
         'lagoon_bedload', 'outlet_wl', 'outlet_vel', 'outlet_bedload', 'lst', 'cst', 'overwash_proportion', 'river_bed_z',
         'river_wl', 'river_vel', 'river_bedload', 'outlet_end_x', 'outlet_end_width', 'outlet_end_z', 'outlet_end_wl',
         'outlet_end_vel', 'outlet_end_bedload', 'dummy_xs_dep', 'dummy_xs_vel', 'outlet_closed')
TSV = ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir', 'lagoon_level', 'lagoon_outflow', 'sed_inflow', 'outlet_end_x',
       'outlet_closed', 'mordt')


def died(ctx, r, kind):
    """Report a run that did not end normally."""
    if r['status'] == 'ok':
        return False
    if r['status'] == 'died':
        ctx.bad(kind, 'process died: %s' % r.get('err', '')[-400:])
    else:
        ctx.bad(kind, '%s %s %s %s' % (r['status'], r.get('type', r.get('what', '')), r.get('where', ''), r.get('msg', '')))
    return True


def wellformed(ctx, m=None, ts=None, kind='format'):
    """All variables there, one value per record, none left unwritten."""
    ok = True
    for o, vs in ((m, MAINV), (ts, TSV)):
        if o is None:
            continue
        n = o['time'].size
        if n == 0:
            ctx.bad(kind, 'no records')
            return False
        for v in vs:
            if v not in o:
                ctx.bad(kind, 'variable %s missing' % v)
                ok = False
            elif o[v].shape[0] != n:
                ctx.bad(kind, '%s has %d of %d records' % (v, o[v].shape[0], n))
                ok = False
            else:
                a = o[v]
                fill = (np.abs(a) > 9e36) if a.dtype.kind == 'f' else (a == -127)
                if np.any(fill):
                    ctx.bad(kind, '%s not written in record %d' % (v, int(np.argwhere(fill)[0][0])))
                    ok = False
        if not np.all(np.isfinite(o['time'])):
            ctx.bad(kind, 'time not finite')
            ok = False
    return ok


def units_epoch(o):
    """reference time of the file in seconds after scenario.EPOCH"""
    u = o['_units'].split('since')[1].strip()
    for f in ('%Y-%m-%d', '%Y-%m-%d %H:%M:%S'):
        try:
            return (dt.datetime.strptime(u, f) - scenario.EPOCH).total_seconds()
        except ValueError:
            pass
    raise ValueError(u)


def t_start(s):
    return s['time']['start']


def t_end(s):
    return s['time']['start'] + s['time']['dur']


def abstime(o):
    """record times in seconds after scenario.EPOCH"""
    return o['time'] + units_epoch(o)


def same(a, b):
    """bitwise equal including NaN"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'f' and b.dtype.kind == 'f':
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all(a == b))


def diff_rows(a, ia, b, ib, vs):
    """first variable in which record ia of a differs from record ib of b"""
    for v in vs:
        if v not in a or v not in b:
            return '%s missing' % v
        x, y = a[v][ia], b[v][ib]
        if not same(x, y):
            x, y = np.atleast_1d(x), np.atleast_1d(y)
            if x.shape != y.shape:
                return '%s shape %s %s' % (v, x.shape, y.shape)
            j = np.argwhere(~((x == y) | (np.isnan(x) & np.isnan(y))))[0]
            return '%s[%s]: %r != %r' % (v, ','.join(map(str, j)), float(x[tuple(j)]), float(y[tuple(j)]))
    return None


def close_rows(a, ia, b, ib, vs, rtol, atol):
    for v in vs:
        x, y = np.atleast_1d(a[v][ia]).astype(float), np.atleast_1d(b[v][ib]).astype(float)
        if x.shape != y.shape:
            return '%s shape %s %s' % (v, x.shape, y.shape)
        ok = np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            j = np.argwhere(~ok)[0]
            return '%s[%s]: %r != %r' % (v, ','.join(map(str, j)), float(x[tuple(j)]), float(y[tuple(j)]))
    return None


# ------------------------------------------------------------ dense histories
FAR = .001


def densify(s):
    """record every step, in both files"""
    s['out'].update(OutInt=FAR, TsOutInt=FAR)
    return s


class Dense:
    """A dense double-precision run, step by step."""

    def __init__(self, ctx, scn, r):
        from .. import hist
        self.m, self.ts = ctx.rows(r, scn), ctx.rows(r, scn, 'TsOutFile')
        self.P = hist.Par(scn)
        self.H = hist.history(self.m)
        self.end = self.m['time'][0] + scn['time']['dur']
        self.r = r
        self.scn = scn
        ctx.sim_s += self.m['time'][-1] - self.m['time'][0]

    def steps(self):
        """(k, Step, length of the step before, time left)"""
        from .. import hist, ref
        prev = self.P.MorDtMin
        for k in range(len(self.H) - 1):
            c = ref.assemble(self.H[k], self.P)
            yield k, hist.Step(self.H[k], self.H[k + 1], self.P, c), prev, self.end - self.H[k].t
            prev = float(self.ts['mordt'][k + 1])


def dense(ctx, scn, env=None, kind='completion'):
    """Simulate and check that the run ended and is recorded step by step;
    None when the run itself is unusable (reported)."""
    r = ctx.sim(scn, env)
    if died(ctx, r, kind):
        return None
    m, ts = ctx.rows(r, scn), ctx.rows(r, scn, 'TsOutFile')
    if not wellformed(ctx, m, ts):
        return None
    if m['time'].size != ts['time'].size or m['time'].size < 2 or abs(m['time'][-1] - m['time'][0] - scn['time']['dur']) > 1e-6:
        ctx.bad('records', 'a run recorded every step has %d and %d records, ending %r s after its start (%r configured)' % (
            m['time'].size, ts['time'].size, float(m['time'][-1] - m['time'][0]), scn['time']['dur']))
        return None
    return Dense(ctx, scn, r)


def mixed(seed, label, i, share=0.75, steps=(8, 30), hours=(0.7, 1.5), adaptive=None, solver=0.):
    """A case: mostly a state right before something happens, sometimes an
    ordinary history; optionally with failing solves."""
    from .. import gen as G
    r = scenario.rng_for(seed, label, i)
    if r.random() < share:
        s = G.directed(seed, '%s-%d' % (label, i), steps=steps, adaptive=adaptive)
    else:
        s = G.scenario_for(seed, '%s-%d' % (label, i), hours=hours, adaptive=adaptive)
        if r.random() < 0.5:
            s['init']['BarrierElev'] = r.uniform(5., 7.)
            if s.get('craft'):
                s['craft']['crest'] = r.uniform(5., 7.)
    if r.random() < 0.3:
        s['time']['dur'] += r.choice((1, 3, 7, 11))
    case = dict(scn=densify(s))
    if r.random() < solver:
        est = int(s['time']['dur'] / s['time']['HydDt'] * 3) + 2
        case['solver'] = [dict(at=r.randint(1, est), len=r.choice((1, 2, 5)), kind=r.choice(('singular', 'nan', 'value', 'kick')))
                          for _ in range(r.choice((1, 2, 4)))]
    return case
