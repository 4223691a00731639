"""Simulated environments: a scenario is one JSON-able dict that fully decides
the coast, the river, the weather (floods, storms, surges, tide) and the
configuration knobs of one simulated deployment of the model."""
import datetime as dt
import json
import math
import os
import random
from shutil import copyfile as shutil_copy

EPOCH = dt.datetime(2000, 9, 1)


def rng_for(seed, *label):
    # seeding with a string does not depend on PYTHONHASHSEED
    return random.Random(':'.join([str(seed)] + [str(x) for x in label]))


PHYS_DEFAULT = dict(
    Kcoef=0.02, RhoSed=2650., RhoSea=1025., RhoRiv=1000., VoidRatio=0.4,
    Gravity=9.81, GammaRatio=0.5, WaveDataDepth=10.0, ClosureDepth=5.0,
    BeachSlope=0.13, RiverSlope=0.003, GrainSize=0.018,
    CritShieldsStress=0.0495, MPM_coef=3.97, MPM_exp=1.5,
    UpstreamLength=400., RiverWidth=80., RoughnessManning=0.04,
    GrainRoughness=0.035, WidthDepthRatio=30., BackshoreElev=10.,
    MaxOutletElev=-2.0, OT_coef=0.00015, OT_exp=2., BeachTopElev=2.,
    SpitWidth=10., TargetBarHeight=5.5, TargetBarWidth=90.,
    MinOutletWidth=1.0, OutletSedSpreadDist=100., OutletBankEroFac=0.5,
    BarrierPermeability=0.001, ShorelineErosionRate=0.)

NUM_DEFAULT = dict(Dx=20., Beta=0., Theta=0.7, Psi=0.4, ErrTol=0.001, MaxIt=30,
                   WarnTol=0.1, MaxMorChange=0.1)


def base():
    return dict(
        name='sim',
        grid=dict(mode='straight', left=300., right=300., beach=40.),
        init=dict(OutletWidth=35., OutletBed=-1., LagoonBed=-1., BarrierElev=3.5),
        time=dict(start=0, dur=7200, HydDt=15., MorDtMin=60., MorDtMax=60.),
        phys=dict(PHYS_DEFAULT), num=dict(NUM_DEFAULT),
        weather=dict(flow=dict(base=60., dt=60, events=[]),
                     sea=dict(mean=0., range=1.4, phase=0., dt=30, events=[]),
                     wave=dict(Hs=1.5, T=9., dir=10., swing=15., period=13., dt=60, events=[])),
        out=dict(OutInt=1., TsOutInt=1., LogInt=3600., PlotInt=0.,
                 OutFile='out.nc', TsOutFile='ts.nc'))


def start_time(scn):
    return EPOCH + dt.timedelta(seconds=scn['time']['start'])


def end_time(scn):
    return start_time(scn) + dt.timedelta(seconds=scn['time']['dur'])


# ---------------------------------------------------------------- weather
def _bump(t, ev):
    """event shape: linear rise, exponential recession (t in s)"""
    x = t - ev['t']
    if x <= -ev['rise']:
        return 0.
    if x <= 0:
        return ev['peak'] * (1 + x / ev['rise'])
    return ev['peak'] * math.exp(-x / ev['decay'])


def flow_at(w, t):
    f = w['flow']
    return max(f.get('floor', 3.), f['base'] + sum(_bump(t, e) for e in f['events']))


def sea_at(w, t):
    s = w['sea']
    v = s['mean'] + s['range'] / 2 * math.sin(2 * math.pi * (t / 44712. + s['phase']))
    return v + sum(_bump(t, e) for e in s['events'])


def wave_at(w, t):
    q = w['wave']
    hs = q['Hs'] + sum(_bump(t, e) for e in q['events'])
    hs = max(hs, 0.1)
    T = q['T'] * (hs / q['Hs']) ** 0.3 if q.get('growT', True) else q['T']
    T = min(max(T, 3.), 18.)
    L = wavelength(T, 10.)
    d = q['dir'] + q['swing'] * math.sin(2 * math.pi * t / (q['period'] * 3600.))
    if q.get('bearing'):
        d %= q['bearing']
    power = 1025 * 9.81 ** 2 * hs ** 2 * T / (64 * math.pi)
    return (T, L, power, d, hs)


def wavelength(T, h):
    L = 9.81 * T * T / (2 * math.pi)
    for _ in range(60):
        L = 0.5 * L + 0.5 * 9.81 * T * T / (2 * math.pi) * math.tanh(2 * math.pi * h / L)
    return L


def series(scn, kind):
    """[(seconds after EPOCH, values...)] exactly as written to the CSV file"""
    over = scn.get('series', {}).get(kind)
    if over is not None:
        return [tuple(r) for r in over]
    w = scn['weather'][kind]
    step = int(w['dt']) * 60
    t0 = scn['time']['start'] - scn['time']['start'] % step - step * w.get('lead', 1)
    t1 = scn['time']['start'] + scn['time']['dur'] + w.get('tail', 7200)
    fn = dict(flow=lambda t: (flow_at(scn['weather'], t),),
              sea=lambda t: (sea_at(scn['weather'], t),),
              wave=lambda t: wave_at(scn['weather'], t))[kind]
    rows = []
    t = t0
    while True:
        rows.append((t,) + tuple(float('%.6g' % v) for v in fn(t - scn.get('t_shift', 0))))
        if t >= t1:
            break
        t += step
    if w.get('jitter'):
        # irregular sampling: drop some interior rows, never two in a row
        r = rng_for(w['jitter'], 'jitter', kind)
        keep = [rows[0]]
        for row in rows[1:-1]:
            if r.random() < 0.7 or keep[-1] is not rows[rows.index(row) - 1]:
                keep.append(row)
        keep.append(rows[-1])
        rows = keep
    return rows


HEAD = dict(flow='Time,Flow', sea='Time,SeaLevel',
            wave='Time,WavePeriod,Wlen_h,WavePower,EDir_h,Hsig_Offshore')


def write_csv(path, kind, rows):
    with open(path, 'w') as f:
        f.write(HEAD[kind] + '\n')
        for r in rows:
            t = EPOCH + dt.timedelta(seconds=r[0])
            f.write(t.strftime('%d/%m/%Y %H:%M') + ',' + ','.join(repr(float(v)) for v in r[1:]) + '\n')


# ---------------------------------------------------------------- config
def _fmt(t):
    return t.strftime('%Y-%m-%d %H:%M:%S')


def cfg_text(scn):
    L = ["ModelName = '%s'" % scn['name'], '[BoundaryConditions]']
    syn = scn.get('synthetic', {})
    L += ['RiverFlow = %s' % ('shotnoise' if 'flow' in syn else 'flow.csv'),
          'WaveConditions = wave.csv',
          'SeaLevel = %s' % ('harmonic' if 'sea' in syn else 'sea.csv')]
    if 'flow' in syn:
        L += ['[[ShotnoiseHydrographParameters]]'] + ['%s = %s' % kv for kv in sorted(syn['flow'].items())]
    if 'sea' in syn:
        L += ['[[HarmonicTideParameters]]'] + ['%s = %s' % kv for kv in sorted(syn['sea'].items())]
    if scn.get('hotstart'):
        h = scn['hotstart']
        L += ['[HotStart]', 'InitialConditionsNetCDF = %s' % h['file'],
              "HotStartTime = '%s'" % _fmt(EPOCH + dt.timedelta(seconds=h['at'])),
              'ContinueSimulation = %s' % bool(h.get('cont', False))]
    g = scn['grid']
    L += ['[SpatialInputs]']
    if g['mode'] == 'straight':
        L += ['ShorelineLengthLeft = %r' % g['left'], 'ShorelineLengthRight = %r' % g['right'],
              'BeachWidth = %r' % g['beach']]
    elif g['mode'] == 'shape':
        L += ['Shoreline = shore.shp', 'RiverLocation = river.shp', 'BarrierBackshore = lagoon.shp',
              'CliffToe = cliff.shp', 'OutletLocation = outlet.shp']
    L += ['[InitialConditions]'] + ['%s = %r' % (k, scn['init'][k]) for k in sorted(scn['init'])]
    t = scn['time']
    L += ['[Time]', "StartTime = '%s'" % _fmt(start_time(scn)), "EndTime = '%s'" % _fmt(end_time(scn)),
          'HydDt = %r' % t['HydDt'], 'MorDtMin = %r' % t['MorDtMin'], 'MorDtMax = %r' % t['MorDtMax']]
    L += ['[PhysicalParameters]'] + ['%s = %r' % (k, scn['phys'][k]) for k in sorted(scn['phys'])]
    L += ['[NumericalParameters]'] + ['%s = %r' % (k, scn['num'][k]) for k in sorted(scn['num'])]
    L += ['[OutputOptions]'] + ['%s = %s' % (k, v) for k, v in sorted(scn['out'].items()) if v is not None]
    return '\n'.join(L) + '\n'


def write_inputs(scn, d, cfg='model.cnf'):
    """Write every input file of the scenario into directory d."""
    syn = scn.get('synthetic', {})
    for kind, fn in (('flow', 'flow.csv'), ('sea', 'sea.csv'), ('wave', 'wave.csv')):
        if kind not in syn:
            write_csv(os.path.join(d, fn), kind, series(scn, kind))
    if scn['grid']['mode'] == 'shape':
        write_shapes(scn, d)
    if scn.get('craft'):
        from . import craft
        craft.write(scn, os.path.join(d, scn['hotstart']['file']))
    p = os.path.join(d, cfg)
    with open(p, 'w') as f:
        f.write(cfg_text(scn))
    return p


def write_shapes(scn, d):
    import shapefile
    s = scn['grid']['shapes']
    for nm, fn in (('shoreline', 'shore'), ('lagoon', 'lagoon'), ('cliff', 'cliff'), ('outlet', 'outlet')):
        w = shapefile.Writer(os.path.join(d, fn), shapeType=3)
        w.field('id', 'N')
        w.line([[list(p) for p in s[nm]]])
        w.record(1)
        w.close()
    w = shapefile.Writer(os.path.join(d, 'river'), shapeType=1)
    w.field('id', 'N')
    w.point(*s['river'])
    w.record(1)
    w.close()


def canon(scn):
    return json.dumps(scn, sort_keys=True)


class Forcing:
    """The supplied series, linearly interpolated; times in s after EPOCH."""

    def __init__(self, scn):
        import numpy as np
        self.s = {}
        for k in ('flow', 'sea', 'wave'):
            if k in scn.get('synthetic', {}):
                continue
            a = np.array([[float(v) for v in r] for r in series(scn, k)])
            self.s[k] = a

    def at(self, kind, t, col=1):
        import numpy as np
        a = self.s[kind]
        return float(np.interp(t, a[:, 0], a[:, col]))

    def bracket(self, kind, t):
        import numpy as np
        a = self.s[kind]
        j = int(np.searchsorted(a[:, 0], t, side='right')) - 1
        j = min(max(j, 0), len(a) - 1)
        return a[j], a[min(j + 1, len(a) - 1)]
