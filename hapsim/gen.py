"""Seeded swarm generator: a seed decides the coast, the starting state, the
weather events (floods, storms, surges, neaps), the configuration knobs and
which of them are active at all."""
import math
import random

from . import scenario
from .scenario import rng_for


def _pick(r, *xs):
    return r.choice(xs)


def events_flow(r, dur, big=1.0):
    ev = []
    for _ in range(r.choice((0, 1, 1, 2))):
        ev.append(dict(t=r.uniform(-0.2, 1.0) * dur, rise=r.uniform(1800, 3 * 3600),
                       decay=r.uniform(2, 24) * 3600, peak=big * r.choice((50., 150., 400., 900.)) * r.uniform(0.7, 1.3)))
    return ev


def events_wave(r, dur):
    ev = []
    for _ in range(r.choice((0, 1, 1, 2))):
        ev.append(dict(t=r.uniform(-0.2, 1.0) * dur, rise=r.uniform(1, 6) * 3600,
                       decay=r.uniform(3, 18) * 3600, peak=r.choice((0.5, 1.5, 3.0)) * r.uniform(0.7, 1.3)))
    return ev


def events_sea(r, dur):
    if r.random() < 0.6:
        return []
    return [dict(t=r.uniform(0, 1.0) * dur, rise=6 * 3600., decay=12 * 3600., peak=r.uniform(0.1, 0.6))]


def weather(r, s, dur):
    w = s['weather']
    w['flow']['base'] = round(r.choice((15., 40., 60., 90., 150.)) * r.uniform(0.8, 1.25), 3)
    w['flow']['dt'] = r.choice((15, 30, 60, 120))
    w['flow']['events'] = events_flow(r, dur)
    w['sea']['mean'] = r.choice((0., 0., 0.2, -0.1))
    w['sea']['range'] = r.choice((0., 0.6, 1.4, 2.0))
    w['sea']['phase'] = round(r.random(), 4)
    w['sea']['dt'] = r.choice((15, 30, 60))
    w['sea']['events'] = events_sea(r, dur)
    q = w['wave']
    q['Hs'] = round(r.choice((0.5, 1.0, 1.5, 2.2)) * r.uniform(0.8, 1.2), 4)
    q['T'] = round(r.uniform(6., 12.), 3)
    q['dir'] = round(r.choice((-45., -20., -5., 5., 20., 45.)) * r.uniform(0.6, 1.3), 3)
    q['swing'] = r.choice((0., 10., 25., 60.))
    q['period'] = r.choice((7., 13., 31.))
    q['dt'] = r.choice((30, 60, 180))
    q['events'] = events_wave(r, dur)


def numbers(r, s):
    n, p, t = s['num'], s['phys'], s['time']
    n['Dx'] = r.choice((15., 20., 25.))
    n['Beta'] = r.choice((0., 0., 0.5, 1.0, 1.05))
    q = random.Random(r.getstate()[1][5])
    if q.random() < 0.2:
        # spacings without an exact binary value
        n['Dx'] = q.choice((12.3, 17.9, 18.1, 22.22, 24.7, 19.95))
    n['Theta'] = r.choice((0.6, 0.7, 0.9))
    n['Psi'] = r.choice((0., 0.2, 0.4))
    n['MaxMorChange'] = r.choice((0.05, 0.1, 0.2))
    p['Kcoef'] = r.choice((0.005, 0.02, 0.05))
    p['GrainSize'] = r.choice((0.012, 0.018, 0.03))
    p['BarrierPermeability'] = r.choice((0., 0.0002, 0.001))
    p['OT_coef'] = r.choice((0.00005, 0.00015, 0.0004))
    p['OutletBankEroFac'] = r.choice((0., 0.5, 1.0))
    p['ShorelineErosionRate'] = r.choice((0., 0., 0.5))
    p['MinOutletWidth'] = r.choice((1., 1., 2.))
    p['SpitWidth'] = r.choice((5., 10., 15.))
    p['UpstreamLength'] = r.choice((200., 400., 600.))
    p['RiverWidth'] = r.choice((40., 80.))
    # parameters that are usually left at their defaults
    if r.random() < 0.5:
        p['RhoSed'] = r.choice((2400., 2650., 2700.))
        p['RhoSea'] = r.choice((1000., 1025., 1035.))
        p['VoidRatio'] = r.choice((0.2, 0.3, 0.4))
        p['GammaRatio'] = r.choice((0.4, 0.5, 0.8))
        p['MPM_coef'] = r.choice((3.97, 5.7, 8.))
        p['MPM_exp'] = r.choice((1.5, 1.6))
        p['CritShieldsStress'] = r.choice((0.03, 0.0495))
        p['OT_exp'] = r.choice((1., 1.5, 2., 2.5))
        p['OutletSedSpreadDist'] = r.choice((30., 100., 250.))
        p['MaxOutletElev'] = r.choice((-1., -0.5, 0.5, 1.5))
        p['ClosureDepth'] = r.choice((5., 10., 14.))
        p['BackshoreElev'] = r.choice((3., 8., 20.))
        p['BeachTopElev'] = r.choice((3.5, 4., 5.))
        p['WidthDepthRatio'] = r.choice((3., 10., 40.))
        p['BeachSlope'] = r.choice((0.05, 0.1, 0.15))
        p['TargetBarHeight'] = p['BeachTopElev'] + r.choice((1., 3.))
        p['TargetBarWidth'] = r.choice((40., 70., 120.))
        p['RiverSlope'] = r.choice((0.0015, 0.003, 0.006, 0.01))
        p['RoughnessManning'] = r.choice((0.025, 0.03, 0.04))
        p['GrainRoughness'] = r.choice((0.018, 0.022, 0.028))
    t['HydDt'] = r.choice((10., 15., 20., 30.))
    t['MorDtMin'] = t['HydDt'] * r.choice((1, 2, 4))
    t['MorDtMax'] = t['MorDtMin'] * r.choice((1, 1, 2, 4, 8))


def craft_state(r, s, kind):
    c = dict(kind=kind, nl=r.randint(18, 32), nr=r.randint(18, 32), side=r.choice((-1, 1)),
             barrier=r.choice((45., 60., 90.)), lagwidth=r.choice((25., 40., 60.)),
             lag_l=r.randint(3, 10), lag_r=r.randint(3, 10), crest=r.uniform(2.8, 4.5),
             shore_wig=r.choice((0., 1., 4.)), lag_wig=r.choice((0., 1., 3.)), crest_wig=r.choice((0., 0.2, 0.5)),
             wlen=r.uniform(5., 15.), ph=round(r.random(), 4), spit=r.choice((8., 10., 20.)),
             width=r.uniform(8., 22.), len=r.randint(1, 9), frac=r.choice((0.1, 0.5, 0.9)),
             wl=r.uniform(0.2, 1.6), t=s['time']['start'], dtype='f8')
    c['us'] = r.randint(0, max(0, (c['lag_r'] if c['side'] > 0 else c['lag_l']) - 1))
    if c['width'] + c['spit'] > c['barrier'] - 5:
        c['width'] = c['barrier'] - 5 - c['spit']
    if kind == 'closed':
        c['relic'] = r.random() < 0.6
        c['relic_width'] = r.choice((0.5, 6., 12.))
        c['nan_end'] = r.random() < 0.5
        if r.random() < 0.4:
            c['low'] = [r.randint(-2, 2), r.uniform(1.5, 2.6)]
    s['craft'] = c
    s['init']['LagoonBed'] = r.choice((-1.0, -0.5))
    s['init']['OutletBed'] = r.choice((-1.0, -1.5))
    s['hotstart'] = dict(file='start.nc', at=s['time']['start'], cont=False)


def shapes(r, s):
    """A real-world coast: rotated, offset, wiggly."""
    a = math.radians(r.uniform(-60, 60))
    ox, oy = r.uniform(1e4, 2e6), r.uniform(1e4, 5e6)
    land = 1.0
    L, R = r.uniform(500, 800), r.uniform(500, 800)
    lw, br = r.uniform(30, 60), r.uniform(60, 100)
    lr = r.choice((-1, 1))

    def tr(x, y):
        return [ox + x * math.cos(a) - y * math.sin(a), oy + x * math.sin(a) + y * math.cos(a)]
    # baseline fitted through the shore; sea on +y side of local frame
    shore = [tr(x, r.uniform(-2, 2)) for x in range(int(-L), int(R) + 1, 37)]
    cliff = [tr(-L - 80, -br - lw), tr(R + 80, -br - lw)]
    lag = [tr(-200.3, -br), tr(0, -br + 2), tr(220.7, -br)]
    out = [tr(lr * 31.3, -br + 1), tr(lr * 180.9, -br * 0.45), tr(lr * 181.9, 30.)]
    s['grid'] = dict(mode='shape', shapes=dict(shoreline=shore, cliff=cliff, lagoon=lag, outlet=out,
                                               river=tr(3.3, -br - lw - 20)))
    s['init'].update(OutletWidth=r.uniform(10, 18.), BarrierElev=r.uniform(2.8, 4.5))


def scenario_for(seed, label, family=None, dur=None, adaptive=None, hours=(2, 6), fast=True):
    r = rng_for(seed, 'scn', label)
    s = scenario.base()
    fam = family or r.choice(('straight', 'open', 'open', 'closed', 'shape'))
    s['family'] = fam
    s['time']['start'] = 86400 * r.randint(0, 20) + 900 * r.randint(0, 95)
    numbers(r, s)
    s['time']['dur'] = dur or int(3600 * r.uniform(*hours)) // 60 * 60
    D = s['time']['dur']
    # cap the number of hydraulic steps
    s['t_shift'] = s['time']['start']
    weather(r, s, D)
    if fam == 'straight':
        s['grid'].update(left=r.choice((200., 300., 430.)), right=r.choice((200., 300., 430.)),
                         beach=r.choice((30., 40., 60.)))
        s['init'].update(OutletWidth=r.uniform(15., 45.), BarrierElev=r.uniform(2.5, 4.5))
        if s['grid']['beach'] < s['phys']['SpitWidth'] + 5:
            s['grid']['beach'] = s['phys']['SpitWidth'] + 5
    elif fam == 'shape':
        shapes(r, s)
    else:
        craft_state(r, s, fam)
    if adaptive is False:
        s['time']['MorDtMax'] = s['time']['MorDtMin']
    return s


# ------------------------------------------------------------ directed states
DIRECTED = ('elong', 'edge', 'trunclag', 'trunclag', 'trunccliff', 'truncsea', 'truncsea', 'shiftfirst', 'shiftlast', 'fill', 'fill',
            'relic', 'relic', 'erode', 'cliff', 'closelst', 'closeow', 'pinch', 'river', 'spill', 'spill', 'merge', 'seaward')


def directed(seed, label, kind=None, steps=(8, 30), adaptive=None):
    """A short run that starts right before something happens to the outlet:
    the state space is entered where a rule is about to fire."""
    r = rng_for(seed, 'dir', label)
    s = scenario.base()
    k = kind or r.choice(DIRECTED)
    s['family'] = 'dir-' + k
    s['time']['start'] = 86400 * r.randint(0, 20) + 900 * r.randint(0, 95)
    numbers(r, s)
    if adaptive is False:
        s['time']['MorDtMax'] = s['time']['MorDtMin']
    s['time']['dur'] = int(r.randint(*steps) * s['time']['MorDtMin'])
    s['t_shift'] = s['time']['start']
    weather(r, s, s['time']['dur'])
    w, p, ini = s['weather'], s['phys'], s['init']
    # calm water, waves as the kind needs them
    w['flow'].update(base=round(r.uniform(20., 70.), 3), events=[])
    w['sea'].update(events=[], range=r.choice((0., 0.6, 1.4)))
    w['wave']['events'] = []
    craft_state(r, s, 'closed' if k in ('relic', 'fill', 'erode', 'spill') and r.random() < 0.7 else 'open')
    c = s['craft']
    side = c['side']
    kindc = c['kind']
    c.update(crest=r.uniform(5., 8.), shore_wig=r.choice((0., 0., 1.)), lag_wig=0., crest_wig=r.choice((0., 0.3)),
             wl=r.uniform(0.2, 1.0), low=None, jit_seed=r.randint(0, 10 ** 6), width=r.uniform(8., 18.), spit=r.choice((8., 10.)),
             us=r.randint(0, 3), len=r.randint(2, 7), nl=r.randint(18, 24), nr=r.randint(18, 24),
             lag_l=r.randint(6, 12), lag_r=r.randint(6, 12), barrier=r.choice((60., 90.)))
    stormy = lambda h=3.: w['wave'].update(Hs=round(r.uniform(0.8, 1.2) * h, 3), T=round(r.uniform(9., 13.), 2))
    towards = lambda sgn: w['wave'].update(dir=round(sgn * r.uniform(15., 50.), 3), swing=0.)
    tiny = lambda: r.choice((1e-6, 1e-4, 1e-3, 0.01, 0.05))
    if k in ('closelst', 'closeow', 'pinch', 'river'):
        p['MinOutletWidth'] = r.choice((1., 2., 5., 8.))
        p['WidthDepthRatio'] = 1.
        c['width'] = max(c['width'], p['MinOutletWidth'] + 3.)
    if k in ('elong', 'edge', 'closelst', 'seaward'):
        p['Kcoef'] = r.choice((0.02, 0.05, 0.1))
        stormy(r.choice((1.5, 3.)))
        towards(r.choice((-1, 1)))
        c['frac'] = r.choice((0.5, 0.95, 0.99, 0.999)) if k != 'seaward' else r.choice((0.01, 0.05))
    if k == 'edge':
        m = c['us'] + c['len'] + 1
        c['nr' if side > 0 else 'nl'] = max(m, c['lag_r' if side > 0 else 'lag_l'] + 1)
        c['len'] = c['nr' if side > 0 else 'nl'] - c['us'] - 1
        c['frac'] = r.choice((0.0, 0.9, 0.99))
        towards(-side if r.random() < 0.7 else side)
    if k == 'closelst':
        c['endw'] = p['MinOutletWidth'] + tiny() + r.choice((0., 0.1, 0.4))
        w['flow']['base'] = r.choice((5., 20.))
        c['len'] = r.randint(1, 7)
        s['num']['MaxMorChange'] = 0.2
    if k in ('trunclag', 'trunccliff', 'shiftlast'):
        # bank erosion everywhere: bed rising seaward, narrow and deep
        ini.update(LagoonBed=-1.5, OutletBed=r.choice((-0.5, 0.2, 0.5)))
        p['WidthDepthRatio'] = r.choice((10., 30., 60.))
        w['flow']['base'] = round(r.uniform(60., 140.), 3)
        c.update(crest=12., shore_wig=0., width=r.uniform(9., 15.), jit=r.choice((0., 1e-5, 1e-3, 0.05)), len=r.randint(3, 8), us=r.randint(0, 2))
        c['barrier'] = c['spit'] + c['width'] + tiny() + c['jit']
        if k == 'shiftlast':
            c['len'] = r.choice((1, 1, 2))
    if k == 'trunccliff':
        # lagoon ends half way, the cliff comes close beyond it
        key = 'lag_r' if side > 0 else 'lag_l'
        c[key] = c['us'] + r.randint(1, 3)
        m = r.randint(1, 3)
        c.update(shore_slope=r.uniform(4., 10.), slope_from=c[key], slope_n=m, jit=r.choice((0., 1e-5)))
        c['len'] = c[key] - c['us'] + m + r.randint(1, 3)
        # the lagoon is as wide as the shore swings in, so the channel just misses the cliff
        c['lagwidth'] = c['shore_slope'] * m + r.choice((0., -1e-3, 1e-3))
        c['barrier'] = c['spit'] + c['width'] + tiny() + 0.002 + c['jit']
    if k in ('truncsea', 'shiftfirst'):
        stormy()
        p['OT_coef'] = 0.0004
        c.update(spit=r.choice((1e-4, 0.01, 0.1, 0.4)), jit=r.choice((0., 1e-4, 0.05)), crest=r.choice((2.6, 3.5)), shore_wig=r.choice((0., 2.)))
        c['len'] = r.randint(2, 7) if k == 'truncsea' else 1
        if r.random() < 0.4:
            c['spit_z'] = r.choice((1.5, 2.5))
        p['Kcoef'] = r.choice((0.02, 0.1))
        if k == 'truncsea' and r.random() < 0.6:
            ini.update(LagoonBed=-1.5, OutletBed=r.choice((-0.5, 0.2, 0.5)))
            p['WidthDepthRatio'] = r.choice((10., 30., 60.))
            w['flow']['base'] = round(r.uniform(60., 140.), 3)
            c.update(crest=12., spit_z=None, width=r.uniform(9., 15.))
    if k == 'fill':
        stormy(r.choice((3., 4.5)))
        p['OT_coef'] = r.choice((0.0004, 0.002))
        c.update(crest=r.uniform(2., 3.2), crest_wig=0.4, relic=True, relic_width=r.choice((1e-4, 0.05, 0.3)), relic_z=None,
                 spit=r.choice((8., 15.)), spit_z=r.choice((None, 2.0, 3.5)), us=0 if r.random() < .5 else c['us'], nan_end=False)
        if kindc == 'open':
            c['relic2'] = {'from': r.randint(1, 4), 'count': r.randint(1, 4), 'width': tiny(), 'spit': 9., 'bed': r.choice((-1., 0.5, 1.5))}
    if k == 'relic':
        stormy()
        c.update(relic=True, relic_width=r.choice((6., 12.)), spit=r.choice((1e-4, 0.02, 0.2, 8.)), jit=r.choice((0., 0.05)), us=r.randint(0, 4),
                 crest=r.choice((2.2, 3., 6.)), spit_z=r.choice((None, 1.0, 2.)), nan_end=False)
        if kindc == 'open':
            c['relic2'] = {'from': r.randint(0, 3), 'count': r.randint(1, 4), 'width': 6., 'spit': r.choice((1e-4, 0.05, 0.2)), 'bed': -0.5}
            c['us'] = max(c['us'], 1)
    if k == 'erode':
        stormy()
        p['OT_coef'] = 0.0004
        # thinnest at headlands, where the waves take most
        c.update(barrier=r.choice((0.01, 0.1, 0.3)), relic=False, shore_wig=r.choice((0.5, 2.)), ph=0.3, crest=r.choice((2.5, 3.5, 6.)), spit=10.,
                 wlen=r.uniform(4., 9.))
        c['lag_wig'] = c['shore_wig'] + 0.9 * c['barrier']
        p['Kcoef'] = r.choice((0.02, 0.1))
        if kindc == 'open':
            c.update(kind='closed', us=r.randint(0, 4), nan_end=r.random() < .5)
        c['lagwidth'] = r.choice((25., 40.))
        p['SpitWidth'] = r.choice((5., 10.))
    if k == 'cliff':
        stormy()
        c['cliff_gap'] = r.choice((1e-4, 0.01, 0.1))
        p['Kcoef'] = 0.05
        c['shore_wig'] = r.choice((0., 1., 4.))
        if r.random() < 0.3:
            p['ShorelineErosionRate'] = r.choice((50., 500.))
        c['len'] = min(c['len'], max(1, min(c['lag_l'], c['lag_r']) - c['us'] - 1))
    if k == 'closeow':
        stormy(4.)
        p['OT_coef'] = 0.002
        c.update(crest=r.uniform(2.2, 3.), width=p['MinOutletWidth'] + r.choice((0.01, 0.1, 0.5)), endw=12., spit=9., len=r.randint(2, 5))
        w['flow']['base'] = r.choice((4., 20.))
        if r.random() < 0.6:
            c.update(crest=r.uniform(3.5, 5.), width=p['MinOutletWidth'] + r.choice((1e-3, 0.01)))
    if k == 'pinch':
        stormy(4.)
        p['OT_coef'] = 0.002
        c.update(crest=r.uniform(2.2, 3.), us=r.randint(3, 5), pinch=[side * r.randint(1, 3), p['MinOutletWidth'] + r.choice((-0.2, 1e-3, 0.05, 0.2))])
        w['sea']['mean'] = r.choice((0., 0.5))
        if r.random() < 0.6:
            c.update(crest=r.uniform(3.5, 5.))
        w['flow']['base'] = r.choice((5., 20., 50.))
        if r.random() < 0.5:
            c['kind'] = 'closed'
            c['relic'] = r.random() < 0.5
            c['relic_width'] = 6.
    if k == 'river':
        stormy(4.)
        p['OT_coef'] = 0.002
        c.update(crest=r.uniform(2.2, 3.), us=r.randint(1, 3), pinch=[0, p['MinOutletWidth'] + r.choice((1e-6, 1e-3, 0.05))], lag_wig=r.choice((0., 1.)))
        w['sea']['mean'] = r.choice((0., 0.5))
        if r.random() < 0.6:
            c.update(crest=r.uniform(3.5, 6.))
    if k == 'spill':
        c.update(crest=r.uniform(2., 4.), wl=r.uniform(1., 2.), crest_wig=0.3, relic=r.random() < 0.6, relic_width=r.choice((0.5, 6., 12.)),
                 nan_end=r.random() < 0.4, us=r.randint(0, 4), spit_z=r.choice((None, None, 1.6)))
        c['low'] = [r.randint(-3, 3), r.uniform(0.8, 2.2)]
        w['flow']['base'] = round(r.uniform(60., 250.), 3)
        if r.random() < 0.3:
            c['pinch'] = [r.choice((-2, -1, 1, 2)), r.uniform(0.5, 1.5) * p['MinOutletWidth']]
    if k == 'merge':
        c.update(lagwidth=r.choice((4., 8.)), crest=9., shore_wig=0.)
        ini.update(LagoonBed=r.choice((-1.5, -0.5)), OutletBed=-1.)
        p['WidthDepthRatio'] = r.choice((10., 60.))
        w['flow']['base'] = round(r.uniform(60., 140.), 3)
        c['us'] = r.randint(3, 6)
        # channel remains right beside the stretch of lagoon that carries the flow
        c['relic2'] = {'from': -c['us'] + 1, 'count': c['us'] - 1, 'width': r.choice((3., 8.)), 'gap': tiny(), 'bed': r.choice((-1., 0.5)), 'spit': 9.}
    if c['kind'] == 'open' and c['width'] + c['spit'] > c['barrier'] - 1e-7 and k not in ('trunclag', 'trunccliff', 'shiftlast'):
        c['barrier'] = c['width'] + c['spit'] + 5.
    m = max(c['us'] + c['len'] + 2, max(c['lag_l'], c['lag_r']) + 2)
    if k != 'edge':
        c['nl'] = max(c['nl'], m)
        c['nr'] = max(c['nr'], m)
    lagside = 'lag_r' if side > 0 else 'lag_l'
    if k != 'trunccliff':
        c[lagside] = max(c[lagside], c['us'] + 1)
        if k != 'edge':
            c['nl'] = max(c['nl'], c['lag_l'] + 2)
            c['nr'] = max(c['nr'], c['lag_r'] + 2)
    q = rng_for(seed, 'endz', label)
    if c['kind'] == 'open' and q.random() < 0.06:
        # gravel in the mouth up to the top of the beach
        c['endz'] = round(p['BeachTopElev'] + q.choice((0., 0., -1e-3, -0.2, 0.3, 1.)), 6)
    s['hotstart'] = dict(file='start.nc', at=s['time']['start'], cont=False)
    return s
