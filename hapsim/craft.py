"""Crafted initial states, written in the model's own (public) output format so
that a simulation can be hot-started in an arbitrary part of its state space:
long offset outlet channels to either side, closed lagoons, relic channels."""
import datetime as dt
import math
import random

import numpy as np


def build(scn):
    c = scn['craft']
    p = scn['phys']
    Dx = scn['num']['Dx']
    nl, nr = c['nl'], c['nr']
    X = np.arange(-nl, nr + 1) * Dx
    n = X.size
    x0 = nl
    side = c['side']
    wig = lambda a, ph: a * np.sin(2 * math.pi * (np.arange(n) / c.get('wlen', 9.) + ph))
    Y = np.full((n, 5), np.nan)
    Z = np.full((n, 4), np.nan)
    # mirrored crafts are produced by mirroring the arrays, see below
    Y[:, 0] = wig(c.get('shore_wig', 0.), c.get('ph', 0.))
    if c.get('shore_slope'):
        # the shoreline swings landward towards the far end
        Y[:, 0] -= c['shore_slope'] * np.clip(side * (np.arange(n) - x0) - c.get('slope_from', 0), 0, c.get('slope_n', 99))
    if c.get('jit'):
        # uneven coast: independent small offsets per transect
        g = random.Random('jit%s' % c['jit_seed'])
        Y[:, 0] += [c['jit'] * g.uniform(-1, 1) for _ in range(n)]
    for q, by in c.get('horns', []):
        # steep horns: the shore turns by more than 45 degrees on either side
        Y[np.clip(x0 + q, 0, n - 1), 0] += by
    Y[:, 4] = -(c['barrier'] + c['lagwidth'])
    if c.get('cliff_wig'):
        Y[:, 4] += wig(c['cliff_wig'], 0.8)
    if c.get('cliff_gap') is not None:
        # no lagoon, cliff right behind the beach, at the far transects
        far = np.abs(np.arange(n) - x0) > max(c['lag_l'], c['lag_r']) + 1
        Y[far, 4] = Y[far, 0] - c['cliff_gap']
    Y[:, 3] = Y[:, 4]
    lag = (np.arange(n) >= x0 - c['lag_l']) & (np.arange(n) <= x0 + c['lag_r'])
    Y[lag, 3] = Y[lag, 4] + c['lagwidth'] + wig(c.get('lag_wig', 0.), 0.3)[lag]
    if c.get('pinch'):
        # one narrow place in the lagoon
        q = x0 + c['pinch'][0]
        if lag[q]:
            Y[q, 4] = Y[q, 3] - c['pinch'][1]
    Z[:, 0] = c['crest'] + wig(c.get('crest_wig', 0.), 0.6)
    if c.get('low') is not None:
        Z[x0 + c['low'][0], 0] = c['low'][1]
    Z[:, 3] = scn['init']['LagoonBed']
    if c.get('tie_seed'):
        # no two places exactly alike
        g = random.Random('tie%s' % c['tie_seed'])
        Z[:, 0] += [0.002 * g.random() for _ in range(n)]
        for q in np.where(lag)[0]:
            Y[q, 3] += 1e-5 * g.random()
    if c.get('eps'):
        g = random.Random('eps%r' % c['eps'])
        Z[:, 0] += [abs(c['eps']) * g.uniform(-1, 1) for _ in range(n)]
        Y[:, 0] += [abs(c['eps']) * g.uniform(-1, 1) for _ in range(n)]
    closed = c['kind'] == 'closed'
    us = x0 + side * c['us']
    ds = us + side * (c['len'] - 1)
    endx = np.array([X[us], X[ds] + side * c['frac'] * Dx])
    if c.get('eps'):
        endx[1] += c['eps']
    chan = np.arange(us, ds + side, side)
    if not closed or c.get('relic'):
        w = c['width'] if not closed else c.get('relic_width', c['width'])
        Y[chan, 1] = Y[chan, 0] - c['spit']
        Y[chan, 2] = Y[chan, 1] - w
        if c.get('chan_jit'):
            g = random.Random('chan%s' % c['jit_seed'])
            Y[chan, 2] -= [c['chan_jit'] * g.random() for _ in chan]
            Y[chan, 1] += [min(c['chan_jit'], 0.4 * c['spit']) * g.random() for _ in chan]
        bed = np.linspace(scn['init']['LagoonBed'], scn['init']['OutletBed'], chan.size + 1)
        Z[chan, 1] = bed[:-1]
        Z[chan, 2] = Z[chan, 0]
        if c.get('spit_z') is not None:
            Z[chan, 0] = c['spit_z']
            if c.get('tie_seed'):
                Z[chan, 0] += [0.002 * random.Random('spit%s%d' % (c['tie_seed'], q * side)).random() for q in chan]
    if c.get('relic2'):
        # a channel left behind on the other side, carrying no flow
        o = c['relic2']
        for q in range(o['from'], o['from'] + o['count']):
            q = x0 - side * q
            if 0 < q < n - 1 and q not in chan:
                if o.get('gap') is not None and lag[q]:
                    Y[q, 2] = Y[q, 3] + o['gap']
                    Y[q, 1] = Y[q, 2] + o['width']
                else:
                    Y[q, 1] = Y[q, 0] - o['spit']
                    Y[q, 2] = Y[q, 1] - o['width']
                Z[q, 1] = o['bed']
                Z[q, 2] = Z[q, 0]
    endw = c.get('endw', c['width']) if not closed else c.get('end_width', 0.5)
    if closed and not c.get('relic'):
        endx = np.array([np.nan if c.get('nan_end') else X[us], X[ds]])
    nriv = np.arange(scn['init']['LagoonBed'],
                     scn['init']['LagoonBed'] + p['RiverSlope'] * p['UpstreamLength'],
                     p['RiverSlope'] * Dx).size
    riv = (scn['init']['LagoonBed'] + p['RiverSlope'] * Dx * np.arange(nriv))[::-1].copy()
    if c.get('riv_hump'):
        # gravel slug in the river
        q, by, half = c['riv_hump']
        riv = riv + by * np.clip(1 - np.abs(np.arange(nriv) - (nriv - 1) * q) / half, 0, None) * (np.arange(nriv) < nriv - 1)
    if c.get('riv_jit'):
        # rough river bed
        g = random.Random('riv%s' % c.get('jit_seed'))
        riv = riv + np.array([c['riv_jit'] * g.uniform(-1, 1) for _ in range(nriv)]) * (np.arange(nriv) < nriv - 1)
    for q, by, m in c.get('riv_saw', []):
        # bars: a steep face upstream, falling off gently downstream
        i0 = int(nriv * q)
        riv = riv + by * np.where(np.arange(nriv) >= i0, np.clip(1 - (np.arange(nriv) - i0) / m, 0, None), 0.) * (np.arange(nriv) < nriv - 1)
    from .scenario import flow_at
    q = flow_at(scn['weather'], c['t'] - scn.get('t_shift', 0))
    s = dict(X=X, Y=Y, Z=Z, endx=endx, endw=endw, endz=float(c.get('endz', scn['init']['OutletBed'])),
             closed=closed, riv=riv, t=c['t'])
    wl = c.get('wl', 0.5)
    hn = (q * p['RoughnessManning'] / (p['RiverWidth'] * math.sqrt(p['RiverSlope']))) ** 0.6
    dep = np.maximum(wl - riv, hn)
    s['riv_wl'] = riv + dep
    s['riv_vel'] = q / (p['RiverWidth'] * dep)
    s['lag_wl'] = np.full(n, wl)
    if closed:
        v = np.full(n, np.nan)
        v[lag] = 0.001
        s['lag_vel'] = v
        s['out_wl'] = np.full(n, np.nan)
        s['out_vel'] = np.full(n, np.nan)
        s['end'] = (np.nan, np.nan, np.nan, np.nan)
    else:
        # all-zero lagoon velocity makes the model compute its own steady state
        s['lag_vel'] = np.zeros(n)
        s['out_wl'] = Z[:, 1].copy()
        s['out_vel'] = np.zeros(n)
        s['end'] = (s['endz'], 0., 0., 0.)
    return s


def mirror_state(s):
    m = dict(s)
    m['X'] = -s['X'][::-1]
    m['Y'] = s['Y'][::-1].copy()
    m['Z'] = s['Z'][::-1].copy()
    m['endx'] = -s['endx']
    for k in ('lag_wl', 'lag_vel', 'out_wl', 'out_vel'):
        m[k] = s[k][::-1].copy()
    return m


def write(scn, path):
    import netCDF4
    from .scenario import EPOCH
    s = build(scn)
    if scn['craft'].get('mirror'):
        s = mirror_state(s)
    f8 = scn['craft'].get('dtype', 'f4')
    d = getattr(netCDF4, '_sim_real_Dataset', netCDF4.Dataset)(path, 'w', format='NETCDF4_CLASSIC')
    n = s['X'].size
    d.createDimension('transect_x', n)
    d.createDimension('shore_segment_x', n - 1)
    d.createDimension('river_dist', s['riv'].size)
    d.createDimension('outlet_ends', 2)
    d.createDimension('time', None)
    d.ModelOriginX, d.ModelOriginY = [float(v) for v in scn['craft'].get('origin', (0., 0.))]
    d.ModelOrientation = float(scn['craft'].get('orient', 0.))

    def var(nm, dims, val):
        v = d.createVariable(nm, f8, dims)
        if dims and dims[0] == 'time':
            v[0] = val
        else:
            v[:] = val
    var('transect_x', ('transect_x',), s['X'])
    t = d.createVariable('time', 'f8', ('time',))
    t.units = 'seconds since %s' % EPOCH.strftime('%Y-%m-%d')
    t.calendar = 'standard'
    t[0] = s['t']
    T, TX = ('time',), ('time', 'transect_x')
    for nm in ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir'):
        var(nm, T, 0.)
    for i, nm in enumerate(('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y')):
        var(nm, TX, s['Y'][:, i])
    for i, nm in enumerate(('barrier_crest_z', 'outlet_bed_z', 'inner_barrier_crest_z', 'lagoon_bed_z')):
        var(nm, TX, s['Z'][:, i])
    for nm, k in (('lagoon_wl', 'lag_wl'), ('lagoon_vel', 'lag_vel'), ('outlet_wl', 'out_wl'), ('outlet_vel', 'out_vel')):
        var(nm, TX, s[k])
    for nm in ('lagoon_bedload', 'outlet_bedload', 'cst', 'overwash_proportion'):
        var(nm, TX, np.zeros(n))
    var('lst', ('time', 'shore_segment_x'), np.zeros(n - 1))
    TR = ('time', 'river_dist')
    var('river_bed_z', TR, s['riv'])
    var('river_wl', TR, s['riv_wl'])
    var('river_vel', TR, s['riv_vel'])
    var('river_bedload', TR, np.zeros(s['riv'].size))
    var('outlet_end_x', ('time', 'outlet_ends'), s['endx'])
    for nm, v in zip(('outlet_end_width', 'outlet_end_z', 'outlet_end_wl', 'outlet_end_vel', 'dummy_xs_dep', 'dummy_xs_vel'),
                     (s['endw'], s['endz']) + tuple(s['end'])):
        var(nm, T, v)
    v = d.createVariable('outlet_closed', 'i1', T)
    v[0] = int(s['closed'])
    d.close()
