"""C20: recorded transport rates against the documented formulas."""
import math

import numpy as np

from .. import gen as G, scenario
from . import common

COUNT = dict(quick=200, thorough=6000)
LEVEL = 'exploration'
RULE = ('Each case is one dense run: open, closed and reversed flow, calm to extreme waves from any direction including offshore, low and '
        'high crests; an eighth inject failing solves.')
NOTE = ('every recorded rate is recomputed from the recorded water state, coast and forcing by independent code')


def gen(seed, i, tier):
    c = common.mixed(seed, 'C20', i, share=0.6, solver=0.12, steps=(6, 20) if tier == 'quick' else (10, 80),
                     hours=(0.4, 0.9) if tier == 'quick' else (1, 5))
    r = scenario.rng_for(seed, 'C20x', i)
    q, s = c['scn']['weather'], c['scn']
    x = r.random()
    if x < 0.35:
        # any direction, changing quickly
        q['wave'].update(dir=round(r.uniform(-140, 140), 3), swing=r.choice((0., 20., 90.)), period=r.choice((1., 3., 9.)), dt=r.choice((10, 30, 60)))
    if x > 0.7:
        q['wave'].update(Hs=round(r.uniform(2, 5), 3), T=round(r.uniform(8, 15), 3))
    if r.random() < 0.35:
        # strong tide against weak flow: the current turns
        q['flow'].update(base=r.choice((3.5, 8.)), events=[])
        q['sea'].update(range=r.choice((2., 3.5)), mean=0.3, dt=15, phase=round(r.random(), 3))
        s['time']['dur'] = min(s['time']['dur'] * 3, int(120 * s['time']['MorDtMin']))
    k = s.get('craft')
    if k and r.random() < 0.3:
        # horns on the beach, steep on both sides, away from the outlet
        dx = s['num']['Dx']
        at = [q for q in range(-k['nl'], k['nr'] + 1) if k['side'] * q < -2 or k['side'] * q > k['us'] + k['len'] + 2]
        k['horns'] = [[q, round(r.uniform(0.3, 4.) * dx, 3)] for q in at if r.random() < 0.25]
    if s['grid']['mode'] == 'straight' and r.random() < 0.3:
        s['phys']['WaveDataDepth'] = r.choice((5., 10., 20.))
    return c


def node_bedload(h, V, B, P):
    slope = V * V * P.GrainRoughness ** 2 / h ** (4. / 3.)
    shields = P.RhoRiv * P.Gravity * h * slope / ((P.RhoSed - P.RhoRiv) * P.Gravity * P.GrainSize)
    ex = np.where(shields > P.CritShieldsStress, shields - P.CritShieldsStress, 0.)
    q = P.MPM_coef * ex ** P.MPM_exp * np.sqrt((P.RhoSed / P.RhoRiv - 1) * P.Gravity * P.GrainSize ** 3) / (1 - P.VoidRatio)
    return q * B * np.where(V < 0, -1., 1.), shields


def longshore(Y0, power, period, wlen, direc, P):
    """volume transport on each segment; positive to the right"""
    n = Y0.size
    out = np.zeros(n - 1)
    hb = (8. / (P.RhoSea * P.Gravity ** 1.5 * P.GammaRatio ** 2) * power) ** 0.4
    cb = math.sqrt(P.Gravity * hb)
    ch = P.Gravity * period / (2 * math.pi) * math.tanh(2 * math.pi * P.WaveDataDepth / wlen)
    K = P.Kcoef / ((P.RhoSed - P.RhoSea) * P.Gravity * (1 - P.VoidRatio))
    loc = []
    for i in range(n - 1):
        a = direc - math.atan((Y0[i] - Y0[i + 1]) / P.Dx)
        loc.append(a)
        if abs(a) > math.pi / 2:
            continue
        sb = max(-1., min(1., math.sin(a) * cb / ch))
        out[i] = -K * power * math.cos(a) * sb
    return out, np.array(loc)


def crossshore(Y, Z, up, P):
    n = len(Y)
    tot, ow = np.zeros(n), np.zeros(n)
    near = np.zeros(n, bool)
    for i in range(n):
        over = max(up - Z[i, 0], 0.)
        tot[i] = P.OT_coef * over ** P.OT_exp
        has = not np.isnan(Y[i, 1])
        w = Y[i, 0] - Y[i, 1] if has else max(Y[i, 0] - Y[i, 3], 0.001)
        lim = P.slope * w + P.intercept
        near[i] = abs(Z[i, 0] - lim) < 1e-9
        ow[i] = Z[i, 0] > lim
        if not has and Y[i, 3] <= Y[i, 4]:
            ow[i], near[i] = 0., False
        if has and Y[i, 1] <= Y[i, 2]:
            ow[i], near[i] = 1., False
    return tot, ow, near


def close(a, b, tol=1e-9):
    return np.abs(a - b) <= tol * (np.abs(a) + np.abs(b)) + 1e-13


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s, dict(solver=case.get('solver', [])))
    if D is None:
        return
    P = D.P
    F = scenario.Forcing(s)
    off = common.units_epoch(D.m)
    for k, st, prev, left in D.steps():
        a, b = st.a, st.b
        t = a.t + off
        power, period, wlen = F.at('wave', t, 3), F.at('wave', t, 1), F.at('wave', t, 2)
        # --- longshore
        lst, loc = longshore(a.Y[:, 0], power, period, wlen, b.wdir, P)
        ctx.count('longshore')
        if np.any(np.abs(loc) > math.pi / 2):
            ctx.count('directed offshore')
        edge = np.abs(np.abs(loc) - math.pi / 2) < 1e-9
        bad = ~close(lst, b.lst, 1e-7) & ~edge
        if np.any(bad):
            j = int(np.where(bad)[0][0])
            ctx.bad('longshore', 'step %d segment %d: recorded %.9g, waves at %.6g rad to the shore imply %.9g m3/s' % (k, j, b.lst[j], loc[j], lst[j]))
        # --- cross-shore
        up = 0.49 * math.sqrt(P.BeachSlope) * period * b.hs + b.sea
        tot, ow, near = crossshore(a.Y, a.Z, up, P)
        ctx.count('cross-shore')
        if np.any(tot > 0):
            ctx.count('overtopped')
        if np.any(tot == 0):
            ctx.count('not overtopped')
        bad = ~close(tot, b.cst, 1e-7)
        if np.any(bad):
            j = int(np.where(bad)[0][0])
            ctx.bad('cross-shore', 'step %d X=%g: recorded %.9g, runup to %.6g m over a crest at %.6g m implies %.9g' % (k, a.X[j], b.cst[j], up, a.Z[j, 0], tot[j]))
        bad = (ow != b.ow) & ~near
        if np.any(bad):
            j = int(np.where(bad)[0][0])
            ctx.bad('overwash share', 'step %d X=%g: recorded %g, crest and width imply %g' % (k, a.X[j], b.ow[j], ow[j]))
        # --- bedload
        if st.agree:
            c = st.ch
            h = st.h.copy()
            ok = ~np.isnan(h) & (h > 0)
            h[~ok] = 1.
            q, shields = node_bedload(h, st.V, c.B, P)
            want = (1 - P.Psi) * q[:-1] + P.Psi * q[1:]
            good = ok[:-1] & ok[1:]
            got = st.bl
            if c.closed:
                # reaches of the closed lagoon
                got = np.concatenate([b.riv_bl, b.lag_bl[c.online[:-1]]])
            else:
                got = np.concatenate([b.riv_bl, b.lag_bl[c.online], b.out_bl[c.outix], [b.end_bl]])
            # the depth next to a changed bed is known to rounding only
            ctx.count('bedload', int(np.sum(good)))
            if np.any(st.V < 0):
                ctx.count('reversed flow')
            if np.any(shields[ok] < P.CritShieldsStress):
                ctx.count('below threshold')
            if got.shape != want.shape:
                ctx.bad('bedload', 'step %d: %d rates for %d reaches' % (k, got.size, want.size))
                return
            scale = np.maximum(np.abs((1 - P.Psi) * q[:-1]), np.abs(P.Psi * q[1:]))
            bad = good & ~(np.abs(got - want) <= 1e-6 * scale + 1e-12)
            if np.any(bad):
                j = int(np.where(bad)[0][0])
                ctx.bad('bedload', 'step %d reach %d (%s): recorded %.9g, depth %.6g velocity %.6g imply %.9g m3/s' % (
                    k, j, ('river', 'lagoon', 'outlet', 'end', 'sea')[c.flag[j]], got[j], h[j], st.V[j], want[j]))
            # nothing is recorded where no water flows
            ctx.count('no transport off the waterway')
            offl = [i for i in range(a.X.size) if i not in c.online]
            offo = [i for i in range(a.X.size) if i not in c.outix]
            if np.any(b.lag_bl[offl] != 0) or np.any(b.out_bl[offo] != 0):
                ctx.bad('bedload', 'step %d: transport recorded on transects that carry no flow' % k)
        else:
            ctx.probe('step not comparable')
        if ctx.violations:
            return
