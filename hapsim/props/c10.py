"""C10: invariants of every recorded coast."""
import numpy as np

from .. import gen as G, hist
from . import common

COUNT = dict(quick=240, thorough=12000)
LEVEL = 'exploration'
RULE = ('Each case is one dense run; three quarters start right before channel, sea, lagoon or cliff meet, a fifth inject failing '
        'solves.')


def gen(seed, i, tier):
    c = common.mixed(seed, 'C10', i, solver=0.2, hours=(0.7, 1.5) if tier == 'quick' else (2, 8),
                     steps=(8, 40) if tier == 'quick' else (20, 150))
    if i % 12 == 5:
        c['scn'] = common.densify(G.directed(seed, 'C10-edge-%d' % i, kind='edge', steps=(15, 60)))
    return c


def check_state(ctx, S, P, k):
    X, Y, Z = S.X, S.Y, S.Z
    at = lambda mask: 'record %d at X=%s' % (k, X[mask][:4].tolist())
    x0 = int(np.argmin(np.abs(X)))
    has = ~np.isnan(Y[:, 1])
    with np.errstate(invalid='ignore'):
        tests = [('a bank of the channel is missing', np.isnan(Y[:, 1]) != np.isnan(Y[:, 2])),
                 ('channel bed known where there is no channel, or not known where there is one', np.isnan(Z[:, 1]) == has),
                 ('inner crest known where there is no channel, or not known where there is one', np.isnan(Z[:, 2]) == has),
                 ('shoreline, lagoon, cliff, crest or bed not finite', ~(np.isfinite(Y[:, 0]) & np.isfinite(Y[:, 3]) & np.isfinite(Y[:, 4])
                                                                        & np.isfinite(Z[:, 0]) & np.isfinite(Z[:, 3]))),
                 ('lagoon landward of cliff', Y[:, 3] < Y[:, 4]),
                 ('no barrier between channel and sea', has & ~(Y[:, 0] > Y[:, 1])),
                 ('channel of negative width', has & ~(Y[:, 1] >= Y[:, 2])),
                 ('no ground between channel and lagoon', has & ~(Y[:, 2] > Y[:, 3])),
                 ('no barrier between lagoon and sea', ~(Y[:, 0] > Y[:, 3])),
                 ('channel landward of cliff', has & (Y[:, 2] < Y[:, 4])),
                 ('outer crest not above bed behind it', ~(Z[:, 0] > np.where(has, Z[:, 1], np.where(Y[:, 3] > Y[:, 4], Z[:, 3], -np.inf))))]
    for nm, bad in tests[:10]:
        ctx.count(nm)
        if np.any(bad):
            ctx.bad('geometry', '%s: %s' % (nm, at(bad)))
            return False
    ctx.count('lagoon open at river')
    if not Y[x0, 3] - Y[x0, 4] >= P.MinOutletWidth * (1 - 1e-9):
        ctx.bad('river', 'lagoon %g m wide where the river enters, record %d' % (Y[x0, 3] - Y[x0, 4], k))
    ctx.count('outlet end in domain')
    e = 1e-9 * X[-1]
    if not S.closed and k and not (X[1] - e <= S.endx[1] <= X[-2] + e):
        ctx.bad('domain', 'outlet ends at %s, outermost places it may end at are %g and %g, record %d' % (S.endx[1], X[1], X[-2], k))
    if not (X[0] <= S.endx[1] <= X[-1]) or (not np.isnan(S.endx[0]) and not X[0] <= S.endx[0] <= X[-1]):
        ctx.bad('domain', 'outlet ends at %s, domain %g to %g, record %d' % (S.endx, X[0], X[-1], k))
    if not S.closed:
        ctx.count('open channel unbroken')
        if np.isnan(S.endx[0]) or not np.any(np.abs(X - S.endx[0]) < 1e-6):
            ctx.bad('channel', 'open outlet leaves the lagoon at %r, no transect, record %d' % (S.endx[0], k))
            return False
        lo, hi = min(S.endx), max(S.endx)
        on = (X >= lo) & (X <= hi)
        if not np.any(on) or np.any(on & ~has):
            ctx.bad('channel', 'open outlet from %g to %g has no channel at X=%s, record %d' % (S.endx[0], S.endx[1], X[on & ~has].tolist(), k))
        # between the river and the outlet there is water to flow through
        if not (S.endw > 0 and np.isfinite(S.endz)):
            ctx.bad('channel', 'open outlet with end width %g, level %g, record %d' % (S.endw, S.endz, k))
    return not ctx.violations


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s, dict(solver=case.get('solver', [])))
    if D is None:
        return
    P = D.P
    rate = P.ShorelineErosionRate / (365.25 * 86400)
    for k, S in enumerate(D.H):
        if not check_state(ctx, S, P, k):
            return
        if not k:
            continue
        B = D.H[k - 1]
        ctx.count('cliff')
        if np.any(S.Y[:, 4] > B.Y[:, 4] + 1e-9):
            q = S.Y[:, 4] > B.Y[:, 4] + 1e-9
            ctx.bad('cliff', 'cliff advances at X=%s in step %d' % (S.X[q][:4].tolist(), k - 1))
        ctx.count('upstream bed')
        if S.riv[0] != B.riv[0]:
            ctx.bad('upstream bed', 'moves by %g in step %d' % (S.riv[0] - B.riv[0], k - 1))
        ctx.count('shoreline ends')
        mv = min(rate * (S.t - B.t), P.MaxMorChange)
        for q in (0, -1):
            if S.Y[q, 4] < B.Y[q, 4]:
                continue                                # ran into the cliff
            want = -mv
            # prescribed rate; may be capped, may hit nothing else
            if abs(S.Y[q, 0] - B.Y[q, 0] - want) > 1e-7 and not np.any(~np.isnan(B.Y[q, 1])):
                if S.Y[q, 3] >= B.Y[q, 0] - mv - 0.01 or S.Y[q, 3] != B.Y[q, 3] and S.Y[q, 3] > S.Y[q, 4]:
                    continue                            # barrier restored at the very end
                ctx.bad('shoreline end', 'moves by %g in step %d, prescribed %g' % (S.Y[q, 0] - B.Y[q, 0], k - 1, want))
        if ctx.violations:
            return
