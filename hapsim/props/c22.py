"""C22: movies show the recorded history."""
import os
import shutil
from datetime import datetime, timedelta

import numpy as np

from .. import engine, figures, hist, ref, scenario
from . import common
from .c18 import NEG, TX

COUNT = dict(quick=90, thorough=4000)
LEVEL = 'exploration'
RULE = ('Each case simulates a generated history (three quarters start right before something happens to the outlet), then makes 4 movies of '
        'what is on disk - at the end, at a drawn solver call while the model runs, or after the model was killed there: map, transect or '
        'long section, over a drawn range and sampling of records, zoomed or not, some with a movie writer that fails at a drawn frame.')
NOTE = ('the real animation code runs up to the movie writer, which keeps the lines and polygons of each frame; these are compared with the '
        'record the frame stands for, with a movie of that record alone and with the movie of the mirrored file')
REAL = ['hapuamod animate, visualise, matplotlib (off screen)']
STUB = ['movie writer (keeps the contents of each frame)']
BIG = 1e5


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C22', i)
    c = common.mixed(seed, 'C22', i, share=0.75, steps=(4, 16) if tier == 'quick' else (4, 60), hours=(0.3, 0.8), solver=0.1)
    c['movies'] = []
    for k in range(4):
        m = dict(kind=figures.KINDS[(i + k) % 3], first=r.random() if r.random() < 0.7 else 0., n=r.choice((2, 3, 5)), step=r.choice((1, 1, 1, 2, 3)),
                 x=r.random(), src=r.choice(('end', 'end', 'reader', 'killed')), at=r.random(), aoi=r.random() < 0.3,
                 open_end=r.random() < 0.2, past=r.random() < 0.1, mirror=r.random() < 0.9, alone=r.random() < 0.4, near=r.random() < 0.7)
        if r.random() < 0.2:
            m['fail_at'] = r.choice((0, 1, 2))
        c['movies'].append(m)
    if i % 3 == 0:
        t = c['scn']['time']
        c['live'] = max(t['dur'] / r.choice((2., 3., 5.)), t['MorDtMin'] * r.choice((1, 2.5, 4)))
    return c


def shrink(case):
    for k in range(len(case['movies'])):
        if len(case['movies']) > 1:
            yield dict(case, movies=case['movies'][:k] + case['movies'][k + 1:])
    from ..runner import generic_shrink
    yield from generic_shrink(case)


def mirror_file(src, dst):
    """the same history seen in a mirror, written without the model"""
    shutil.copyfile(src, dst)
    d = engine.real['Dataset'](dst, 'r+')
    d.set_auto_mask(False)
    try:
        for v in d.variables:
            x = d[v]
            if v in ('transect_x', 'shore_segment_x'):
                x[:] = -x[:][::-1]
                continue
            a = x[:]
            if v in TX:
                a = a[:, ::-1]
            if v in NEG:
                a = -a
            if v in TX or v in NEG:
                x[:] = a
    finally:
        d.close()


class Bad(Exception):
    pass


def need(ok, what, *a):
    if not ok:
        raise Bad(what % a)


def lines_of(fr):
    """(x, y, joined) of every line of the frame, label"""
    return [(l, x.ravel(), y.ravel(), j) for a in fr['axes'] for l, x, y, j in a['lines'] if x.size == y.size]


def at(ls, x, y, tol=1e-6):
    """lines with a vertex at (x, y)"""
    return [l for l in ls if np.any((np.abs(l[1] - x) <= tol * (1 + abs(x))) & (np.abs(l[2] - y) <= tol * (1 + abs(y))))]


def joined(ls, x, y, u, v, tol=1e-6):
    """is there a line straight from one point to the other?"""
    for l in ls:
        if not l[3] or l[1].size < 2:
            continue
        p = (np.abs(l[1] - x) <= tol * (1 + abs(x))) & (np.abs(l[2] - y) <= tol * (1 + abs(y)))
        q = (np.abs(l[1] - u) <= tol * (1 + abs(u))) & (np.abs(l[2] - v) <= tol * (1 + abs(v)))
        if np.any(p[:-1] & q[1:]) or np.any(q[:-1] & p[1:]):
            return True
    return False


def fits(px, py, qx, qy, tol=1e-5, xtol=1e-5):
    """two curves agree wherever both have values"""
    if px.size != qx.size or np.any(np.abs(px - qx) > xtol * (1 + np.abs(qx))):
        return False
    ok = ~np.isnan(qy)
    return not np.any(np.isnan(py[ok])) and not np.any(np.abs(py[ok] - qy[ok]) > tol * (1 + np.abs(qy[ok])))


def label_ok(fr, t):
    """the time of the record, to the minute, is on the figure"""
    texts = [fr['sup']] + [a[k] for a in fr['axes'] for k in ('left', 'mid', 'right')]
    want = set()
    for e in (-0.01, 0.01):
        u = t + timedelta(seconds=e)
        want |= {u.strftime('%d-%b-%Y %H:%M'), u.strftime('%d/%m/%y %H:%M'), u.strftime('%d/%m/%Y %H:%M'), u.strftime('%Y-%m-%d %H:%M')}
    return any(w in x for w in want for x in texts)


def check_map(ctx, fr, S, P, aoi):
    X, Y, Z = S.X, S.Y, S.Z
    ax = fr['axes'][0]
    ls = lines_of(fr)
    rw = P.RiverWidth / 2
    n = X.size
    for i in range(n):
        need(at(ls, X[i], Y[i, 0]), 'shoreline of transect %d (%g, %g) not drawn', i, X[i], Y[i, 0])
        if abs(X[i]) >= rw:
            need(at(ls, X[i], Y[i, 4]), 'cliff of transect %d (%g, %g) not drawn', i, X[i], Y[i, 4])
        for c in (1, 2):
            if not np.isnan(Y[i, c]):
                need(at(ls, X[i], Y[i, c]), 'bank %d of transect %d (%g, %g) not drawn', c, i, X[i], Y[i, c])
    ctx.count('map', n)
    lag = np.where(Y[:, 3] > Y[:, 4])[0]
    oix = [] if S.closed else ref.outlet_transects(X, S.endx)
    if S.closed:
        left = right = mleft = mright = None
    else:
        if not oix or not lag.size:
            return
        w = Y[oix[0], 1] - Y[oix[0], 2]
        dx = X[1] - X[0]
        left, right = max(S.endx[0] - w / 2, X[lag[0]] - dx), min(S.endx[0] + w / 2, X[lag[-1]] + dx)
        mleft, mright = S.endx[1] - S.endw / 2, S.endx[1] + S.endw / 2
        ctx.count('open map')
    for i in range(n):
        if S.closed or X[i] < S.endx[0] - w / 2 or X[i] > S.endx[0] + w / 2:
            need(at(ls, X[i], Y[i, 3]), 'lagoon edge of transect %d (%g, %g) not drawn', i, X[i], Y[i, 3])
    for i in range(n - 1):
        a, b = (X[i], Y[i, 0]), (X[i + 1], Y[i + 1, 0])
        j = joined(ls, *a, *b)
        if S.closed or X[i + 1] <= mleft or X[i] >= mright:
            need(j, 'shoreline interrupted between transects %d and %d (%s)', i, i + 1, 'closed' if S.closed else 'outlet at %g' % S.endx[1])
        else:
            need(not j or mleft >= X[i + 1] - 1e-6 or mright <= X[i] + 1e-6, 'shoreline drawn across the open outlet between transects %d and %d', i, i + 1)
    if not S.closed and mleft > X[0] and mright < X[-1]:
        for x in (mleft, mright):
            y = np.interp(x, X, Y[:, 0])
            need(at(ls, x, y, 1e-5), 'bank of the outlet mouth (%g, %g) not drawn', x, y)
        ctx.count('mouth')
        ob = [l for l in ls if l[0] == 'Outlet bank']
        if ob and left < mleft and right < mright or ob and left > mleft and right > mright:
            s = 1 if left < mleft else -1
            for i in oix:
                x = s * X[i]
                if x < (mleft if s > 0 else -mright) - 1e-6:
                    need(at(ob, X[i], Y[i, 1]), 'outlet bank on the seaward side of transect %d not joined to the outlet', i)
                if x > (right if s > 0 else -left) + 1e-6:
                    need(at(ob, X[i], Y[i, 2]), 'outlet bank on the landward side of transect %d not joined to the outlet', i)
            ctx.count('outlet banks')
    if S.closed and len([l for l in ls if l[0] == 'Outlet bank']) == 1:
        l = [l for l in ls if l[0] == 'Outlet bank'][0]
        need(np.all(np.isnan(l[1]) | np.isnan(l[2])), 'outlet drawn though the lagoon is closed')
        ctx.count('closed map')
    po = dict((l, xy) for l, xy in ax['polys'])
    if 'Water' in po:
        q = [('', po['Water'][:, 0], po['Water'][:, 1], True)]
        for i in range(n):
            if S.closed or X[i] <= mleft or X[i] >= mright:
                need(at(q, X[i], Y[i, 0]), 'sea does not reach the shoreline of transect %d', i)
            if abs(X[i]) >= rw:
                need(at(q, X[i], Y[i, 4]), 'lagoon does not reach the cliff of transect %d', i)
            if S.closed or X[i] < S.endx[0] - w / 2 or X[i] > S.endx[0] + w / 2:
                need(at(q, X[i], Y[i, 3]), 'lagoon does not reach the barrier of transect %d', i)
        ctx.count('water', n)
    if 'Cliff' in po:
        h = po['Cliff']
        for x, y in h:
            if np.isnan(x) or np.isnan(y):
                continue
            need(y <= np.interp(x, X, Y[:, 4]) + 1e-3, 'land drawn seaward of the cliff, to (%g, %g)', x, y)
        ctx.count('land')
    if aoi is None:
        return
    need(ax['xlim'][0] <= aoi[0] + 1e-3 and ax['xlim'][1] >= aoi[1] - 1e-3 and ax['ylim'][0] <= aoi[2] + 1e-3 and ax['ylim'][1] >= aoi[3] - 1e-3
         or abs(ax['xlim'][1] - ax['xlim'][0] - aoi[1] + aoi[0]) < 1e-3 or abs(ax['ylim'][1] - ax['ylim'][0] - aoi[3] + aoi[2]) < 1e-3,
         'area of interest %s, shown %s %s', aoi, ax['xlim'], ax['ylim'])


def level(ls, x, y0, y1, tol):
    return [l for l in ls if at([l], x, y0, tol)]


def check_transect(ctx, fr, S, P, aoi, tx):
    X = S.X
    d = np.abs(X - tx)
    i = int(np.argmin(d))
    if np.sort(d)[1] - d[i] < 1e-3:
        return
    ls = lines_of(fr)
    Y, Z = S.Y[i], S.Z[i]
    land = [(Y[0], P.BeachTopElev), (Y[0], Z[0]), (Y[4], P.BackshoreElev)]
    water = [(Y[0], S.sea)]
    chan = not np.isnan(Y[2])
    if chan:
        land += [(Y[1], Z[0]), (Y[1], Z[1]), (Y[2], Z[1]), (Y[2], Z[2]), (Y[3], Z[2])]
        if not np.isnan(S.out_wl[i]):
            water += [(Y[1], S.out_wl[i]), (Y[2], S.out_wl[i])]
            ctx.count('channel level')
    else:
        land += [(Y[3], Z[0])]
    if Y[3] != Y[4]:
        land += [(Y[3], Z[3]), (Y[4], Z[3])]
        if not np.isnan(S.lag_wl[i]):
            water += [(Y[3], S.lag_wl[i]), (Y[4], S.lag_wl[i])]
            ctx.count('lagoon level')
    for x, y in land:
        need(at(ls, x, y), 'ground at (%g, %g) of transect %d (X=%g) not drawn', x, y, i, X[i])
    for x, y in water:
        need(at(ls, x, y), 'water at (%g, %g) of transect %d (X=%g) not drawn', x, y, i, X[i])
    # what belongs together is on one line
    g = [l for l in ls if all(at([l], x, y) for x, y in land)]
    need(g, 'the ground of transect %d is not one line', i)
    need([l for l in ls if all(at([l], x, y) for x, y in water)], 'the water of transect %d is not one line', i)
    y = g[0][1]
    y = y[(~np.isnan(y)) & (np.abs(y) < 999)]
    need(np.all(np.diff(y) <= 1e-6), 'ground of transect %d not in order from the sea to the cliff: %s', i, y)
    ctx.count('transect')
    t = ' '.join([fr['sup']] + [a[k] for a in fr['axes'] for k in ('left', 'mid', 'right')])
    if abs(X[i]) > 1:
        need('%.0fm' % abs(X[i]) in t or '%.0f m' % abs(X[i]) in t, 'transect at X=%g labelled %r', X[i], t)
        need(('left' in t) == (X[i] < 0), 'transect at X=%g labelled %r', X[i], t)
    if aoi is not None:
        a = fr['axes'][0]
        need(np.allclose(a['xlim'] + a['ylim'], aoi, atol=1e-4), 'area of interest %s, shown %s', aoi, a['xlim'] + a['ylim'])


def check_long(ctx, fr, S, P, aoi):
    tie = ref.Tie()
    c = ref.assemble(S, P, tie)
    if not c.nl:
        return
    dist = np.concatenate([[0.], np.cumsum(c.dx)])
    h, V = np.full(c.z.size, np.nan), np.full(c.z.size, np.nan)
    nr, nl, no = c.nr, c.nl, c.no
    h[:nr], V[:nr] = S.riv_wl - S.riv, S.riv_vel
    h[nr:nr + nl], V[nr:nr + nl] = (S.lag_wl - S.Z[:, 3])[c.online], S.lag_vel[c.online]
    if no:
        h[nr + nl:nr + nl + no], V[nr + nl:nr + nl + no] = (S.out_wl - S.Z[:, 1])[c.outix], S.out_vel[c.outix]
        if not np.isnan(S.end_wl) and not S.closed:
            h[nr + nl + no], V[nr + nl + no] = S.end_wl - S.endz, S.end_vel
    h[np.isnan(V)] = np.nan
    V[~(h > 0.01)] = np.nan                         # dried or new cross-sections get a nominal depth
    h[~(h > 0.01)] = np.nan
    if c.closed:
        V[-1] = np.nan                              # the water model starts from still water there
    ls = lines_of(fr)
    mid = (dist[1:] + dist[:-1]) / 2
    wl = c.z + h
    m2 = lambda a: (a[1:] + a[:-1]) / 2
    z = c.z.copy()
    if no:
        z[-1] = np.nan
    for name, x, y in (('bed', dist, z), ('water level', dist, wl), ('width', dist, c.B), ('velocity', dist, V), ('flow', dist, V * h * c.B),
                       ('Froude number', dist, np.abs(V) / np.sqrt(9.81 * h)), ('energy line', mid, m2(wl) + m2(V) ** 2 / 2 / 9.81)):
        need(any(fits(l[1], l[2], x, y) for l in ls), '%s of the record not drawn', name)
        ctx.count('long section', int(np.sum(~np.isnan(y))))
    if aoi is not None:
        a = fr['axes'][0]
        need(np.allclose(a['xlim'] + a['ylim'], aoi, atol=1e-4), 'area of interest %s, shown %s', aoi, a['xlim'] + a['ylim'])


def same_frames(a, b, mirror=False):
    """text describing the first difference, or None"""
    if len(a['axes']) != len(b['axes']):
        return 'number of axes'
    for p, q in zip(a['axes'], b['axes']):
        if not mirror and (p['left'], p['mid'], p['right'], a['sup']) != (q['left'], q['mid'], q['right'], b['sup']):
            return 'labels %s and %s' % ((p['left'], p['mid'], p['right'], a['sup']), (q['left'], q['mid'], q['right'], b['sup']))
        for what in ('lines', 'polys'):
            A = [(l[0],) + tuple(l[1:3]) if what == 'lines' else (l[0], l[1][:, 0], l[1][:, 1]) for l in p[what]]
            B = [(l[0],) + tuple(l[1:3]) if what == 'lines' else (l[0], l[1][:, 0], l[1][:, 1]) for l in q[what]]
            if len(A) != len(B):
                return 'number of ' + what
            for (la, xa, ya), (lb, xb, yb) in zip(A, B):
                xa, ya, xb, yb = xa.ravel(), ya.ravel(), xb.ravel(), yb.ravel()
                if mirror:
                    s = lambda x, y: np.array(sorted((round(float(u), 4) + 0., round(float(v), 4) + 0.) for u, v in zip(x, y)
                                                     if not (np.isnan(u) or np.isnan(v))) or [(0, 0)])
                    u, v = s(-xa, ya), s(xb, yb)
                    # closing points of polygons may repeat
                    u, v = np.unique(u, axis=0), np.unique(v, axis=0)
                    # the same places, whatever the rounding of the sort
                    if not (all(np.min(np.abs(v - w).max(1)) < 2e-3 for w in u) and all(np.min(np.abs(u - w).max(1)) < 2e-3 for w in v)):
                        far = [tuple(w) for w in u if np.min(np.abs(v - w).max(1)) >= 2e-3] or [tuple(w) for w in v if np.min(np.abs(u - w).max(1)) >= 2e-3]
                        return '%s %r at %s' % (what[:-1], la, far[0])
                elif xa.shape != xb.shape or ya.shape != yb.shape or not (np.array_equal(xa, xb, equal_nan=True) and np.array_equal(ya, yb, equal_nan=True)):
                    return '%s %r' % (what[:-1], la)
    return None


def tied(S):
    """the outlet is on a transect line or straight out: sides are a convention"""
    if S.closed:
        return False
    X = S.X
    oix = ref.outlet_transects(X, S.endx)
    if not oix:
        return True
    w = S.Y[oix[0], 1] - S.Y[oix[0], 2]
    p = [S.endx[0] - w / 2, S.endx[0] + w / 2, S.endx[1] - S.endw / 2, S.endx[1] + S.endw / 2]
    if any(np.min(np.abs(X - x)) < 1e-3 for x in p):
        return True
    return abs(p[0] - p[2]) < 1e-3 or abs(p[1] - p[3]) < 1e-3 or abs(S.endx[0] - S.endx[1]) < 1e-3


def run(case, ctx):
    s = case['scn']
    D = common.dense(ctx, s, dict(solver=case.get('solver', [])))
    if D is None:
        return
    solves = max(1, D.r['solves'])
    out = os.path.join(D.r['wd'], s['out']['OutFile'])
    src = dict(end=out)
    if any(m['src'] == 'reader' for m in case['movies']):
        k = 1 + int([m['at'] for m in case['movies'] if m['src'] == 'reader'][0] * (solves - 1))
        q = ctx.sim(s, dict(solver=case.get('solver', []), snaps=[k]))
        p = '%s/.snap.%d.%s' % (q['wd'], k, s['out']['OutFile'][:-3])
        if os.path.exists(p):
            src['reader'] = p
    if any(m['src'] == 'killed' for m in case['movies']):
        k = 1 + int([m['at'] for m in case['movies'] if m['src'] == 'killed'][0] * (solves - 1))
        q = ctx.sim(s, dict(solver=case.get('solver', []), crash_solve=k))
        p = os.path.join(q['wd'], s['out']['OutFile'])
        if os.path.exists(p):
            src['killed'] = p
    if case.get('live'):
        live(ctx, case, D)
        if ctx.violations:
            return
    for mv in case['movies']:
        path = src.get(mv['src'], out)
        m = engine.read_rows(path)
        H = hist.history(m)
        N = len(H)
        one(ctx, case, mv, path, m, H, N, D.P)
        if ctx.violations:
            return


def one(ctx, case, mv, path, m, H, N, P):
    first = min(int(mv['first'] * N), N - 1)
    last = min(N, first + mv['n'] * mv['step'])
    give = None if mv['open_end'] and N - first <= 12 else (N + 3 if mv['past'] and N - first <= 12 else last)
    last = N if give is None or give > N else give
    want = list(range(first, last, mv['step']))
    X = H[0].X
    tx = float(X[0] + mv['x'] * (X[-1] - X[0]))
    if mv.get('near'):
        # a transect with something to see
        q = H[first]
        ix = np.where(~np.isnan(q.Y[:, 2]))[0] if mv['x'] < 0.6 else np.where(q.Y[:, 3] > q.Y[:, 4])[0]
        if ix.size:
            tx = float(min(max(X[ix[int((mv['x'] * 7) % 1 * ix.size)]] + (mv['x'] * 13 % 1 - 0.5) * 0.8 * (X[1] - X[0]), X[0]), X[-1]))
    aoi = None
    if mv['aoi']:
        aoi = dict(map=(-400., 400., -300., 100.), transect=(-120., 80., -6., 9.), long=(50., 900., -3., 8.))[mv['kind']]
    what = '%s movie of records %d to %d by %d of %d (%s)' % (mv['kind'], first, last, mv['step'], N, mv['src'])
    wd = ctx.dir()
    before = figures.hashed(path)
    fail = mv.get('fail_at')
    r = figures.movie(path, wd, first, give, mv['step'], mv['kind'], tx, aoi, fail)
    ctx.runs += 1
    ctx.count('movie')
    if figures.hashed(path) != before:
        ctx.bad('changed', '%s: the result file was changed' % what)
        return
    if fail is not None and fail < len(want):
        ctx.fire('movie writer fails')
        if r['status'] == 'ok':
            ctx.bad('swallowed', '%s: ends normally although frame %d could not be written' % (what, fail))
            return
        want = want[:fail]
        if r.get('exc') != 'Fault':
            ctx.bad('movie', '%s: %s %s' % (what, r['status'], r.get('err', '')))
            return
    elif r['status'] != 'ok':
        ctx.bad('movie', '%s: %s %s %s; record %d is %s' % (what, r['status'], r.get('err', ''), r.get('where', ''), first, 'closed' if H[first].closed else 'open'))
        return
    fr = r['frames']
    if len(fr) != len(want):
        ctx.bad('frames', '%s: %d frames, should be %d' % (what, len(fr), len(want)))
        return
    zero = scenario.EPOCH + timedelta(seconds=common.units_epoch(m))
    for f, k in zip(fr, want):
        S = H[k]
        ctx.count('frame')
        w = '%s, frame of record %d (%s)' % (what, k, 'closed' if S.closed else 'open, end %.2f %.2f' % tuple(S.endx))
        try:
            need(label_ok(f, zero + timedelta(seconds=S.t)), 'not labelled with its time %s: %s', zero + timedelta(seconds=S.t),
                 [f['sup']] + [a['right'] for a in f['axes']])
            if mv['kind'] == 'map':
                check_map(ctx, f, S, P, aoi)
            elif mv['kind'] == 'transect':
                check_transect(ctx, f, S, P, aoi, tx)
            else:
                check_long(ctx, f, S, P, aoi)
        except Bad as e:
            ctx.bad('content', '%s: %s' % (w, e))
            return
    if not want:
        return
    k = want[-1]
    if mv['alone']:
        q = figures.movie(path, wd, k, k + 1, 1, mv['kind'], tx, aoi)
        ctx.runs += 1
        ctx.count('alone')
        d = 'status %s %s' % (q['status'], q.get('err', '')) if q['status'] != 'ok' or len(q['frames']) != 1 else same_frames(q['frames'][0], fr[-1])
        if d:
            ctx.bad('history', '%s: the frame of record %d differs from that of a movie of this record alone: %s' % (what, k, d))
            return
    if mv['mirror'] and mv['kind'] == 'map' and not tied(H[k]):
        p = os.path.join(wd, 'mirror.nc')
        mirror_file(path, p)
        q = figures.movie(p, wd, k, k + 1, 1, 'map')
        ctx.runs += 1
        ctx.count('mirror')
        d = 'status %s %s' % (q['status'], q.get('err', '')) if q['status'] != 'ok' or len(q['frames']) != 1 else same_frames(q['frames'][0], fr[-1], True)
        if d:
            ctx.bad('mirror', '%s: the map of record %d is not the reflection of the map of the mirrored file: %s; end %s' % (what, k, d, H[k].endx))


def live(ctx, case, D):
    """what the plots of a running model show"""
    s = scenario.json.loads(scenario.json.dumps(case['scn']))
    s['out']['PlotInt'] = case['live']
    r = ctx.sim(s, dict(solver=case.get('solver', []), plots=True), cpu=300)
    if common.died(ctx, r, 'run with live plots'):
        return
    ctx.fire('live plotting')
    t = D.m['time'] - D.m['time'][0]
    due, at_ = case['live'], [0]
    for k in range(1, t.size):
        if t[k] >= due - 1e-6:
            if abs(t[k] - due) < 1e-3 and t[k] < due:
                ctx.probe('plot due within rounding of a step')
                return
            at_.append(k)
            due += case['live']
    figs = {}
    for n, c, f in r['plots']:
        y = [a['ylabel'] for a in f['axes']]
        kind = 'map' if 'Cross-shore distance (m)' in y else 'long' if 'Width [m]' in y else 'bdy' if 'Water level [m]' in y else None
        figs.setdefault(kind, {})[c] = f
    for kind in ('map', 'long', 'bdy'):
        fs = [f for c, f in sorted(figs.get(kind, {}).items())]
        want = at_[1:] if kind == 'bdy' else at_
        if len(fs) != len(want):
            ctx.bad('frames', 'live %s plots every %g s: drawn %d times, should be %d (steps %s)' % (kind, case['live'], len(fs), len(want), want[:12]))
            return
        for j, (f, k) in enumerate(zip(fs, want)):
            ctx.count('live ' + kind)
            w = 'live %s plot after step %d of %d (%s)' % (kind, k, t.size - 1, 'closed' if D.H[k].closed else 'open, end %.2f %.2f' % tuple(D.H[k].endx))
            try:
                if kind == 'map':
                    live_map(ctx, f, D, k)
                elif kind == 'long':
                    live_long(ctx, f, D, k)
                else:
                    live_bdy(ctx, f, D, [0] + want[:j + 1])
            except Bad as e:
                ctx.bad('content', '%s: %s' % (w, e))
                return


def live_map(ctx, f, D, k):
    S = D.H[k]
    ls = lines_of(f)
    for i in range(S.X.size):
        need(at(ls, S.X[i], S.Y[i, 0], 1e-9), 'shoreline of transect %d (%g, %g) not drawn', i, S.X[i], S.Y[i, 0])
        need(at(ls, S.X[i], S.Z[i, 0], 1e-9), 'crest of transect %d (%g, %g) not drawn', i, S.X[i], S.Z[i, 0])
        for c in (1, 2):
            if not np.isnan(S.Y[i, c]):
                need(at(ls, S.X[i], S.Y[i, c], 1e-9), 'bank %d of transect %d (%g, %g) not drawn', c, i, S.X[i], S.Y[i, c])
        if abs(S.X[i]) >= D.P.RiverWidth / 2:
            need(at(ls, S.X[i], S.Y[i, 4], 1e-9), 'cliff of transect %d (%g, %g) not drawn', i, S.X[i], S.Y[i, 4])
        if S.closed and (k == 0 or D.H[k - 1].closed):
            need(at(ls, S.X[i], S.Y[i, 3], 1e-9), 'lagoon edge of transect %d (%g, %g) not drawn', i, S.X[i], S.Y[i, 3])


def live_long(ctx, f, D, k):
    if k == 0:
        return
    c = ref.assemble(D.H[k - 1], D.P)
    st = hist.Step(D.H[k - 1], D.H[k], D.P, c)
    if not st.agree or st.lost:
        return
    dist = np.concatenate([[0.], np.cumsum(c.dx)])
    mid = (dist[1:] + dist[:-1]) / 2
    ls = lines_of(f)
    h, V = st.h, st.V
    for name, x, y in (('bed', dist, c.z), ('water level', dist, c.z + h), ('width', dist, c.B), ('velocity', dist, V), ('flow', dist, V * h * c.B),
                       ('bedload', mid, st.bl * 3600)):
        n = min(y.size, x.size)
        if name == 'bedload' and y.size != x.size:
            continue
        need(any(fits(l[1], l[2], x[:n], y[:n], 1e-5) for l in ls), '%s after the step not drawn', name)
        ctx.count('live long section', n)


def live_bdy(ctx, f, D, ks):
    ls = lines_of(f)
    T = common.abstime(D.ts)[ks] / 86400.
    y0 = (scenario.EPOCH - datetime(1970, 1, 1)).total_seconds() / 86400.
    T = T + y0
    for name, v in (('inflow', D.ts['river_flow'][ks]), ('sea level', D.ts['sea_level'][ks]), ('outflow', D.ts['lagoon_outflow'][ks])):
        v = np.array(v, float)
        if name == 'outflow':
            v[0] = np.nan                           # drawn as the inflow at the start
        need(any(fits(l[1], l[2], T, v, 1e-6, 1e-9) for l in ls), '%s of the steps so far not drawn', name)
