"""A small executable reference model: what one step has to do to the coast,
given the state at its start and the recorded water and transport rates.

It is written transect by transect from the documented rules, shares no code
with the model and is compared with the next record. Decisions that sit on an
exact tie may legitimately fall either way, so every comparison goes through a
tie-breaker: a prediction is only held against the model when no way of
breaking the ties reproduces the record."""
import math

import numpy as np

NaN = float('nan')


class Tie:
    """Comparisons with a tie-breaking bias, one per call site."""

    def __init__(self, mode=0):
        self.mode = mode

    def e(self, site):
        m = self.mode
        if m == 0:
            return 0.
        if m == 1:
            return 1e-9
        if m == 2:
            return -1e-9
        return 1e-9 if (hash((site * 2654435761 + m * 40503) & 0xffff) >> (m % 5)) & 1 else -1e-9

    def ge(self, a, b, site=0):
        return a >= b - self.e(site)

    def gt(self, a, b, site=0):
        return a > b - self.e(site)

    def le(self, a, b, site=0):
        return a <= b + self.e(site)

    def lt(self, a, b, site=0):
        return a < b + self.e(site)


def outlet_transects(X, endx):
    """transects of the online outlet channel, from the lagoon to the sea"""
    if endx[0] < endx[1]:
        return [i for i in range(X.size) if endx[0] <= X[i] <= endx[1]]
    return [i for i in range(X.size - 1, -1, -1) if endx[1] <= X[i] <= endx[0]]


class Chan:
    pass


def assemble(S, P, tie=None):
    """The chain of cross-sections river - lagoon - outlet - end - sea that the
    water of state S flows through, and whether (and why) it is closed."""
    tie = tie or Tie()
    X, Y, Z = S.X, S.Y, S.Z
    n = X.size
    x0 = int(np.argmin(np.abs(X)))
    c = Chan()
    c.why = []
    c.closed = S.closed
    c.outix = []
    if not S.closed:
        ix = outlet_transects(X, S.endx)
        w = [Y[i, 1] - Y[i, 2] for i in ix]
        for i, b in zip(ix, w):
            if not tie.gt(b, P.MinOutletWidth, 1):
                c.why.append(('channel', i))
        if not tie.gt(S.endw, P.MinOutletWidth, 2):
            c.why.append(('end', None))
        if not c.why:
            c.outix = ix
    c.closed = S.closed or bool(c.why)
    W = Y[:, 3] - Y[:, 4]
    e0 = S.endx[0]
    right = e0 >= 0
    step = 1 if right else -1
    # the part of the lagoon that carries the flow
    on = [x0]
    if c.closed:
        far = [i for i in range(n) if W[i] > 0]
        last = max(far) if right else min(far)
        on = list(range(x0, last + step, step))
    elif e0 != 0:
        i = x0 + step
        while 0 <= i < n and (X[i] < e0 if right else X[i] > e0):
            on.append(i)
            i += step
    beyond, blen = 0., 0.
    if not c.closed:
        for i in range(n):
            if (X[i] > e0) if right else (X[i] < e0):
                beyond += W[i] * P.Dx
                blen += P.Dx * (W[i] > 0)
    other = [i for i in range(n) if ((i < x0) if right else (i > x0))]
    behind = sum(W[i] * P.Dx for i in other)
    behindlen = sum(P.Dx for i in other if W[i] > 0)
    cut = None
    for j, i in enumerate(on):
        if tie.lt(W[i], P.MinOutletWidth, 3):
            cut = j
            break
    if cut is not None:
        if not c.closed:
            c.why.append(('lagoon', on[cut]))
        c.was_open = not c.closed
        # the outlet stays part of the picture only while it can be reached
        for i in on[cut:]:
            beyond += W[i] * P.Dx
            blen += P.Dx * (W[i] > 0)
        on = on[:cut]
        if not c.closed:
            c.outix_dropped = c.outix
            c.outix = []
        c.closed = True
    c.online = on
    c.x0 = x0
    nr, nl, no = S.riv.size, len(on), len(c.outix)
    c.nr, c.nl, c.no = nr, nl, no
    if nl == 0:
        return c
    ew, ez = S.endw, S.endz
    if c.closed:
        c.flag = np.array([0] * nr + [1] * nl)
        c.z = np.concatenate([S.riv, Z[on, 3]])
        c.B = np.concatenate([np.full(nr, P.RiverWidth), W[on]])
        c.dx = np.full(nr + nl - 1, P.Dx)
    else:
        o = c.outix
        c.flag = np.array([0] * nr + [1] * nl + [2] * no + [3, 4])
        c.z = np.concatenate([S.riv, Z[on, 3], Z[o, 1], [ez, min(P.MaxOutletElev, ez)]])
        c.B = np.concatenate([np.full(nr, P.RiverWidth), W[on], Y[o, 1] - Y[o, 2], [ew, ew]])
        c.dx = np.full(nr + nl + no + 1, P.Dx)
        c.dx[-2] += abs(S.endx[1] - S.X[o[-1]]) if no else 0.
    c.area = np.zeros(c.z.size)
    c.area[nr] += behind
    c.area[nr + nl - 1] += beyond
    c.len = np.where(c.flag == 1, P.Dx, 0.)
    c.len[nr] += behindlen
    c.len[nr + nl - 1] += blen
    return c


class Rates:
    pass


def sediment_rates(S, c, P, bl, aspect, lst, cst, ow):
    """Rates of change of everything that can move, from the transport rates.
    aspect: width/depth of each cross-section except the upstream one (and the
    dummy one in the sea)."""
    X, Y, Z, Dx = S.X, S.Y, S.Z, P.Dx
    n = X.size
    r = Rates()
    r.Y, r.Z = np.zeros((n, 5)), np.zeros((n, 4))
    r.widen = r.agg = r.move = 0.
    has = ~np.isnan(Y[:, 1])
    face = P.ClosureDepth + Z[:, 0]
    crestw = np.where(has, Y[:, 0] - Y[:, 1], Y[:, 0] - Y[:, 3])
    backh = np.where(has, Z[:, 0] - Z[:, 1], Z[:, 0] - Z[:, 3])
    bank = np.where(has, Z[:, 2], Z[:, 0])
    r.crestw, r.backh, r.face, r.has = crestw, backh, face, has
    # --- the river: what arrives minus what leaves each cross-section
    flag = c.flag[1:] if c.closed else c.flag[1:-1]
    out = np.append(bl[1:], 0.) if c.closed else bl[1:]
    gain = (bl if c.closed else bl[:-1]) - out
    r.riv = np.zeros(c.nr)
    for j in range(gain.size):
        dep, ero = max(gain[j], 0.), max(-gain[j], 0.)
        wide = aspect[j] > P.WidthDepthRatio
        bedero, bankero = (ero, 0.) if wide else (0., ero)
        node = j + 1
        if flag[j] == 0:
            r.riv[node] = (dep - ero) / (P.RiverWidth * Dx)
        elif flag[j] == 1:
            i = c.online[node - c.nr]
            r.Z[i, 3] += (dep - bedero) / ((Y[i, 3] - Y[i, 4]) * Dx)
            r.Y[i, 3] += bankero / 2 / ((bank[i] - Z[i, 3]) * Dx)
            r.Y[i, 4] -= bankero / 2 / ((P.BackshoreElev - Z[i, 3]) * Dx)
        elif flag[j] == 2:
            i = c.outix[node - c.nr - c.nl]
            r.Z[i, 1] += (dep - bedero) / ((Y[i, 1] - Y[i, 2]) * Dx)
            r.Y[i, 1] += bankero / 2 / ((Z[i, 0] - Z[i, 1]) * Dx)
            r.Y[i, 2] -= bankero / 2 / ((Z[i, 2] - Z[i, 1]) * Dx)
        else:
            r.agg = (dep - bedero) / (S.endw * Dx)
            w = bankero / (max(P.BeachTopElev - S.endz, 0.01) * P.SpitWidth)
            r.widen += w
            if S.endx[0] < S.endx[1]:
                r.move += w / 2 * P.OutletBankEroFac
            elif S.endx[0] > S.endx[1]:
                r.move -= w / 2 * P.OutletBankEroFac
    # --- the shore: longshore supply, cross-shore loss, river sediment
    for i in range(1, n - 1):
        r.Y[i, 0] += (lst[i - 1] - lst[i]) / (face[i] * Dx)
    if not c.closed:
        for i in range(n):
            near = max(1 - abs(X[i] - S.endx[1]) / P.OutletSedSpreadDist, 0.)
            r.Y[i, 0] += bl[-1] * near / P.OutletSedSpreadDist / face[i]
        # the outlet mouth catches what would have bypassed it
        q = next(i for i in range(n) if X[i] > S.endx[1])
        g = lst[q - 1]
        side = q if g > 0 else q - 1
        r.Y[side, 0] -= abs(g) / (face[side] * Dx)
        narrow = abs(g) / (max(P.BeachTopElev - S.endz, 0.01) * P.SpitWidth)
        r.widen -= narrow
        r.move += narrow / 2 if g > 0 else -narrow / 2
    for i in range(n):
        r.Z[i, 0] += (1 - ow[i]) * cst[i] / crestw[i]
        r.Y[i, 1 if has[i] else 3] -= ow[i] * cst[i] / backh[i]
        if 0 < i < n - 1:
            r.Y[i, 0] -= cst[i] / face[i]
    r.Y[0, 0] = r.Y[-1, 0] = -P.ShorelineErosionRate / (365.25 * 86400)
    with np.errstate(invalid='ignore'):
        r.fastest = max(np.nanmax(np.abs(v)) if np.size(v) else 0. for v in (r.riv, r.Y, r.Z, r.widen, r.agg, r.move))
        one = {'river aggradation': np.max(r.riv), 'river scour': np.max(-r.riv), 'outlet end aggradation': r.agg, 'outlet end scour': -r.agg,
               'outlet end widening': r.widen, 'outlet end narrowing': -r.widen, 'outlet end migration': abs(r.move)}
        for nm, v in (('shoreline', r.Y[:, 0]), ('outlet banks', r.Y[:, 1:3]), ('lagoon banks', r.Y[:, 3:]), ('crest', r.Z[:, 0]),
                      ('outlet bed', r.Z[:, 1]), ('lagoon bed', r.Z[:, 3])):
            one[nm + ' up'], one[nm + ' down'] = np.nanmax(v), np.nanmax(-v)
        r.what = max((k for k in one if not np.isnan(one[k])), key=lambda k: one[k])
    r.nan = any(np.any(np.isnan(v)) for v in (r.riv, r.Y, r.Z, r.widen, r.agg, r.move))
    return r


def timestep(prev, left, fastest, P, tie=None):
    """Length of the step, from the one before it and the time left."""
    tie = tie or Tie()
    dt = min(prev, left)
    top = min(P.MorDtMax, left)
    while dt > P.MorDtMin and tie.gt(fastest * dt, P.MaxMorChange, 10):
        dt = max(dt / 2, P.MorDtMin)
    while dt * 2 <= top and tie.lt(fastest * dt, P.MaxMorChange / 2, 11):
        dt *= 2
    return dt


class After:
    pass


def advance(S, c, P, r, dt, lag_wl, out_dep, tie=None):
    """Apply rates for dt and the adjustments that follow. Returns the
    predicted coast and what happened (names of the rules that fired)."""
    tie = tie or Tie()
    X, Dx = S.X, P.Dx
    n = X.size
    x0 = c.x0
    lim = P.MaxMorChange / dt if r.fastest * dt > P.MaxMorChange else math.inf
    clip = lambda v: np.clip(v, -lim, lim)
    A = After()
    A.did = []
    did = A.did.append
    if lim < math.inf:
        did('capped')
    Y = S.Y + clip(r.Y) * dt
    Z = S.Z + clip(r.Z) * dt
    riv = S.riv + clip(r.riv) * dt
    endx, endw, endz = S.endx.copy(), S.endw, S.endz
    # before the beds change
    open_ = [tie.gt(S.Y[i, 3] - S.Y[i, 4], P.MinOutletWidth, 20) for i in range(n)]
    wl = np.array([lag_wl[i] if S.Y[i, 3] > S.Y[i, 4] else -9999.9 for i in range(n)])
    if not c.closed:
        endw += float(clip(r.widen)) * dt
        endz += float(clip(r.agg)) * dt
        endx[1] += float(clip(r.move)) * dt
        for i in c.outix:
            wl[i] = out_dep[i] + S.Z[i, 1]
    has = r.has.copy()
    out = list(c.outix)
    # 1 stay inside the domain
    if endx[1] < X[1]:
        endx[1] = X[1]
        did('edge')
    if endx[1] > X[-2]:
        endx[1] = X[-2]
        did('edge')
    # 2 shoreline against cliff
    for i in range(n):
        if tie.le(Y[i, 0], Y[i, 4], 30):
            did('cliff')
            over = Y[i, 4] - Y[i, 0] + 0.001
            back = over / (1 + (P.BackshoreElev - Z[i, 0]) / r.face[i])
            Y[i, 4] -= back
            Y[i, 3] = Y[i, 4]
            Y[i, 0] += over - back
    # 3 overwash overfilled a channel
    for i in range(n):
        if has[i] and tie.lt(Y[i, 1], Y[i, 2], 31):
            width = Y[i, 2] - Y[i, 1]
            vol = width * r.backh[i]
            diff = Z[i, 2] - Z[i, 0]
            room = diff * r.crestw[i] if diff >= 0 else -diff * (Y[i, 2] - Y[i, 3])
            Y[i, 1] += width
            if tie.gt(vol, room, 32):
                did('levelled')
                Z[i, 0] = max(Z[i, 0], Z[i, 2]) + (vol - room) / (Y[i, 0] - Y[i, 3])
                Y[i, 1] = Y[i, 2] = Z[i, 1] = Z[i, 2] = NaN
                has[i] = False
            elif diff >= 0:
                did('fill front')
                Z[i, 0] += vol / r.crestw[i]
            else:
                did('fill back')
                Z[i, 2] += vol / (Y[i, 2] - Y[i, 3])
    # 4 the spit grew past a transect
    if not c.closed:
        toright = endx[0] < endx[1]
        last = out[-1]
        new = [i for i in range(n) if (X[last] < X[i] <= endx[1] if toright else X[last] > X[i] >= endx[1])]
        if new:
            did('elongated R' if toright else 'elongated L')
            for i in new:
                Y[i, 1] = Y[i, 0] - P.SpitWidth
                Y[i, 2] = Y[i, 1] - endw
                Z[i, 1] = endz
                Z[i, 2] = Z[i, 0]
                Z[i, 0] = P.BeachTopElev
            out = outlet_transects(X, endx)
        # 5 sea against the first channel transect
        i = out[0]
        if tie.ge(Y[i, 1], Y[i, 0], 33):
            did('shift first')
            d = 0.001 + Y[i, 1] - Y[i, 0]
            Y[i, 1] -= d
            Y[i, 2] -= d * (Z[i, 0] - Z[i, 1]) / (Z[i, 2] - Z[i, 1])
    # 6 lagoon against the channel
    if len(out) > 1:
        hit = [i for i in out[:-1] if tie.le(Y[i, 2], Y[i, 3], 34)]
        if hit:
            did('truncated lagoonward')
            toright = endx[0] < endx[1]
            i = hit[-1]
            endx[0] = X[i + 1] if toright else X[i - 1]
            out = outlet_transects(X, endx)
            if tie.le(Y[i, 2], Y[i, 4], 35):
                lag = [j for j in range(n) if Y[j, 3] > Y[j, 4]]
                ext = range(lag[-1] + 1, i + 1) if X[i] > 0 else range(i, lag[0])
                if len(ext):
                    did('lagoon extended')
                for j in ext:
                    Y[j, 3] = Y[j, 1]
                    Z[j, 3] = Z[j, 1]
                    Y[j, 1] = Y[j, 2] = Z[j, 1] = Z[j, 2] = NaN
                    has[j] = False
    # 7 sea against the channel
    if len(out) > 1 and any(tie.ge(Y[i, 1], Y[i, 0], 36) for i in out[1:]):
        did('truncated seaward')
        toright = endx[0] < endx[1]
        i = [i for i in out if tie.ge(Y[i, 1], Y[i, 0], 36)][0]
        endx[1] = X[i] - Dx / 2 if toright else X[i] + Dx / 2
        out = outlet_transects(X, endx)
    # 8 lagoon against the last channel transect
    if not c.closed:
        i = out[-1]
        if tie.ge(Y[i, 3], Y[i, 2], 37):
            did('shift last')
            Y[i, 3] = Y[i, 2] - 0.0001
            if tie.lt(Y[i, 3], Y[i, 4], 38):
                did('shift cliff')
                over = Y[i, 4] - Y[i, 3]
                back = over / (1 + (P.BackshoreElev - Z[i, 2]) / (Z[i, 2] - Z[i, 1]))
                Y[i, 4] -= back
                Y[i, 2] += over - back
                Y[i, 3] += over - back
    return finish(S, c, P, r, dt, tie, A, Y, Z, riv, endx, endw, endz, open_, wl, has, out)


def finish(S, c, P, r, dt, tie, A, Y, Z, riv, endx, endw, endz, open_, wl, has, out):
    """What happens to channels that are not carrying the flow, and breaches."""
    X = S.X
    n, x0 = X.size, c.x0
    did = A.did.append
    # a channel the lagoon has reached becomes lagoon
    for i in range(n):
        if not np.isnan(Y[i, 1]) and tie.le(Y[i, 2], Y[i, 3], 40):
            did('merged')
            w, lw = Y[i, 1] - Y[i, 2], Y[i, 3] - Y[i, 4]
            Z[i, 3] = (w * Z[i, 1] + lw * Z[i, 3]) / (Y[i, 1] - Y[i, 4])
            Y[i, 3] += w
            Y[i, 1] = Y[i, 2] = Z[i, 1] = Z[i, 2] = NaN
            has[i] = False
    # channel transects the lagoon water can get to
    with np.errstate(invalid='ignore'):
        wide = [bool(has[i]) and tie.ge(Y[i, 1] - Y[i, 2], P.MinOutletWidth, 41) for i in range(n)]
    conn = None
    if not c.closed:
        conn = [min(out), max(out)]
    elif not np.isnan(endx[0]):
        i = int(np.argmin(np.abs(X - endx[0])))
        if wide[i] and all(open_[min(i, x0):max(i, x0) + 1]):
            conn = [i, i]
        else:
            did('relic cut off')
            endx[0] = NaN
    linked = [False] * n
    if conn:
        while wide[conn[0] - 1]:
            wl[conn[0] - 1] = wl[conn[0]]
            conn[0] -= 1
        while wide[conn[1] + 1]:
            wl[conn[1] + 1] = wl[conn[1]]
            conn[1] += 1
        for i in range(conn[0], conn[1] + 1):
            linked[i] = True

    def reach(i):
        """transects between the river and i are open lagoon"""
        if i == x0:
            return True
        return all(open_[j] for j in (range(x0 + 1, i + 1) if i > x0 else range(i, x0)))
    breach = None
    # the sea reached a channel that carries no flow
    hit = [i for i in range(n) if not np.isnan(Y[i, 1]) and tie.le(Y[i, 0], Y[i, 1], 42)]
    if hit:
        cand = [i for i in hit if linked[i]]
        if c.closed and cand:
            breach = min(cand, key=lambda i: (abs(X[i] - endx[0]), i))
            did('relic breach')
        for i in hit:
            did('filled')
            Y[i, 0] -= (Y[i, 1] - Y[i, 2]) * (Z[i, 2] - Z[i, 1]) / (Z[i, 2] + P.ClosureDepth)
            Y[i, 1] = Y[i, 2] = Z[i, 1] = NaN
            has[i] = False
            Z[i, 0], Z[i, 2] = Z[i, 2], NaN
    # barrier gone between lagoon and sea
    gone = [i for i in range(n) if tie.ge(Y[i, 3], Y[i, 0], 43) and Y[i, 3] > Y[i, 4]]
    if gone:
        cand = [i for i in gone if reach(i)]
        if breach is None and cand:
            i = min(cand, key=lambda i: (abs(X[i]), i))
            if c.closed or abs(X[i]) < abs(endx[0]):
                breach = i
                did('erosion breach')
        for i in gone:
            if i == breach and 'erosion breach' in A.did:
                continue
            did('restored')
            over = 0.001 + Y[i, 3] - Y[i, 0]
            sea = over / (1 + r.face[i] / (Z[i, 0] - Z[i, 3]))
            Y[i, 0] += sea
            Y[i, 3] -= over - sea
    # water over the barrier
    crest = np.array([Z[i, 0] if linked[i] or not has[i] else max(Z[i, 0], Z[i, 2]) for i in range(n)])
    if breach is None:
        spill = [i for i in range(n) if tie.lt(crest[i], wl[i], 44)]
        if spill:
            open_[:] = [tie.gt(Y[i, 3] - Y[i, 4], P.MinOutletWidth, 45) for i in range(n)]
            cand = [i for i in spill if linked[i] or reach(i)]
            if not c.closed:
                near = np.min(np.abs(endx))
                cand = [i for i in cand if (abs(X[i] - endx[0]) < abs(endx[1] - endx[0]) if linked[i] else abs(X[i]) < near)]
            if cand:
                breach = max(cand, key=lambda i: (wl[i] - crest[i], -i))
                did('spill breach')
            else:
                did('spill elsewhere')
    A.breach = breach
    if breach is not None:
        i = breach
        endx[:] = X[i]
        Z[i, 2] = Z[i, 0]
        endw = max(endw, 2 * P.MinOutletWidth)
        Y[i, 1] = min(Y[i, 0] - P.SpitWidth, (Y[i, 0] + Y[i, 3]) / 2 + endw / 2)
        Y[i, 2] = Y[i, 1] - endw
        endz = min(endz, P.MaxOutletElev)
        Z[i, 1] = 0.5 * endz + 0.5 * Z[i, 3]
        if Y[i, 3] >= Y[i, 2]:
            did('breach into lagoon')
            Y[i, 3] = Y[i, 2] - 0.001
        if Y[i, 4] >= Y[i, 2]:
            did('breach into cliff')
            Y[i, 4] = Y[i, 2] - 0.001
    if tie.lt(Y[x0, 3] - Y[x0, 4], P.MinOutletWidth, 46):
        did('kept open at river')
        Y[x0, 4] = Y[x0, 3] - P.MinOutletWidth - 0.001
    A.Y, A.Z, A.riv, A.endx, A.endw, A.endz = Y, Z, riv, endx, endw, endz
    A.closed = c.closed and breach is None
    return A


def differences(A, b, tol=1e-6):
    """[(what, transect or None, predicted, recorded)] between a prediction
    and the record."""
    out = []

    def cmp(what, x, y):
        x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
        bad = ~((np.abs(x - y) <= tol * (1 + np.abs(y))) | (np.isnan(x) & np.isnan(y)))
        for j in np.where(bad)[0]:
            out.append((what, int(j), float(x[j]), float(y[j])))
    for j, nm in enumerate(('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y')):
        cmp(nm, A.Y[:, j], b.Y[:, j])
    for j, nm in enumerate(('barrier_crest_z', 'outlet_bed_z', 'inner_barrier_crest_z', 'lagoon_bed_z')):
        cmp(nm, A.Z[:, j], b.Z[:, j])
    cmp('river_bed_z', A.riv, b.riv)
    cmp('outlet_end_x', A.endx, b.endx)
    cmp('outlet_end_width', A.endw, b.endw)
    cmp('outlet_end_z', A.endz, b.endz)
    if A.closed != b.closed:
        out.append(('outlet_closed', None, float(A.closed), float(b.closed)))
    return out


def step_variants(st, P, lost):
    """Tie-breaking and unrecorded-value variants to try, the plain one first."""
    for mode in range(8):
        for w in ((None,) if not lost else (False, True)):
            yield Tie(mode), w


def check_step(st, prev_dt, left, P):
    """Hold one recorded step against the reference. Returns (ok, detail, A, r, dt)"""
    a, b = st.a, st.b
    first = None
    for tie, w in step_variants(st, P, st.lost):
        c = st.ch if tie.mode == 0 else assemble(a, P, tie)
        if tie.mode and (c.closed != st.closed or len(c.online) != len(st.ch.online)):
            continue
        h = st.h.copy()
        asp = c.B / np.where(np.isnan(h), 1., h)
        if w is not None:
            asp[np.isnan(h)] = 1e9 if w else 0.
        asp = asp[1:] if c.closed else asp[1:-1]
        if tie.mode:
            asp = asp * (1 + tie.e(12))
        with np.errstate(all='ignore'):
            r = sediment_rates(a, c, P, st.bl, asp, b.lst, b.cst, b.ow)
            dt = timestep(prev_dt, left, r.fastest, P, tie)
            od = np.full(a.X.size, np.nan)
            if not c.closed:
                o = c.outix
                od[o] = h[c.nr + c.nl:-2]
                od[np.isnan(od)] = -1e4
            A = advance(a, c, P, r, dt, b.lag_wl, od, tie)
        d = differences(A, b)
        dtrec = b.t - a.t
        if abs(dt - dtrec) > 1e-6:
            d.insert(0, ('timestep', None, dt, dtrec))
        if not d:
            return True, None, A, r, dt
        if first is None:
            first = (False, d, A, r, dt)
    return first
