"""Independent statement of the water equations: box scheme for the unsteady
flow, energy line for the steady profile."""
import numpy as np


def before(st):
    """water in the chain of cross-sections at the start of the step, from the
    record before it; missing values interpolated along the chain"""
    a, c = st.a, st.ch
    L, O = c.online, c.outix
    h = np.concatenate([a.riv_wl - a.riv, a.lag_wl[L] - a.Z[L, 3]])
    V = np.concatenate([a.riv_vel, a.lag_vel[L]])
    if c.closed:
        V[-1] = 0.
    else:
        h = np.concatenate([h, a.out_wl[O] - a.Z[O, 1], [a.end_wl - a.endz, a.dum_dep]])
        V = np.concatenate([V, a.out_vel[O], [a.end_vel, a.dum_vel]])
    missing = int(np.sum(np.isnan(h)) + np.sum(np.isnan(V)))
    j = np.arange(h.size)
    g = ~np.isnan(h)
    h = np.where(g, h, np.interp(j, j[g], h[g]))
    g = ~np.isnan(V)
    q = V * h
    V = np.where(g, V, np.interp(j, j[g], q[g]) / h)
    return h, V, missing


class Balance:
    pass


def balance(st, P, dt, h0, V0, h1, V1):
    """What is left over of mass and momentum in each reach, and of the whole
    water body, after one hydraulic step of length dt."""
    c = st.ch
    z, B, dx, g, th = c.z, c.B, c.dx, P.Gravity, P.Theta
    r = Balance()
    N = z.size
    # seepage: per unit length and head, over the length of lagoon each reach stands for
    half = np.zeros(N - 1)
    half += (c.len[:-1] + c.len[1:]) / 2
    half[0] += c.len[0] / 2
    half[-1] += c.len[-1] / 2
    sea1 = st.b.sea
    sea0 = sea1 if c.closed else z[-1] + h0[-1]
    lvl = lambda h: z + h
    mean = lambda v: (v[:-1] + v[1:]) / 2
    head = th * (mean(lvl(h1)) - sea1) + (1 - th) * (mean(lvl(h0)) - sea0)
    # (constant part of the head is taken in full)
    r.seep = P.BarrierPermeability * half * head
    # storage: rectangular channel plus offline lagoon attached to its node
    reach = np.zeros(N)
    reach[:-1] += dx / 2
    reach[1:] += dx / 2
    W = B + c.area / reach
    Q0, Q1 = V0 * h0 * B, V1 * h1 * B
    store = dx / 2 * (W[:-1] * (h1 - h0)[:-1] + W[1:] * (h1 - h0)[1:])
    out = dt * (th * (Q1[1:] - Q1[:-1]) + (1 - th) * (Q0[1:] - Q0[:-1]))
    r.mass = store + out + dt * r.seep
    r.area = dx / 2 * (W[:-1] + W[1:])
    r.level = r.mass / r.area                       # as a depth (m)
    vol = lambda h: float(np.sum(h * B * reach) + np.sum(h * c.area))
    r.volume = vol(h1) - vol(h0)
    r.inout = dt * (th * (Q1[0] - Q1[-1]) + (1 - th) * (Q0[0] - Q0[-1])) - dt * float(np.sum(r.seep))
    r.total = r.volume - r.inout
    # momentum: change of discharge, advection, surface slope, friction
    A0, A1 = h0 * B, h1 * B
    S0 = (z[:-1] - z[1:]) / dx
    sf = lambda h, V: V * np.abs(V) * P.RoughnessManning ** 2 / h ** (4. / 3.)

    def forces(h, V, A):
        adv = P.Beta * (V[1:] * np.abs(V[1:]) * A[1:] - V[:-1] * np.abs(V[:-1]) * A[:-1]) / dx
        press = g * mean(A) * (h[1:] - h[:-1]) / dx
        fr = sf(h, V)
        grav = g * (A[1:] * (S0 - fr[1:]) + A[:-1] * (S0 - fr[:-1])) / 2
        return adv + press - grav
    r.mom = mean(Q1) - mean(Q0) + dt * (th * forces(h1, V1, A1) + (1 - th) * forces(h0, V0, A0))
    r.vel = r.mom / mean(A1)                        # as a velocity (m/s)
    r.Q1 = Q1
    return r


class _At:
    pass


def advance(c, P, dt, h0, V0, flow, sea):
    """water after one hydraulic step on the chain c; None where the equations
    could not be solved"""
    st, N = _At(), c.z.size
    st.ch, st.b = c, _At()
    st.b.sea = sea

    def res(h, V):
        r = balance(st, P, dt, h0, V0, h, V)
        return np.concatenate([[V[0] * h[0] * c.B[0] - flow], r.level, r.vel, [V[-1] if c.closed else c.z[-1] + h[-1] - sea]])
    h, V = h0.copy(), V0.copy()
    # reach j depends on nodes j and j+1 only: every second node can be moved at once
    own = {}
    for i in range(N):
        q = []
        if i == 0:
            q.append(0)
        for j in (i - 1, i):
            if 0 <= j < N - 1:
                q += [1 + j, N + j]
        if i == N - 1:
            q.append(2 * N - 1)
        own[i] = np.array(q)
    with np.errstate(all='ignore'):
        f = res(h, V)
        for it in range(40):
            J = np.zeros((2 * N, 2 * N))
            for v in (0, 1):
                for odd in (0, 1):
                    d = np.zeros(N)
                    d[odd::2] = 1e-7 * (1 + np.abs((h, V)[v][odd::2]))
                    g = res(h + d, V) if v == 0 else res(h, V + d)
                    for i in range(odd, N, 2):
                        J[own[i], v * N + i] = (g - f)[own[i]] / d[i]
            try:
                step = np.linalg.solve(J, -f)
            except np.linalg.LinAlgError:
                return None
            h, V = h + step[:N], V + step[N:]
            if not (np.all(np.isfinite(h)) and np.all(np.isfinite(V)) and np.all(h > 1e-3)):
                return None
            f = res(h, V)
            if np.max(np.abs(step)) < 1e-9:
                return h, V
    return None


def usable(h, V):
    return bool(np.all(np.isfinite(h)) and np.all(np.isfinite(V)) and np.all(h > 2e-4) and np.all(V != 0.0001) and np.all(V != 0))


def steady_faults(c, P, h, V, flow, sea):
    """Everything that is wrong with (h, V) as the steady profile of the chain
    c for this flow and sea level: list of (what, node, got, expected)."""
    z, B, dx, g, beta = c.z, c.B, c.dx, 9.81, P.Beta
    tol = P.ErrTol
    bad = []
    q = flow / B
    for j in np.where(np.abs(V * h * B - flow) > 1e-6 * (1 + flow))[0]:
        bad.append(('discharge', int(j), float((V * h * B)[j]), flow))
    crit = (q * q / g) ** (1. / 3.)
    want = max(sea - z[-1], crit[-1])
    if abs(h[-1] - want) > 1e-6:
        bad.append(('downstream depth', z.size - 1, float(h[-1]), float(want)))
    sf = lambda d, b: (flow / (b * d)) ** 2 * P.RoughnessManning ** 2 / d ** (4. / 3.)
    E = lambda zz, d, b: zz + d + beta * (flow / (b * d)) ** 2 / (2 * g)
    ncrit = 0
    for i in range(z.size - 2, -1, -1):
        down = E(z[i + 1], h[i + 1], B[i + 1])
        res = lambda d: E(z[i], d, B[i]) - down - dx[i] * (sf(d, B[i]) + sf(h[i + 1], B[i + 1])) / 2
        low = crit[i] * max(beta, 1.) ** (1. / 3.)
        if abs(h[i] - crit[i]) < 1e-6:
            ncrit += 1
            if res(low) < -tol * (1 + 1e-6) - 1e-7:
                bad.append(('critical depth although a sub-critical one exists', i, float(h[i]), float(res(low))))
        elif abs(res(h[i])) <= tol * (1 + 1e-6) + 1e-7:
            if h[i] < low * (1 - 1e-6):
                bad.append(('super-critical depth', i, float(h[i]), float(low)))
        else:
            bad.append(('energy line', i, float(res(h[i])), 0.))
    return bad, ncrit
