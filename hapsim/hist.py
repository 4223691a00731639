"""The recorded history of a dense double-precision run, one State per step."""
import numpy as np


class Par:
    """Parameters of a scenario, with the derived ones worked out afresh."""

    def __init__(self, scn):
        p, n, t = scn['phys'], scn['num'], scn['time']
        self.__dict__.update(p)
        self.__dict__.update(n)
        self.HydDt, self.MorDtMin, self.MorDtMax = float(t['HydDt']), float(t['MorDtMin']), float(t['MorDtMax'])
        self.slope = (p['TargetBarHeight'] - p['BeachTopElev']) / (p['TargetBarWidth'] - p['SpitWidth'])
        self.intercept = p['BeachTopElev'] - self.slope * p['SpitWidth']


class State:
    """Everything one record says. Geometry, water and the rates of the step
    that led to it."""

    def __init__(self, m, k):
        g = lambda v: np.array(m[v][k], dtype=float)
        self.k = k
        self.t = float(m['time'][k])
        self.X = np.array(m['transect_x'], dtype=float)
        self.Y = np.stack([g(v) for v in ('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y')], 1)
        self.Z = np.stack([g(v) for v in ('barrier_crest_z', 'outlet_bed_z', 'inner_barrier_crest_z', 'lagoon_bed_z')], 1)
        self.riv = g('river_bed_z')
        self.endx = g('outlet_end_x')
        self.endw = float(m['outlet_end_width'][k])
        self.endz = float(m['outlet_end_z'][k])
        self.closed = bool(m['outlet_closed'][k])
        self.riv_wl, self.riv_vel = g('river_wl'), g('river_vel')
        self.lag_wl, self.lag_vel = g('lagoon_wl'), g('lagoon_vel')
        self.out_wl, self.out_vel = g('outlet_wl'), g('outlet_vel')
        self.end_wl, self.end_vel = float(m['outlet_end_wl'][k]), float(m['outlet_end_vel'][k])
        self.dum_dep, self.dum_vel = float(m['dummy_xs_dep'][k]), float(m['dummy_xs_vel'][k])
        self.riv_bl, self.lag_bl, self.out_bl = g('river_bedload'), g('lagoon_bedload'), g('outlet_bedload')
        self.end_bl = float(m['outlet_end_bedload'][k])
        self.lst = g('lst') / 3600
        self.cst = g('cst') / 3600
        self.ow = g('overwash_proportion')
        self.sea, self.flow = float(m['sea_level'][k]), float(m['river_flow'][k])
        self.hs, self.wdir = float(m['hs_offshore'][k]), float(m['wave_dir'][k])


def history(m):
    return [State(m, k) for k in range(m['time'].size)]


class Step:
    """One morphological step: from record k to record k+1 of a dense run,
    with the channel it was computed on rebuilt from both records."""

    def __init__(self, a, b, P, ch):
        self.a, self.b, self.ch = a, b, ch
        n = a.X.size
        self.closed = bool(np.isnan(b.end_wl))         # as the water model saw it
        on = np.where(~np.isnan(b.lag_vel))[0]
        oc = np.where(~np.isnan(b.out_vel))[0]
        self.rec_online, self.rec_out = set(on.tolist()), set(oc.tolist())
        self.agree = (self.closed == ch.closed and self.rec_online == set(ch.online) and self.rec_out == set(ch.outix))
        if not self.agree:
            return
        L, O = ch.online, ch.outix
        # water after the step, over the beds at its start
        self.h = np.concatenate([b.riv_wl - b.riv, b.lag_wl[L] - a.Z[L, 3]])
        self.V = np.concatenate([b.riv_vel, b.lag_vel[L]])
        if not self.closed:
            # outlet levels are recorded over the bed at the end of the step
            od = b.out_wl[O] - b.Z[O, 1]
            self.h = np.concatenate([self.h, od, [b.end_wl - b.endz, b.dum_dep]])
            self.V = np.concatenate([self.V, b.out_vel[O], [b.end_vel, b.dum_vel]])
        if self.closed:
            self.bl = np.concatenate([b.riv_bl, b.lag_bl[L[:-1]]])
        else:
            self.bl = np.concatenate([b.riv_bl, b.lag_bl[L], b.out_bl[O], [b.end_bl]])
        # an outlet transect that vanished during the step has no recorded depth
        self.lost = bool(np.any(np.isnan(self.h)))
