"""C16: unusable input."""
import hashlib
import os

import numpy as np

from .. import engine, gen as G, scenario
from . import common

COUNT = dict(quick=1200, thorough=16000)
LEVEL = 'exploration'
RULE = ('Each case damages one input of a valid deployment, with results of an earlier run in place and overwriting requested: configuration, '
        'forcing files, map layers or starting file missing, unreadable, torn at a drawn byte, with a drawn entry removed, garbled, swapped '
        'or out of range, or not covering the run. Every eighth case runs the undamaged inputs.')
NOTE = ('where a tear may leave everything needed in place, a run that ends with the results of the undamaged inputs is accepted as well; '
        'values out of any range that the configuration format states are not judged unless listed in the check.')
REAL = ['pyshp and configobj reading real files']

REQ = {'': ['ModelName'], 'BoundaryConditions': ['RiverFlow', 'WaveConditions', 'SeaLevel'],
       'InitialConditions': ['OutletWidth', 'OutletBed', 'LagoonBed', 'BarrierElev'],
       'Time': ['StartTime', 'EndTime', 'HydDt', 'MorDtMin', 'MorDtMax'],
       'PhysicalParameters': ['Kcoef', 'WaveDataDepth', 'ClosureDepth', 'BeachSlope', 'RiverSlope', 'GrainSize', 'UpstreamLength', 'RiverWidth',
                              'RoughnessManning', 'GrainRoughness', 'WidthDepthRatio', 'BackshoreElev', 'MaxOutletElev', 'BeachTopElev',
                              'SpitWidth', 'TargetBarHeight', 'TargetBarWidth', 'MinOutletWidth'],
       'NumericalParameters': ['Dx'], 'OutputOptions': ['OutInt', 'TsOutInt', 'LogInt']}
SPATIAL = ['ShorelineLengthLeft', 'ShorelineLengthRight', 'BeachWidth']
NEG = dict(InitialConditions=['OutletWidth'], Time=['HydDt', 'MorDtMin', 'MorDtMax'],
           PhysicalParameters=['Kcoef', 'RhoSed', 'RhoSea', 'RhoRiv', 'VoidRatio', 'Gravity', 'GammaRatio', 'WaveDataDepth', 'ClosureDepth',
                               'BeachSlope', 'RiverSlope', 'GrainSize', 'CritShieldsStress', 'MPM_coef', 'MPM_exp', 'UpstreamLength',
                               'RiverWidth', 'RoughnessManning', 'GrainRoughness', 'WidthDepthRatio', 'BackshoreElev', 'OT_coef', 'OT_exp',
                               'BeachTopElev', 'SpitWidth', 'TargetBarHeight', 'TargetBarWidth', 'MinOutletWidth', 'OutletSedSpreadDist',
                               'OutletBankEroFac', 'BarrierPermeability'],
           NumericalParameters=['Dx', 'Beta', 'Theta', 'Psi', 'ErrTol', 'MaxIt', 'WarnTol', 'MaxMorChange'],
           OutputOptions=['OutInt', 'TsOutInt', 'LogInt', 'PlotInt'])
HIGH = dict(PhysicalParameters=dict(VoidRatio=1.2, RiverSlope=1.5, GrainSize=18., CritShieldsStress=0.2, RoughnessManning=0.5, GrainRoughness=0.5,
                                    OutletBankEroFac=1.5),
            NumericalParameters=dict(Theta=1.4, Psi=0.9))
LOW = dict(PhysicalParameters=dict(WidthDepthRatio=0.5, OT_exp=0.5), NumericalParameters=dict(MaxIt=0))
CSV = dict(flow='flow.csv', sea='sea.csv', wave='wave.csv')
COLS = dict(flow=['Flow'], sea=['SeaLevel'], wave=['WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore'])


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C16', i)
    where = ('none', 'config', 'series', 'series', 'config', 'map', 'start', 'start')[i % 8]
    fam = dict(map='shape', start=r.choice(('open', 'closed'))).get(where) or r.choice(('straight', 'open', 'shape'))
    s = G.scenario_for(seed, 'C16-%d' % i, family=fam)
    t = s['time']
    t['MorDtMax'] = t['MorDtMin'] * (r.choice((8, 30, 60)) if i % 16 in (2, 3, 12) else 1)
    t['dur'] = int(t['MorDtMin'] * r.choice((2, 3, 5)))
    s['num']['MaxIt'] = 30
    for k in ('flow', 'sea', 'wave'):
        s['weather'][k].update(dt=r.choice((1, 2, 5)), tail=r.choice((0, 7200)), lead=r.choice((0, 1, 3)))
        s['weather'][k].pop('jitter', None)
    c = dict(scn=s, over=r.random() < 0.8, old=r.random() < 0.85, where=where, entry='cli' if r.random() < 0.15 else 'lib', pos=round(r.random(), 6),
             alt=r.randint(0, 10 ** 6))
    c['how'] = dict(
        none=lambda: 'none',
        config=lambda: r.choice(('missing', 'empty', 'torn', 'drop', 'drop', 'drop', 'dropsection', 'negative', 'negative', 'negative', 'high', 'low', 'text',
                                 'text', 'blank', 'date', 'zero', 'order', 'spatial', 'unreadable', 'garbage', 'synth', 'list')),
        series=lambda: r.choice(('missing', 'directory', 'empty', 'header', 'garbage', 'torn', 'torn', 'torn', 'swap', 'repeat', 'hole', 'hole', 'nan', 'inf', 'word',
                                 'column', 'late', 'late', 'late', 'early', 'early', 'early', 'early', 'dates', 'unreadable')),
        map=lambda: r.choice(('missing', 'torn', 'torn', 'empty', 'garbage', 'type', 'double', 'short', 'unreadable', 'curl', 'tornx', 'noentry')),
        start=lambda: r.choice(('missing', 'torn', 'torn', 'empty', 'garbage', 'dx', 'variable', 'variable', 'attribute', 'norecord', 'notime', 'badtime', 'unwritten',
                                'unwritten', 'unreadable', 'dimension', 'partial', 'partial', 'whole')))[where]()
    c['key'] = r.choice([(a, b) for a in sorted(REQ) for b in REQ[a]])
    c['neg'] = r.choice([(a, b) for a in sorted(NEG) for b in NEG[a]])
    c['val'] = r.choice(('-1', '-0.001', '-1e9'))
    c['high'] = r.choice([(a, b, v) for a in sorted(HIGH) for b, v in sorted(HIGH[a].items())])
    c['low'] = r.choice([(a, b, v) for a in sorted(LOW) for b, v in sorted(LOW[a].items())])
    c['kind'] = r.choice(('flow', 'sea', 'wave'))
    c['col'] = r.randint(0, 4)
    c['layer'] = r.choice(('shore', 'river', 'lagoon', 'cliff', 'outlet'))
    c['errno'] = r.choice(('EIO', 'EACCES', 'EMFILE'))
    return c


def shrink(case):
    for k, v in (('entry', 'lib'), ('over', True), ('old', True)):
        if case[k] != v:
            yield dict(case, **{k: v})


# ------------------------------------------------------------ damage
class Bad(Exception):
    """this damage cannot be made here"""


def setkey(text, sec, key, val):
    """replace, drop (None) or add one entry of a section"""
    out, here, done = [], '', False
    for l in text.split('\n'):
        if l.startswith('[') and not l.startswith('[['):
            if here == sec and not done and val is not None:
                out.append('%s = %s' % (key, val))
                done = True
            here = l.strip('[]')
        if here == sec and l.split('=')[0].strip() == key:
            if val is not None:
                out.append('%s = %s' % (key, val))
            done = True
            continue
        out.append(l)
    if not done:
        if val is None or here != sec:
            raise Bad('no entry %s' % key)
        out.append('%s = %s' % (key, val))
    return '\n'.join(out)


def damage(case, s, wd, cfg):
    """damage one input; returns (must be refused, environment)"""
    w, how, x = case['where'], case['how'], case['pos']
    env = {}
    if w == 'none':
        return False, env
    if w == 'config':
        text = open(cfg).read()
        sec, key = case['key']
        straight = s['grid']['mode'] == 'straight' and not s.get('hotstart')
        if how == 'missing':
            os.unlink(cfg)
            return True, env
        if how == 'unreadable':
            return True, dict(open_fails={os.path.basename(cfg): case['errno']})
        if how == 'empty':
            text = ''
        elif how == 'garbage':
            b = hashlib.sha512(str(case['alt']).encode()).digest() * 8
            with open(cfg, 'wb') as f:
                f.write(b)
            return True, env
        elif how == 'torn':
            last = text.rindex('=') - 1
            text = text[:int(x * last)]
        elif how == 'drop':
            text = setkey(text, sec, key, None)
        elif how == 'dropsection':
            sec = [q for q in sorted(REQ) if q][case['alt'] % (len(REQ) - 1)]
            a = text.index('[%s]' % sec)
            b = text.find('\n[', a + 1)
            while b >= 0 and text[b + 1:b + 3] == '[[':
                b = text.find('\n[', b + 1)
            text = text[:a] + (text[b + 1:] if b >= 0 else '')
        elif how == 'negative':
            text = setkey(text, case['neg'][0], case['neg'][1], '-1' if case['neg'][1] == 'MaxIt' else case['val'])
        elif how == 'high':
            text = setkey(text, *case['high'])
        elif how == 'low':
            text = setkey(text, *case['low'])
        elif how in ('text', 'blank', 'list'):
            num = [(a, b) for a, b in [(a, b) for a in NEG for b in NEG[a]]]
            a, b = num[case['alt'] % len(num)]
            text = setkey(text, a, b, dict(text=('abc', '1.2.3', '1,2', 'None ', '0x', "'1 m'")[case['alt'] % 6], blank='', list='1., 2.')[how])
        elif how == 'date':
            text = setkey(text, 'Time', ('StartTime', 'EndTime')[case['alt'] % 2], ("'yesterday-ish'", "'2000-13-45'", "'32/32/2000'", "'2000-02-30 00:00'")[case['alt'] % 4])
        elif how == 'zero':
            text = setkey(text, 'NumericalParameters' if case['alt'] % 4 == 3 else 'Time', ('HydDt', 'MorDtMin', 'MorDtMax', 'Dx')[case['alt'] % 4], '0')
        elif how == 'order':
            k = case['alt'] % 3
            if k == 0:
                text = setkey(text, 'Time', 'EndTime', "'%s'" % scenario._fmt(scenario.start_time(s) - scenario.dt.timedelta(seconds=60)))
            elif k == 1:
                text = setkey(text, 'Time', 'MorDtMin', repr(s['time']['MorDtMax'] * 2))
            else:
                text = setkey(text, 'Time', 'StartTime', "'%s'" % scenario._fmt(scenario.end_time(s) + scenario.dt.timedelta(seconds=3600)))
        elif how == 'spatial':
            if not straight:
                raise Bad('coast from files')
            text = setkey(text, 'SpatialInputs', SPATIAL[case['alt'] % 3], None)
        elif how == 'synth':
            # synthetic forcing without its parameters
            text = setkey(text, 'BoundaryConditions', *(('RiverFlow', 'shotnoise'), ('SeaLevel', 'harmonic'))[case['alt'] % 2])
        with open(cfg, 'w') as f:
            f.write(text)
        return True, env
    if w == 'series':
        k = case['kind']
        p = os.path.join(wd, CSV[k])
        L = open(p).read().split('\n')[:-1]
        head, rows = L[0], L[1:]
        t = [q[0] for q in scenario.series(s, k)]
        assert len(t) == len(rows)
        t0, t1 = common.t_start(s), common.t_end(s)
        # rows the run needs
        lo = max(j for j in range(len(t)) if t[j] <= t0)
        hi = min(j for j in range(len(t)) if t[j] >= t1)
        j = lo + int(x * (hi - lo + 1))
        j = min(j, hi)

        def cell(v):
            q = rows[j].split(',')
            q[1 + case['col'] % len(COLS[k])] = v
            rows[j] = ','.join(q)
        must = True
        if how == 'missing':
            os.unlink(p)
            return True, env
        if how == 'directory':
            os.unlink(p)
            os.mkdir(p)
            return True, env
        if how == 'unreadable':
            return True, dict(open_fails={CSV[k]: case['errno']})
        if how == 'empty':
            open(p, 'w').close()
            return True, env
        if how == 'garbage':
            with open(p, 'wb') as f:
                f.write(hashlib.sha512(str(case['alt']).encode()).digest() * 9)
            return True, env
        if how == 'torn':
            full = '\n'.join(L) + '\n'
            # before the last row that is needed ends its first value
            cut = len('\n'.join([head] + rows[:hi])) + 1 + len(rows[hi].split(',')[0])
            with open(p, 'w') as f:
                f.write(full[:int(x * cut)])
            return True, env
        if how == 'header':
            rows = []
        elif how == 'swap':
            j = min(j, len(rows) - 2)
            rows[j], rows[j + 1] = rows[j + 1], rows[j]
        elif how == 'repeat':
            j = max(j, 1)
            rows[j] = rows[j - 1].split(',')[0] + ',' + ','.join(rows[j].split(',')[1:])
        elif how == 'hole':
            cell('')
        elif how == 'nan':
            cell(('nan', 'NaN', 'NA', 'null', '#N/A')[case['alt'] % 5])
        elif how == 'inf':
            cell(('inf', '-inf', '1e400')[case['alt'] % 3])
        elif how == 'word':
            cell(('-', 'missing', '1.2.3', '1 2', '?')[case['alt'] % 5])
        elif how == 'column':
            q = case['alt'] % len(COLS[k])
            h = head.split(',')
            if case['alt'] % 2:
                h[1 + q] = 'Something'
                head = ','.join(h)
            else:
                head = ','.join(h[:1 + q] + h[2 + q:])
                rows = [','.join(z.split(',')[:1 + q] + z.split(',')[2 + q:]) for z in rows]
        elif how == 'late':
            n = lo + 1 + case['alt'] % max(1, hi - lo)
            if t[lo] == t0 and case['alt'] % 3 == 0:
                n = lo + 1
            rows = rows[n:]
        elif how == 'early':
            rows = rows[:hi - (case['alt'] % max(1, hi - lo) if case['alt'] % 2 else 0)]
        elif how == 'dates':
            z = case['alt'] % 3
            def f(q, tt):
                d = scenario.EPOCH + scenario.dt.timedelta(seconds=tt)
                return d.strftime(('%Y-%m-%d %H:%M', '%d-%b-%Y %H:%M', '%d/%m/%y %H.%M')[z])
            rows = [','.join([f(q, tt)] + q.split(',')[1:]) for q, tt in zip(rows, t)]
        with open(p, 'w') as f:
            f.write('\n'.join([head] + rows) + '\n')
        return must, env
    if w == 'map':
        import shapefile
        lay = case['layer']
        p = os.path.join(wd, lay + '.shp')
        g = s['grid']['shapes']
        pts = dict(shore=g['shoreline'], lagoon=g['lagoon'], cliff=g['cliff'], outlet=g['outlet']).get(lay)

        def line(parts, typ=3):
            for e in ('.shp', '.shx', '.dbf'):
                if os.path.exists(os.path.join(wd, lay + e)):
                    os.unlink(os.path.join(wd, lay + e))
            q = shapefile.Writer(os.path.join(wd, lay), shapeType=typ)
            q.field('id', 'N')
            for z in parts:
                if typ == 3:
                    q.line([[list(y) for y in z]])
                elif typ == 5:
                    q.poly([[list(y) for y in z]])
                else:
                    q.point(*z)
                q.record(1)
            q.close()
        if how == 'missing':
            os.unlink(p)
            if case['alt'] % 2:
                for e in ('.shx', '.dbf'):
                    os.unlink(os.path.join(wd, lay + e))
            return True, env
        if how == 'unreadable':
            return False, dict(open_fails={lay + e: case['errno'] for e in ('.shp', '.shx', '.dbf')})
        if how == 'noentry':
            cfg_ = open(cfg).read()
            name = ('RiverLocation', 'BarrierBackshore', 'CliffToe', 'OutletLocation')[case['alt'] % 4]
            with open(cfg, 'w') as f:
                f.write(setkey(cfg_, 'SpatialInputs', name, None))
            return True, env
        if how in ('torn', 'tornx', 'empty', 'garbage'):
            if how == 'tornx':
                p = p[:-1] + 'x'
            b = open(p, 'rb').read()
            with open(p, 'wb') as f:
                f.write(b'' if how == 'empty' else hashlib.sha512(b'%d' % case['alt']).digest() * 9 if how == 'garbage' else b[:int(x * len(b))])
            return how in ('torn', 'empty', 'garbage'), env
        if how == 'type':
            if lay == 'river':
                line([[g['river'], [g['river'][0] + 5., g['river'][1]]]])
            else:
                line([pts + [[pts[0][0] + 1., pts[0][1] + 1.]]], 5) if case['alt'] % 2 else line(pts, 1)
            return True, env
        if how == 'double':
            if lay == 'river':
                line([g['river'], [g['river'][0] + 5., g['river'][1]]], 1)
            else:
                line([pts, pts])
            return True, env
        if how == 'short':
            # the shoreline ends inside the extent of the lagoon
            lay = 'shore'
            pts = g['shoreline']
            n = len(pts)
            # points are 37 m apart along the coast; the lagoon reaches from -200 to 220 m
            k0 = int(len(pts) * 0.45) if case['alt'] % 2 else 0
            line([pts[:max(3, int(n * 0.55))] if not k0 else pts[k0:]])
            return True, env
        if how == 'curl':
            lay = 'shore'
            pts = [list(q) for q in g['shoreline']]
            k0 = 2 + case['alt'] % (len(pts) - 4)
            pts[k0], pts[k0 + 1] = pts[k0 + 1], pts[k0]
            line([pts])
            return True, env
    if w == 'start':
        p = os.path.join(wd, s['hotstart']['file'])
        if how == 'missing':
            os.unlink(p)
            return True, env
        if how == 'unreadable':
            return True, dict(open_fails={s['hotstart']['file']: case['errno']})
        if how in ('torn', 'empty', 'garbage'):
            b = open(p, 'rb').read()
            with open(p, 'wb') as f:
                f.write(b'' if how == 'empty' else hashlib.sha512(b'%d' % case['alt']).digest() * 90 if how == 'garbage' else b[:int(x * len(b))])
            return True, env
        if how in ('dx', 'notime', 'badtime'):
            text = open(cfg).read()
            text = dict(dx=lambda: setkey(text, 'NumericalParameters', 'Dx', repr(s['num']['Dx'] * (2, 0.5, 1.05)[case['alt'] % 3])),
                        notime=lambda: setkey(text, 'HotStart', 'HotStartTime', None),
                        badtime=lambda: setkey(text, 'HotStart', 'HotStartTime', ("'soon'", "'2000-13-01'", "''")[case['alt'] % 3]))[how]()
            with open(cfg, 'w') as f:
                f.write(text)
            return True, env
        must = rebuild(case, p)
        if how in ('partial', 'whole'):
            k = 2 if how == 'partial' else case['alt'] % 3
            at = s['hotstart']['at'] + (3600 * (k + case['alt'] % 5) if k else 0)
            with open(cfg) as f:
                text = f.read()
            with open(cfg, 'w') as f:
                f.write(setkey(text, 'HotStart', 'HotStartTime', "'%s'" % scenario._fmt(scenario.EPOCH + scenario.dt.timedelta(seconds=at))))
        return must, env
    raise AssertionError(how)


NEEDED = ('time', 'transect_x', 'shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y', 'barrier_crest_z', 'outlet_bed_z',
          'inner_barrier_crest_z', 'lagoon_bed_z', 'lagoon_wl', 'lagoon_vel', 'outlet_wl', 'outlet_vel', 'outlet_end_x', 'outlet_end_width',
          'outlet_end_z', 'outlet_end_vel', 'outlet_end_wl', 'dummy_xs_dep', 'dummy_xs_vel', 'outlet_closed', 'river_bed_z', 'river_wl', 'river_vel')


def rebuild(case, p):
    """the starting file with something left out or never written"""
    D = engine.real['Dataset']
    how = case['how']
    if how in ('partial', 'whole'):
        # three records, the last of them interrupted while it was written
        want = case['alt'] % 3 if how == 'whole' else 0
        d = D(p, 'a')
        d.set_auto_mask(False)
        vs = [v for v in d.variables.values() if v.dimensions[:1] == ('time',)]
        t0 = float(d['time'][0])
        cut = 1 + case['alt'] // 7 % (len(vs) - 1)
        for k in (1, 2):
            for j, v in enumerate(vs):
                if how == 'partial' and k == 2 and j >= cut:
                    continue
                v[k] = v[0] if v.name != 'time' else t0 + 3600. * (k + case['alt'] % 5)
        d.close()
        return how == 'partial'
    a = D(p)
    a.set_auto_mask(False)
    b = D(p + '.new', 'w', format='NETCDF4_CLASSIC')
    drop = NEEDED[case['alt'] % len(NEEDED)]
    att = ('ModelOriginX', 'ModelOriginY', 'ModelOrientation')[case['alt'] % 3]
    for n, d in a.dimensions.items():
        sz = len(d)
        if how == 'dimension' and n == 'transect_x':
            sz += (1, 2, 3)[case['alt'] % 3]
        b.createDimension(n, None if d.isunlimited() else sz)
    for k in a.ncattrs():
        if not (how == 'attribute' and k == att):
            b.setncattr(k, a.getncattr(k))
    for n, v in a.variables.items():
        if how == 'variable' and n == drop:
            continue
        w = b.createVariable(n, v.dtype, v.dimensions)
        for k in v.ncattrs():
            if k != '_FillValue' and not (how == 'attribute' and case['alt'] % 2 and n == 'time' and k == 'units'):
                w.setncattr(k, v.getncattr(k))
        if how == 'norecord' and 'time' in v.dimensions:
            continue
        x = v[...]
        if how == 'dimension' and 'transect_x' in v.dimensions:
            if n == 'transect_x':
                x = np.arange(len(b.dimensions['transect_x'])) * (x[1] - x[0]) + x[0]
                w[:] = x
            else:
                m = min(x.shape[-1], len(b.dimensions['transect_x']))
                w[:, :m] = x[:, :m]
            continue
        if how == 'unwritten' and n == drop:
            continue
        w[...] = x
    a.close()
    b.close()
    os.replace(p + '.new', p)
    return True


def run(case, ctx):
    s = case['scn']
    wd = ctx.dir()
    cfg = scenario.write_inputs(s, wd)
    try:
        must, env = damage(case, s, wd, cfg)
    except Bad as e:
        ctx.probe('not applicable')
        return
    paths = [os.path.join(wd, s['out'][f]) for f in ('OutFile', 'TsOutFile')]
    old = {}
    if case['old']:
        for j, p in enumerate(paths):
            old[p] = b'results of last year %d' % j
            with open(p, 'wb') as f:
                f.write(old[p])
    args = ['-o'] if case['over'] else []
    q = engine.simulate(s, dict(env, answers_by={s['out'][f]: 'y' for f in ('OutFile', 'TsOutFile')}, max_opens=200, max_solves=20000), wd,
                        overwrite=case['over'], cfg=cfg, inputs=False, entry=case['entry'], args=args, cwd=wd, cpu=30)
    ctx.note(s, q)
    tag = '%s %s' % (case['where'], case['how'])
    ctx.fire(tag.replace(' ', '_'))
    if q['status'] == 'ok' and not must:
        # nothing was wrong, or nothing that mattered: results of the undamaged inputs
        r = ctx.sim(s, {})
        if common.died(ctx, r, 'undamaged'):
            return
        ctx.sim_s += 2 * s['time']['dur']
        for f, vs in (('OutFile', common.MAINV), ('TsOutFile', common.TSV)):
            a, b = ctx.rows(r, s, f), engine.read_rows(os.path.join(wd, s['out'][f]))
            for k in range(a['time'].size):
                d = common.diff_rows(a, k, b, k, vs) if b['time'].size > k else 'missing'
                if d:
                    ctx.bad('used', '%s: damage went unnoticed, record %d differs: %s' % (tag, k, d))
                    return
        ctx.count('accepted')
        return
    what = '%s (%s)' % (tag, q.get('type', q['status']))
    if case['where'] == 'none':
        common.died(ctx, q, 'undamaged')
        return
    if q['status'] != 'raise':
        ctx.bad('not refused', '%s: %s' % (what, q['status'] + ' ' + q.get('err', '')[-200:]) + ' ' + about(case))
        return
    for p in paths:
        ctx.count('untouched')
        n = os.path.basename(p)
        if p in old:
            got = open(p, 'rb').read() if os.path.exists(p) else None
            if got != old[p]:
                ctx.bad('touched', '%s: %s was %s before the error %s: %s %s' % (what, n, 'removed' if got is None else 'replaced', q['where'], q['msg'][:150], about(case)))
                return
        elif os.path.exists(p):
            ctx.bad('touched', '%s: %s was created before the error %s: %s %s' % (what, n, q['where'], q['msg'][:150], about(case)))
            return
    if q['prompts']:
        ctx.bad('touched', '%s: asked %r before the input was checked' % (what, q['prompts']))


def about(case):
    return str({k: case[k] for k in ('key', 'neg', 'val', 'high', 'low', 'kind', 'col', 'layer', 'alt', 'pos')})
