"""Seeded search: runs the cases of one property over a pool of forked workers,
minimises and confirms violations, writes replay files and evidence."""
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import engine

VERIF = engine.VERIF
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
NPROC = int(os.environ.get('HAPSIM_JOBS', '8'))


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#'):
                    k = json.loads(line)
                    if k['property'] == pid and k['status'] == 'known':
                        out.append(k)
    return out


def module(pid):
    return importlib.import_module('hapsim.props.' + pid.lower())


class Ctx:
    """What a property sees of one case: a scratch directory and counters."""

    def __init__(self, wd):
        self.wd = wd
        self.sub = 0
        self.sim_s = 0.0
        self.runs = 0
        self.fired = {}
        self.sigs = set()
        self.probes = {}
        self.checked = {}
        self.violations = []

    def dir(self):
        self.sub += 1
        d = os.path.join(self.wd, 'r%d' % self.sub)
        os.makedirs(d)
        return d

    def fire(self, k, n=1):
        self.fired[k] = self.fired.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def count(self, k, n=1):
        """n instances of oracle k evaluated"""
        self.checked[k] = self.checked.get(k, 0) + int(n)

    def bad(self, kind, detail, finding=None):
        if finding is not None and any(v['finding'] == finding for v in self.violations):
            self.probe('finding ' + finding)
            return
        if len(self.violations) < 20:
            self.violations.append(dict(kind=kind, detail=str(detail)[:600], finding=finding))

    def sim(self, scn, env=None, **kw):
        """One simulated run in a fresh directory; keeps statistics."""
        env = dict(env or {})
        wd = kw.pop('wd', None) or self.dir()
        r = engine.simulate(scn, env, wd, **kw)
        r['wd'] = wd
        self.note(scn, r)
        return r

    def note(self, scn, r):
        self.runs += 1
        for k, v in r.get('fired', {}).items():
            self.fire(k, v)
        for lv, m in r.get('text', []) or []:
            self.sigs.add(norm(m))
            self.probe(norm(m))

    def rows(self, r, scn, which='OutFile'):
        return engine.read_rows(os.path.join(r['wd'], scn['out'][which]))


def norm(m):
    """Normalise a log message to a signature of what happened."""
    import re
    m = re.sub(r'".*?"|\[.*?\]', '', m)
    m = re.sub(r'[-+]?\d[\d.:/e+-]*', '#', m)
    return m.split('=')[0][:60].strip()


def run_case(mod, case, wd):
    """Run one case in this process (a forked worker). Never raises."""
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    ctx = Ctx(wd)
    t = time.monotonic()
    err = None
    try:
        mod.run(case, ctx)
    except Exception:
        err = traceback.format_exc()
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return dict(violations=ctx.violations, runs=ctx.runs, sim_s=ctx.sim_s, fired=ctx.fired,
                sigs=sorted(ctx.sigs), probes=ctx.probes, checked=ctx.checked, err=err,
                wall=time.monotonic() - t)


# ------------------------------------------------------------------ pool
def _worker(mod, seed, tier, rd, wr, wid):
    base = os.path.join(engine.ROOT, 'w%d' % wid)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    while True:
        b = os.read(rd, 8)
        if len(b) < 8:
            os._exit(0)
        i = struct.unpack('q', b)[0]
        try:
            case = mod.gen(seed, i, tier)
            r = run_case(mod, case, os.path.join(base, 'c%d' % i))
        except BaseException:
            case, r = None, dict(violations=[], runs=0, sim_s=0, fired={}, sigs=[], probes={}, checked={},
                                 err=traceback.format_exc(), wall=0)
        blob = pickle.dumps((i, case, r))
        with os.fdopen(os.dup(wr), 'wb') as f:
            f.write(struct.pack('q', len(blob)) + blob)


def pool(mod, seed, tier, indices, cap, stop_on=6):
    """Hand out indices one at a time; results sorted by index."""
    todo = list(indices)
    ws = []
    for w in range(min(NPROC, max(1, len(todo)))):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            for p, _, rr, ww in ws:
                os.close(rr)
                os.close(ww)
            os.close(w1)
            os.close(r2)
            _worker(mod, seed, tier, r1, w2, w)
        os.close(r1)
        os.close(w2)
        ws.append((pid, w, r2, w1))
    t0 = time.monotonic()
    res = {}
    busy = {}
    it = iter(todo)
    nviol = 0

    def feed(w):
        if time.monotonic() - t0 > cap or nviol >= stop_on:
            return
        try:
            i = next(it)
        except StopIteration:
            return
        os.write(w[3], struct.pack('q', i))
        busy[w[2]] = (w, i)
    for w in ws:
        feed(w)
    while busy:
        rs, _, _ = select.select(list(busy), [], [], 600)
        if not rs:
            raise RuntimeError('workers stalled: %s' % [b[1] for b in busy.values()])
        for fd in rs:
            w, i = busy.pop(fd)
            n = _readn(fd, 8)
            if n is None:
                res[i] = (None, dict(violations=[], runs=0, sim_s=0, fired={}, sigs=[], probes={}, checked={},
                                     err='worker died in case %d' % i, wall=0))
                continue
            k, case, r = pickle.loads(_readn(fd, struct.unpack('q', n)[0]))
            res[k] = (case, r)
            nviol += any(not v.get('finding') for v in r['violations'])
            feed(w)
    for pid, _, rr, ww in ws:
        os.close(ww)
        os.close(rr)
    for pid, *_ in ws:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    return [(i,) + res[i] for i in sorted(res)], len(res) < len(todo)


def _readn(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def forked(fn, timeout=900):
    """fn() in a fresh forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            b = pickle.dumps(fn())
        except BaseException:
            b = pickle.dumps(dict(err=traceback.format_exc(), violations=[]))
        with os.fdopen(w, 'wb') as f:
            f.write(b)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else dict(err='died', violations=[])


# ------------------------------------------------------------------ shrink
def kinds(r):
    return {v['kind'] for v in r['violations'] if not v.get('finding')}


def generic_shrink(case):
    """Simpler variants of a case: shorter run, calmer weather, fewer faults."""
    out = []

    def var(f):
        c = json.loads(json.dumps(case))
        try:
            if f(c) is False:
                return
        except (KeyError, IndexError, TypeError):
            return
        if c != case:
            out.append(c)
    for key in ('scn',):
        if key not in case:
            continue
        d = case[key]['time']['dur']
        for fr in (0.25, 0.5, 0.75, 0.9):
            nd = int(d * fr) // 60 * 60
            if nd >= 60:
                var(lambda c, nd=nd: c[key]['time'].__setitem__('dur', nd))
        for k in ('flow', 'sea', 'wave'):
            for j in range(len(case[key]['weather'][k].get('events', []))):
                var(lambda c, k=k, j=j: c[key]['weather'][k]['events'].pop(j) and None)
        var(lambda c: c[key]['weather']['wave'].__setitem__('swing', 0.))
        var(lambda c: c[key]['weather']['sea'].__setitem__('range', 0.))
        if case[key].get('craft'):
            for k in ('shore_wig', 'lag_wig', 'crest_wig'):
                var(lambda c, k=k: c[key]['craft'].__setitem__(k, 0.))
    for lst in ('solver', 'crashes', 'faults', 'variants'):
        v = case.get(lst)
        if isinstance(v, list) and len(v) > 1:
            half = len(v) // 2
            var(lambda c: c.__setitem__(lst, v[:half]))
            var(lambda c: c.__setitem__(lst, v[half:]))
            for j in range(len(v)):
                var(lambda c, j=j: c[lst].pop(j) and None)
    return out


def minimise(mod, case, want, budget=45):
    t0 = time.monotonic()
    steps = 0
    best = case
    progress = True
    wd = os.path.join(engine.ROOT, 'shrink')
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for c in getattr(mod, 'shrink', generic_shrink)(best):
            if time.monotonic() - t0 > budget:
                break
            steps += 1
            r = forked(lambda: run_case(mod, c, wd))
            if not r.get('err') and want & kinds(r):
                best = c
                progress = True
                break
    return best, steps


# ------------------------------------------------------------------ main
def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def main(pid, argv):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    engine.boot()
    mod = module(pid)
    if argv and argv[0] == '--replay':
        return replay(pid, mod, argv[1])
    if argv and argv[0] == '--case':
        return onecase(pid, mod, seed, tier, int(argv[1]))
    n = mod.COUNT[tier]
    if os.environ.get('HAPSIM_COUNT'):
        n = int(os.environ['HAPSIM_COUNT'])
    cap = {'quick': 420, 'thorough': 3 * 3600}[tier]
    cap = float(os.environ.get('HAPSIM_CAP', cap))
    print('%s: seed=%d tier=%s cases=%d' % (pid, seed, tier, n), flush=True)
    res, cut = pool(mod, seed, tier, range(n), cap)
    errs = [(i, r['err']) for i, c, r in res if r.get('err')]
    known = load_known(pid)
    knownids = {k['id'] for k in known}
    hits = {}
    first = None
    nv = 0
    for i, case, r in res:
        for v in r['violations']:
            if v.get('finding') and v['finding'] in knownids:
                hits.setdefault(v['finding'], (i, v))
            else:
                v['finding'] = None
                nv += 1
                if first is None or (first[0] == i):
                    first = first or (i, case, r)
    out = os.environ.get('HAPSIM_EVENTS')
    if out:
        with open(out, 'w') as f:
            for i, case, r in res:
                f.write(json.dumps([i, digest(case), r['violations'], r['runs'], round(r['sim_s'], 6), r['fired'],
                                    r['sigs'], r['checked'], r.get('err')], sort_keys=True) + '\n')
    evidence(pid, mod, seed, tier, res, cut, nv, time.monotonic() - t0)
    for k in known:
        if k['id'] in hits:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']), flush=True)
    if first is not None:
        i, case, r = first
        want = kinds(r)
        small, steps = minimise(mod, case, want)
        conf = forked(lambda: run_case(mod, small, os.path.join(engine.ROOT, 'confirm')))
        if not (want & kinds(conf)):
            small = case
            conf = forked(lambda: run_case(mod, small, os.path.join(engine.ROOT, 'confirm')))
        if want & kinds(conf):
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, '%s-%d-%s.json' % (pid, seed, digest(small)))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, seed=seed, index=i, tier=tier, case=small, violations=conf['violations'],
                               shrink_steps=steps, fired=conf['fired']), f, indent=1, sort_keys=True)
            for v in conf['violations'][:6]:
                print('  %s: %s' % (v['kind'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
            return 1
        print('case %d: violation %s did not repeat: %s' % (i, sorted(want), r['violations'][:2]), flush=True)
        return 3
    if errs:
        print('harness error in case %d of %d:\n%s' % (errs[0][0], len(errs), errs[0][1]), flush=True)
        return 2
    if cut and len(res) < max(4, n // 10):
        print('only %d of %d cases fitted in the time cap' % (len(res), n), flush=True)
        return 2
    print('%s: held on %d cases, %d runs, %.0f s' % (pid, len(res), sum(r['runs'] for _, _, r in res), time.monotonic() - t0), flush=True)
    return 0


def replay(pid, mod, path):
    with open(path) as f:
        d = json.load(f)
    r = forked(lambda: run_case(mod, d['case'], os.path.join(engine.ROOT, 'replay')))
    if r.get('err'):
        print(r['err'])
        return 2
    known = {k['id'] for k in load_known(pid)}
    vs = [v for v in r['violations'] if not (v.get('finding') in known)]
    for v in vs:
        print('  %s: %s' % (v['kind'], v['detail']))
    if vs:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay: no violation')
    return 0


def onecase(pid, mod, seed, tier, i):
    case = mod.gen(seed, i, tier)
    if os.environ.get('HAPSIM_SHOW'):
        print(json.dumps(case, indent=1))
    r = forked(lambda: run_case(mod, case, os.path.join(engine.ROOT, 'one')))
    print(json.dumps(r, indent=1, default=str) if not r.get('err') else r['err'])
    return 0


def evidence(pid, mod, seed, tier, res, cut, nv, wall):
    fired, probes, checked, sigs = {}, {}, {}, set()
    runs = sim = 0
    seen = set()
    nontriv = 0
    samples = []
    for i, case, r in res:
        runs += r['runs']
        sim += r['sim_s']
        sigs.add(tuple(r['sigs']) + tuple(sorted(r['fired'])))
        for d, s in ((fired, r['fired']), (probes, r['probes']), (checked, r['checked'])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        if case is not None:
            dg = digest(case)
            if dg not in seen and sum(r['checked'].values()) > 0:
                seen.add(dg)
                nontriv += 1
        if case is not None and len(samples) < 2 and r['checked']:
            samples.append(dict(index=i, case=case, fired=r['fired'], checked=r['checked'], events=r['sigs'][:25]))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=len(res), distinct_nontrivial=nontriv,
                            rule=mod.RULE + ' A case is non-trivial when its oracle was evaluated at least once; cases are '
                            'distinct by the hash of their full description.',
                            samples=samples, simulated_runs=runs, seeds=len(res),
                            runs_per_hour=round(runs / max(wall, 1e-9) * 3600), seeds_per_hour=round(len(res) / max(wall, 1e-9) * 3600),
                            simulated_hours=round(sim / 3600, 2), faults_fired=dict(sorted(fired.items())),
                            oracle_evaluations=dict(sorted(checked.items())),
                            distinct_event_signatures=len(sigs),
                            state_measure='distinct sets of (kinds of model events logged, kinds of faults fired) per case',
                            rare_condition_probes=dict(sorted(probes.items())), stopped_early=bool(cut),
                            components_real=['hapuamod core, loadmod, riv, mor, coast, synth, out, geom', 'numpy, scipy, pandas',
                                             'netCDF4/HDF5 writing real files'] + list(getattr(mod, 'REAL', [])),
                            components_stub=['wall clock (deterministic)', 'uninitialised numpy memory (seeded)',
                                             'global random state (seeded)', 'user answering prompts (scripted)',
                                             'outcome of chosen linear solves and file operations (injected)']
                            + list(getattr(mod, 'STUB', []))),
              assumptions=list(getattr(mod, 'ASSUME', [])) + [
                  'seeded sampling, not enumeration: a clean batch is evidence, not proof',
                  'the process, thread and library code below the seams (BLAS single threaded, HDF5) is deterministic'],
              wall_s=round(wall, 2), violations=nv)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(p + '.tmp', p)
