"""The simulator core: boots the real model behind the seams, and executes one
simulated run (scenario + fault plan) per forked process."""
import builtins
import ctypes
import errno
import faulthandler
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HAPSIM_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'

# shim control words (see native/shim.c)
ARMED, FAIL_AT, FAIL_KIND, STICKY, CLOCK_OFF, CLOCK_STEP, CRASH_AT = range(7)
N_WRITE, N_TRUNC, N_OPEN, N_FAULT, N_CLOCK, N_OPS = range(6)
CRASH_CODE = 77


class SimBudget(BaseException):
    """The simulated run used more steps than the liveness bound allows."""


class SimCrash(BaseException):
    pass


# ------------------------------------------------------------------ boot
def scratch_root():
    for d in ('/dev/shm', os.environ.get('TMPDIR', '/tmp'), '/tmp'):
        try:
            if os.access(d, os.W_OK):
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 1 << 30:
                    return d
        except OSError:
            pass
    return '/tmp'


def build_native(out):
    import numpy
    os.makedirs(out, exist_ok=True)
    n = os.path.join(VERIF, 'native')
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', os.path.join(out, 'shim.so'),
                           os.path.join(n, 'shim.c'), '-ldl'])
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-w'] + inc +
                          ['-o', os.path.join(out, 'hapfill.so'), os.path.join(n, 'fill.c')])


def reexec_if_needed(main_file):
    """Re-start in a controlled interpreter: fixed hash seed, one BLAS thread,
    no bytecode written, shim preloaded, private scratch directory."""
    if os.environ.get('HAPSIM_BOOTED') == str(os.getpid()):
        return
    if os.environ.get('HAPSIM_STAGE') is None:
        env = dict(os.environ)
        env['HAPSIM_STAGE'] = '1'
        env['HAPSIM_PHS'] = os.environ.get('HAPSIM_PHS', '0')
        env['PYTHONHASHSEED'] = env['HAPSIM_PHS']
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        root = tempfile.mkdtemp(prefix='hapsim.', dir=scratch_root())
        env.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg',
                   MPLCONFIGDIR=os.path.join(root, 'mpl'), HDF5_USE_FILE_LOCKING='FALSE',
                   TZ='UTC', LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore', HAPSIM_ROOT=root)
        env.pop('PYTHONPATH', None)
        rc = 70
        try:
            subprocess.check_call([VENV_PY, '-c',
                                   'import sys;sys.path.insert(0,%r);from hapsim import engine;engine.build_native(%r)'
                                   % (VERIF, os.path.join(root, 'native'))], env=env)
            env['LD_PRELOAD'] = os.path.join(root, 'native', 'shim.so')
            p = subprocess.Popen([VENV_PY, main_file] + sys.argv[1:], env=env, start_new_session=True)
            for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
                signal.signal(s, lambda *a: (_killpg(p.pid), shutil.rmtree(root, ignore_errors=True), os._exit(143)))
            rc = p.wait()
            _killpg(p.pid)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        sys.stdout.flush()
        os._exit(rc if rc >= 0 else 70)
    os.environ['HAPSIM_BOOTED'] = str(os.getpid())


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


ROOT = os.environ.get('HAPSIM_ROOT', '/tmp/hapsim')
lib = None
hapfill = None
STATE = None       # per-run seam state; None outside a simulated run
_tls = threading.local()
real = {}


def cur():
    """Seam state of the run the calling thread belongs to."""
    return getattr(_tls, 'run', None) or STATE


def boot():
    """Install the seams, then import the real model from the working tree."""
    global lib, hapfill
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    lib = ctypes.CDLL(os.path.join(ROOT, 'native', 'shim.so'))
    lib.hs_ctl.argtypes = [ctypes.c_int, ctypes.c_long]
    lib.hs_stat.restype = ctypes.c_long
    lib.hs_prefix.argtypes = [ctypes.c_char_p]
    sys.path.insert(0, os.path.join(ROOT, 'native'))
    import hapfill as hf
    hapfill = hf
    sys.path.insert(0, REPO)
    import netCDF4
    import numpy as np
    import scipy.linalg
    real['Dataset'] = netCDF4.Dataset
    netCDF4._sim_real_Dataset = netCDF4.Dataset
    real['solve_banded'] = scipy.linalg.solve_banded
    real['input'] = builtins.input
    real['remove'] = os.remove

    class SimDataset(real['Dataset']):
        """Result-file handle: logs, yields to the scheduler, optionally keeps
        double precision, and is the point where file faults are armed."""
        def __init__(self, filename, mode='r', *a, **k):
            s = cur()
            ok = False
            if s is not None:
                s.on_open(filename, mode)
            try:
                super().__init__(filename, mode, *a, **k)
                ok = True
            finally:
                if s is not None:
                    s.on_opened(filename, mode, ok)
                    if ok:
                        _meta[id(self)] = (str(filename), mode, s)

        def createVariable(self, varname, datatype, *a, **k):
            s = cur()
            if s is not None and s.hires and np.dtype(datatype) == np.float32:
                datatype = np.float64
            return super().createVariable(varname, datatype, *a, **k)

        def close(self):
            m = _meta.pop(id(self), None)
            r = super().close()
            if m and m[2] is cur() and m[2] is not None:
                m[2].on_close(m[0], m[1])
            return r
    _meta = {}
    netCDF4.Dataset = SimDataset

    def solve_banded(l_and_u, ab, b, *a, **k):
        s = cur()
        if s is None:
            return real['solve_banded'](l_and_u, ab, b, *a, **k)
        return s.on_solve(l_and_u, ab, b, a, k)
    scipy.linalg.solve_banded = solve_banded

    def sim_input(prompt=''):
        s = cur()
        if s is None:
            raise EOFError('no simulated user')
        return s.on_input(prompt)
    builtins.input = sim_input

    def guarded(fn):
        def sim_remove(path, *a, **k):
            s = cur()
            if s is not None:
                s.on_remove(path)
            return fn(path, *a, **k)
        return sim_remove
    real['open'] = builtins.open

    def sim_open(file, *a, **k):
        s = cur()
        if s is not None and s.env.get('open_fails'):
            s.on_read_open(file)
        return real['open'](file, *a, **k)
    builtins.open = sim_open
    os.remove = guarded(real['remove'])
    os.unlink = guarded(os.unlink)
    logging.disable(logging.NOTSET)
    import importlib
    for m in ('core', 'loadmod', 'riv', 'mor', 'coast', 'out', 'synth', 'geom'):
        importlib.import_module('hapuamod.' + m)
    f = os.path.realpath(sys.modules['hapuamod'].__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f
    return sys.modules['hapuamod']


# ------------------------------------------------------------------ per run
class Run:
    """Seam state of one simulated run (one model process)."""

    def __init__(self, env, wd, ident='A'):
        self.env = env
        self.wd = wd
        self.id = ident
        self.hires = bool(env.get('hires', True))
        self.solves = 0
        self.opens = 0
        self.writes = 0            # files opened for writing and closed again
        self.events = []
        self.fired = {}
        self.prompts = []
        self.answers = list(env.get('answers', []))
        self.solver = {}
        for f in env.get('solver', []):
            for j in range(f.get('len', 1)):
                self.solver[f['at'] + j] = f
        self.max_solves = env.get('max_solves', 400000)
        self.max_opens = env.get('max_opens', 40000)
        self.crash_open = env.get('crash_open')
        self.disk = env.get('disk')
        self.snap = None
        self.sched = None
        self.appends = []          # (file, solves so far, faults so far, largest correction of the last solve)
        self.last_delta = 0.0
        self.nfaults = 0
        self.tap = None
        self.snaps = set(env.get('snaps', []))     # solves before which the files are copied
        self.crash_solve = env.get('crash_solve')
        self.conv_tol = env.get('conv_tol')
        self.conv = []                             # solves whose correction was within conv_tol

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    # --- result files
    def on_open(self, fn, mode):
        self.opens += 1
        if self.opens > self.max_opens:
            raise SimBudget('opens')
        if self.sched:
            self.sched.point(self.id)
        if mode == 'r' and self.env.get('open_fails'):
            self.on_read_open(fn)
        fn = os.path.basename(str(fn))
        self.events.append(('open', fn, mode))
        if mode != 'r':
            self.appends.append((fn, mode, self.solves, self.nfaults, self.last_delta,
                                 self.tap.n.get('WARNING', 0) if self.tap else 0))
        if self.crash_open is not None and self.opens == self.crash_open:
            self.fire('crash_between')
            self.flush_partial()
            os._exit(CRASH_CODE)
        d = self.disk
        if d and mode != 'r' and (d.get('file') in (None, fn)):
            self._wopens = getattr(self, '_wopens', 0) + 1
            if self._wopens == d['nth']:
                base = lib.hs_stat(N_OPS)
                if d['kind'] == 'crash':
                    lib.hs_ctl(CRASH_AT, base + d['op'])
                elif d['kind'] == 'torn':
                    lib.hs_ctl(CRASH_AT, -(base + d['op']))
                else:
                    lib.hs_ctl(FAIL_KIND, {'ENOSPC': 1, 'EIO': 2, 'EDQUOT': 3, 'short': 4}[d['kind']])
                    lib.hs_ctl(STICKY, int(d.get('sticky', 0)))
                    lib.hs_ctl(FAIL_AT, base + d['op'])
                self.events.append(('disk', d['kind']))
                if d['kind'] in ('crash', 'torn'):
                    self.fire(d['kind'])
                    self.flush_partial()

    def on_opened(self, fn, mode, ok):
        pass

    def on_close(self, fn, mode):
        self.events.append(('close', os.path.basename(str(fn)), mode))
        if mode != 'r':
            self.writes += 1

    def snapshot(self):
        """What is on disk right now: what a concurrent reader would see and what
        a killed process would leave."""
        for fn in sorted(os.listdir(self.wd)):
            if fn.endswith('.nc'):
                shutil.copyfile(os.path.join(self.wd, fn), os.path.join(self.wd, '.snap.%d.%s' % (self.solves, fn[:-3])))
        self.fire('reader')

    # --- linear solver
    def on_solve(self, lu, ab, b, a, k):
        import numpy as np
        from scipy import linalg
        self.solves += 1
        if self.solves > self.max_solves:
            raise SimBudget('solves')
        if self.solves in self.snaps:
            self.snapshot()
        if self.crash_solve is not None and self.solves >= self.crash_solve:
            self.fire('crash_between')
            self.flush_partial()
            os._exit(CRASH_CODE)
        if self.sched and self.solves % self.sched.every == 0:
            self.sched.point(self.id)
        f = self.solver.get(self.solves)
        if f is None:
            self.last_delta = np.inf
            x = real['solve_banded'](lu, ab, b, *a, **k)
            self.last_delta = float(np.max(np.abs(x)))
            if self.conv_tol is not None and self.last_delta < self.conv_tol:
                self.conv.append(self.solves)
            return x
        self.nfaults += 1
        self.last_delta = np.inf
        self.fire('solver_' + f['kind'])
        self.events.append(('solver', self.solves, f['kind']))
        kd = f['kind']
        if kd == 'singular':
            raise linalg.LinAlgError('singular matrix (injected)')
        if kd == 'memory':
            raise MemoryError('injected')
        if kd == 'value':
            raise ValueError('array must not contain infs or NaNs (injected)')
        x = real['solve_banded'](lu, ab, b, *a, **k)
        if kd == 'nan':
            x = np.array(x)
            x[f.get('idx', 0) % x.size] = np.nan
            return x
        if kd == 'allnan':
            return np.full_like(x, np.nan)
        if kd == 'kick':
            # an inexact solve: does not meet tolerance this iteration
            x = np.array(x)
            x += f.get('amp', 0.01) * np.cos(np.arange(x.size) * 1.7 + self.solves)
            self.last_delta = float(np.max(np.abs(x)))
            return x
        if kd == 'overshoot':
            x = x * f.get('amp', 3.0)
            self.last_delta = float(np.max(np.abs(x)))
            return x
        raise AssertionError(kd)

    # --- user and input files
    def on_read_open(self, file):
        e = self.env['open_fails'].get(os.path.basename(str(file)))
        if e:
            self.fire('open_' + e)
            raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)) + ' (injected)', str(file))

    def on_remove(self, path):
        if self.env.get('remove_fails') and os.path.basename(str(path)) in self.env['remove_fails']:
            self.fire('remove_fails')
            raise PermissionError(13, 'Permission denied (injected)', str(path))

    def on_input(self, prompt):
        self.prompts.append(str(prompt))
        by = self.env.get('answers_by')
        if by:
            named = sorted((k for k in by if k in str(prompt)), key=len)
            if not named or len(self.prompts) > 8:
                raise EOFError('EOF when reading a line')
            a = by[named[-1]]
            self.asked = getattr(self, 'asked', []) + [named[-1]]
        elif not self.answers:
            raise EOFError('EOF when reading a line')
        else:
            a = self.answers.pop(0)
        if a == 'KILL':
            self.fire('kill_at_prompt')
            self.flush_partial()
            os._exit(CRASH_CODE)
        if a in ('EOF', 'INT'):
            self.fire('user_' + a.lower())
        if a == 'EOF':
            raise EOFError('EOF when reading a line')
        if a == 'INT':
            raise KeyboardInterrupt()
        return a

    # --- results
    def result(self, status, **kw):
        r = dict(status=status, solves=self.solves, opens=self.opens, writes=self.writes,
                 fired=self.fired, prompts=self.prompts, conv=self.conv,
                 stats=[lib.hs_stat(i) for i in range(8)], events=self.events[-400:],
                 nevents=len(self.events), appends=self.appends, plots=getattr(self, 'plots', None))
        r.update(kw)
        return r

    def flush_partial(self):
        with open(os.path.join(self.wd, '.partial'), 'wb') as f:
            pickle.dump(self.result('crash'), f)


class LogTap(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.n = {}
        self.text = []
        self.keep = 300            # the first and the last messages are kept

    def emit(self, rec):
        self.n[rec.levelname] = self.n.get(rec.levelname, 0) + 1
        try:
            m = rec.getMessage()[:160]
        except Exception:
            m = str(rec.msg)[:160]
        self.text.append((rec.levelname, m))
        if len(self.text) > self.keep:
            del self.text[self.keep // 2]


def apply_env(env, wd):
    """Fix every ambient source of nondeterminism the model process can see."""
    import numpy as np
    e = env.get('ambient', {})
    np.random.seed(e.get('np_seed', 12345) % (1 << 32))
    random.seed(e.get('py_seed', 12345))
    hapfill.set(e.get('mem', 1), e.get('mem_seed', 1))
    lib.hs_reset()
    lib.hs_prefix((wd + '/').encode())
    lib.hs_ctl(CLOCK_OFF, e.get('clock', 1000000000))
    lib.hs_ctl(CLOCK_STEP, e.get('clock_step', 1))
    lib.hs_ctl(ARMED, 1)


def where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(tb):
        if os.sep + 'hapuamod' + os.sep in fr.filename:
            return '%s:%s' % (os.path.basename(fr.filename), fr.name)
    return '?'


def model_main(cfg, overwrite, run, tap, entry='lib', args=()):
    """Run the real model entry point to its end; classify how it ended."""
    from hapuamod import core
    run.tap = tap
    try:
        if entry == 'cli':
            import runpy
            sys.argv = ['hapuamod', cfg] + list(args)
            try:
                runpy.run_module('hapuamod', run_name='__main__', alter_sys=True)
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise
        elif overwrite is None:
            core.main(cfg)
        else:
            core.main(cfg, overwrite)
        return run.result('ok', log=tap.n, text=tap.text)
    except SimBudget as e:
        return run.result('budget', what=str(e), log=tap.n, text=tap.text)
    except SimCrash:
        return run.result('crash', log=tap.n, text=tap.text)
    except BaseException as e:
        return run.result('raise', type=type(e).__name__, mro=[c.__name__ for c in type(e).__mro__],
                          msg=str(e)[:500], where=where(e), log=tap.n, text=tap.text,
                          tb=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:])


def in_child(fn, wd, cpu=120, what=None):
    """Run fn() in a forked process with a CPU limit; return its pickled result."""
    res = os.path.join(wd, '.result')
    for p in (res, os.path.join(wd, '.partial')):
        if os.path.exists(p):
            os.unlink(p)
    pid = os.fork()
    if pid == 0:
        code = 71
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            lg = os.open(os.path.join(wd, '.stderr'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(lg, 1)
            os.dup2(lg, 2)
            os.chdir(wd)
            r = fn()
            lib.hs_ctl(ARMED, 0)
            with open(res + '.tmp', 'wb') as f:
                pickle.dump(r, f)
            os.rename(res + '.tmp', res)
            code = 0
        except BaseException:
            traceback.print_exc()
            try:
                sys.stderr.flush()
            except Exception:
                pass
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.path.exists(res):
        with open(res, 'rb') as f:
            return pickle.load(f)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASH_CODE:
        p = os.path.join(wd, '.partial')
        if os.path.exists(p):
            with open(p, 'rb') as f:
                return pickle.load(f)
        return dict(status='crash', fired={}, solves=0, opens=0, writes=0, conv=[], prompts=[], stats=[0] * 8, events=[], nevents=0, appends=[])
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
        return dict(status='hang', fired={}, solves=0, opens=0, writes=0, conv=[], prompts=[], stats=[0] * 8, events=[], nevents=0, appends=[])
    err = ''
    try:
        err = open(os.path.join(wd, '.stderr'), errors='replace').read()[-3000:]
    except OSError:
        pass
    return dict(status='died', code=st, err=err, fired={}, solves=0, opens=0, writes=0, conv=[], prompts=[], stats=[0] * 8, events=[], nevents=0, appends=[])


def simulate(scn, env, wd, overwrite=True, cfg=None, cpu=120, inputs=True, entry='lib', args=(), cwd=None):
    """One simulated run of the whole model in directory wd."""
    from . import scenario
    os.makedirs(wd, exist_ok=True)
    if inputs:
        cfg = scenario.write_inputs(scn, wd)

    def go():
        global STATE
        tap = LogTap()
        lg = logging.getLogger()
        lg.setLevel(logging.DEBUG if env.get('debug') else logging.INFO)
        lg.handlers[:] = [tap]
        run = Run(env, wd)
        apply_env(env, wd)
        STATE = run
        if env.get('plots'):
            from . import figures
            figures.tap(run)
        if cwd:
            os.chdir(cwd)
        try:
            return model_main(cfg, overwrite, run, tap, entry, args)
        finally:
            STATE = None
            lib.hs_ctl(ARMED, 0)
    return in_child(go, wd, cpu=cpu)


class Baton:
    """Cooperative scheduler: the threads of one process run one at a time and
    hand over only at seam points; a seeded generator picks who goes on."""

    def __init__(self, ids, seed, every):
        self.every = max(1, int(every))
        self.rng = random.Random('baton:%s' % seed)
        self.locks = {i: threading.Semaphore(0) for i in ids}
        self.live = list(ids)
        self.switches = 0
        self.done = threading.Semaphore(0)
        self.trace = []

    def start(self):
        self.locks[self.rng.choice(self.live)].release()

    def point(self, me):
        nxt = self.rng.choice(self.live)
        if nxt != me:
            self.switches += 1
            if len(self.trace) < 400:
                self.trace.append(nxt)
            self.locks[nxt].release()
            self.locks[me].acquire()

    def finish(self, me):
        self.live.remove(me)
        if self.live:
            self.locks[self.rng.choice(self.live)].release()
        else:
            self.done.release()


def simulate_many(jobs, wd, sched, cpu=300):
    """Several runs in one process, interleaved (sched = dict(seed, every)) or
    one after the other (sched = None). jobs: [(ident, cfg, env)]."""
    def go():
        tap = LogTap()
        lg = logging.getLogger()
        lg.setLevel(logging.INFO)
        lg.handlers[:] = [tap]
        out = {}
        if sched is None:
            global STATE
            for ident, cfg, env in jobs:
                run = Run(env, wd, ident)
                apply_env(env, wd)
                STATE = run
                try:
                    out[ident] = model_main(cfg, True, run, LogTap())
                finally:
                    STATE = None
            return dict(status='ok', runs=out, switches=0, trace=[])
        bat = Baton([j[0] for j in jobs], sched['seed'], sched['every'])
        apply_env(jobs[0][2], wd)

        def body(ident, cfg, env):
            e = env.get('ambient', {})
            hapfill.set(e.get('mem', 1), e.get('mem_seed', 1))
            run = Run(env, wd, ident)
            run.sched = bat
            _tls.run = run
            bat.locks[ident].acquire()
            try:
                out[ident] = model_main(cfg, True, run, LogTap())
            finally:
                _tls.run = None
                bat.finish(ident)
        ths = [threading.Thread(target=body, args=j, daemon=True) for j in jobs]
        for t in ths:
            t.start()
        bat.start()
        bat.done.acquire()
        for t in ths:
            t.join()
        return dict(status='ok', runs=out, switches=bat.switches, trace=bat.trace)
    return in_child(go, wd, cpu=cpu)


def read_rows(path):
    """Independent reader of a result file (real netCDF4, no masking)."""
    d = real['Dataset'](path, 'r')
    try:
        d.set_auto_mask(False)
        out = {v: d[v][...] for v in d.variables}
        out['_dtype'] = {v: d[v].dtype.str for v in d.variables}
        out['_units'] = d['time'].units
        out['_attrs'] = {a: d.getncattr(a) for a in d.ncattrs()}
        return out
    finally:
        d.close()


def simulate_fresh(scn, env, wd, hashseed, extra=None):
    """The same as simulate(), in a new interpreter with another hash seed and
    other environment variables."""
    import json
    os.makedirs(wd, exist_ok=True)
    spec, res = os.path.join(wd, '.spec'), os.path.join(wd, '.res')
    with open(spec, 'w') as f:
        json.dump(dict(scn=scn, env=env, wd=wd), f)
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), HAPSIM_PHS=str(hashseed))
    e.update(extra or {})
    p = subprocess.run([VENV_PY, os.path.join(VERIF, 'hapsim', 'sub.py'), spec, res], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300, cwd=wd)
    if not os.path.exists(res):
        return dict(status='died', err=p.stdout.decode(errors='replace')[-800:], fired={}, appends=[])
    with open(res, 'rb') as f:
        return pickle.load(f)
