"""Drives the real model: whole runs, BMI stepping, snapshots, digests."""
import glob
import hashlib
import os
import sys
import traceback

import numpy as np

from . import core, seams

BUDGET = 400


class Budget(BaseException):
    """Step budget of a simulated run is exhausted."""


class Stop(BaseException):
    """The simulator stops a simulated run on purpose."""


# ------------------------------------------------------------- snapshots
def arrays(s):
    out = {}
    for k in dict.keys(s):
        v = dict.__getitem__(s, k)
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fiub':
            out[k] = v
        elif isinstance(v, (int, float, np.floating, np.integer, bool)):
            out[k] = np.asarray(v)
    return out


class Snap:
    """A deep copy of everything a user can observe of a model."""
    __slots__ = ('t', 'dt', 's', 'count', 'p')

    def __init__(self, m, only=None):
        self.t = float(m.t)
        self.dt = float(m.dt)
        self.s = {k: np.array(v, copy=True) for k, v in arrays(m.s).items()
                  if only is None or k in only}
        self.count = dict(m.c)
        self.p = None

    def digest(self, skip=()):
        return digest_arrays(self.t, self.s, skip)


def digest_arrays(t, s, skip=()):
    m = hashlib.sha256(repr(float(t)).encode())
    for k in sorted(s):
        if k in skip:
            continue
        a = np.ascontiguousarray(s[k])
        if a.dtype.kind == 'f':
            a = a + 0.          # -0. == 0.
        m.update(k.encode())
        m.update(repr(a.shape).encode())
        m.update(a.tobytes())
    return m.hexdigest()[:20]


def digest(m, skip=()):
    return digest_arrays(m.t, arrays(m.s), skip)


def diff(a, b, skip=(), rtol=0., atol=0.):
    """First difference between two snapshots, or None."""
    if a.t != b.t and not (rtol and abs(a.t - b.t) <= rtol * max(1., abs(a.t))):
        return 'time %r != %r' % (a.t, b.t)
    for k in sorted(set(a.s) | set(b.s)):
        if k in skip:
            continue
        if k not in a.s or k not in b.s:
            return 'variable %s exists on one side only' % k
        x, y = a.s[k], b.s[k]
        if x.shape != y.shape:
            return 'shape of %s: %r != %r' % (k, x.shape, y.shape)
        if rtol or atol:
            ok = np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
        else:
            ok = np.array_equal(x, y, equal_nan=True) if x.dtype.kind == 'f' and y.dtype.kind == 'f' \
                else np.array_equal(x, y)
        if not ok:
            with np.errstate(all='ignore'):
                e = np.nanmax(np.abs(np.asarray(x, float) - np.asarray(y, float)))
            return 'variable %s differs at t=%r (max abs difference %.6g)' % (k, a.t, e)
    return None


# ------------------------------------------------------------------ runs
def tkey(seed, t):
    return int.from_bytes(hashlib.sha256(('%s:%r' % (seed, float(t))).encode()).digest()[:4], 'little')


def reseed(seed, t):
    """The random numbers of a time step depend on seed and time only."""
    np.random.seed(tkey(seed, t))


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if os.sep + 'aeolis' + os.sep in f.filename:
            return '%s:%s' % (os.path.basename(f.filename), f.name)
    return tb[-1].name if tb else '?'


def in_aeolis(e):
    """Does the exception originate in the code under test (or a library it
    called), rather than in the harness?"""
    if getattr(e, 'deliberate', False):
        return True
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if os.sep + 'sim' + os.sep in f.filename and not f.filename.endswith(('seams.py', 'world.py')):
            return False
        if os.sep + 'aeolis' + os.sep in f.filename:
            return True
    return False


class Outcome:
    def __init__(self):
        self.kind = 'ok'        # ok | exception | budget | stop
        self.exc = None
        self.msg = ''
        self.where = ''
        self.cwd_kept = True
        self.model = None
        self.steps = 0

    def __str__(self):
        return self.kind if self.kind != 'exception' else \
            '%s: %s [%s]' % (type(self.exc).__name__, self.msg, self.where)


def make(cfg, runner=True):
    import aeolis.model as M
    return (M.AeoLiSRunner if runner else M.AeoLiS)(cfg)


def run(cfg, on_step=None, restartfile=None, seed=0, budget=BUDGET, callback=None,
        params=None, cwd=None, model=None, quiet=True, config_callback=False):
    """One complete AeoLiSRunner.run().  on_step(model, i) is called at the
    start of every time step, before `callback`."""
    o = Outcome()
    home = os.getcwd()
    if cwd:
        os.chdir(cwd)
    before = os.getcwd()
    n = [0]

    def cb(m):
        if n[0] >= budget:
            raise Budget()
        reseed(seed, m.t)
        if on_step is not None:
            on_step(m, n[0])
        n[0] += 1
        if callback is not None:
            callback(m)

    q = core.Quiet() if quiet else None
    if q:
        q.__enter__()
    try:
        m = model or make(cfg)
        o.model = m
        if params:
            m.set_params(**params)
        if config_callback:
            m.run(restartfile=restartfile)
        else:
            m.run(callback=cb, restartfile=restartfile)
    except Budget:
        o.kind = 'budget'
    except Stop:
        o.kind = 'stop'
    except Exception as e:
        if not in_aeolis(e):
            raise
        o.kind, o.exc, o.msg, o.where = 'exception', e, str(e)[:200], where(e)
    finally:
        if q:
            q.__exit__()
        o.cwd_kept = os.getcwd() == before
        os.chdir(home)
        core.reset_logging()
    o.steps = n[0]
    return o


class cd:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)
        return False


def bmi(cfg, runner=False):
    """An initialised model driven through the BMI."""
    with cd(os.path.dirname(cfg)), core.Quiet():
        m = make(cfg, runner)
        m.initialize()
        if runner and glob.glob('*.hotstart'):
            m.load_hotstartfiles()
    return m


def step(m, dt=-1, seed=None):
    if seed is not None:
        reseed(seed, m.t)
    with core.Quiet():
        m.update(dt)


# -------------------------------------------------------------- outputs
def read_nc(path):
    """All variables of an output file as numpy arrays."""
    ds = seams.REAL['Dataset'](path, 'r')
    try:
        out = {}
        for k, v in ds.variables.items():
            a = v[...]
            out[k] = np.ma.filled(np.ma.asarray(a).astype(float), np.nan) if k != 'crs' else None
        return out
    finally:
        ds.close()


def in_child(fn, *a):
    """Runs fn in a forked process; returns (exit status, pickled result)."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = fn(*a)
                data = pickle.dumps(('ok', res))
            except BaseException as e:      # noqa
                data = pickle.dumps(('err', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]))
            with os.fdopen(w, 'wb') as fp:
                fp.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    res = None
    if data:
        tag, res = pickle.loads(data)
        if tag == 'err':
            raise RuntimeError('child: ' + res)
    return code, res
