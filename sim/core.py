"""Environment set-up, imports of the real code, digests, scratch dirs."""
import hashlib
import logging
import os
import sys
import tempfile
import shutil
import warnings

for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from . import seams                                   # noqa: E402

_base = None


def scratch_base():
    """A scratch root of this process tree, removed at exit by the driver."""
    global _base
    if _base is None:
        root = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        if root:
            st = os.statvfs(root)
            if st.f_bavail * st.f_frsize < 512 * 2**20:
                root = None
        _base = tempfile.mkdtemp(prefix='aeosim-', dir=root)
        os.environ['MPLCONFIGDIR'] = os.path.join(_base, 'mpl')
        os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    return _base


def rmtree(d):
    shutil.rmtree(d, ignore_errors=True)


_loaded = False


def load():
    """Installs the seams and imports the code under test from /repo."""
    global _loaded
    if _loaded:
        return
    _loaded = True
    scratch_base()
    repo = os.environ.get('AEOSIM_REPO', '/repo')
    sys.path.insert(0, repo)
    seams.install()
    import numpy as np
    np.seterr(all='ignore')
    import aeolis
    import aeolis.model
    assert os.path.realpath(aeolis.__file__).startswith(os.path.realpath(repo) + os.sep), aeolis.__file__
    logging.lastResort = None
    logging.raiseExceptions = False


class Quiet:
    """stdout/stderr of the code under test go nowhere."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.f = seams.REAL['open'](os.devnull, 'w')
        sys.stdout = sys.stderr = self.f
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        self.f.close()
        return False


def reset_logging():
    """Drop whatever handlers a simulated process left behind."""
    for name in list(logging.root.manager.loggerDict):
        if name == 'aeolis' or name.startswith('aeolis.'):
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                try:
                    h.close()
                except Exception:
                    pass


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else repr(p).encode())
        m.update(b'|')
    return m.hexdigest()[:16]
