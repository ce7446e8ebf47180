"""One simulated world: clock, disk fault plan and event log."""
import errno
import os

from . import seams

ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES,
       'EMFILE': errno.EMFILE, 'EROFS': errno.EROFS}
CRASH_EXIT = 77


class World:
    """root   : directory whose files pass the disk seam
    faults : list of {'op': int, 'do': 'EIO'|...|'crash', 'keep': int, 'n': int}
             fires at the op-th disk operation (0-based) and the n-1 after it
    clock  : {'start': s, 'tick': s, 'jumps': [[read_index, delta], ...]}
    """

    def __init__(self, root, faults=(), clock=None, on_crash=None):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        c = clock or {}
        self.now = float(c.get('start', 1.6e9))
        self.mono = 1000.0
        self.tick = float(c.get('tick', 0.001))
        self.jumps = {int(i): float(d) for i, d in c.get('jumps', [])}
        self.reads = 0
        self.ops = []
        self.nc = 0               # event log: [kind, basename, detail]
        self.fired = []
        self.on_crash = on_crash
        self.armed = True

    # ---- clock
    def clock_read(self, mono=False):
        i = self.reads
        self.reads += 1
        self.now += self.tick
        self.mono += abs(self.tick)
        if i in self.jumps:
            self.now += self.jumps[i]
            if self.jumps[i] > 0:
                self.mono += self.jumps[i]
        return self.mono if mono else self.now

    def clock_advance(self, s):
        self.now += s
        self.mono += s

    # ---- disk
    def owns(self, path):
        try:
            if isinstance(path, bytes):
                path = path.decode()
            path = os.path.abspath(str(path))
        except Exception:
            return False
        return path.startswith(self.root + os.sep) and not path.endswith(('.py', '.log'))

    def disk_op(self, kind, path, n, detail=''):
        if not self.armed:
            return None
        i = len(self.ops)
        self.ops.append([kind, os.path.basename(str(path)), str(detail), int(n)])
        nc = kind.startswith('nc_') and kind != 'nc_open_r'
        j = self.nc
        self.nc += nc
        for f in self.faults:
            # position among all operations, or among those that write netCDF
            if f.get('of') == 'nc' and not nc:
                continue
            k = j if f.get('of') == 'nc' else i
            if f['op'] <= k < f['op'] + f.get('n', 1):
                self.fired.append([i, kind, os.path.basename(str(path)), f['do']])
                return f
        return None

    def fault_raise(self, act, path):
        do = act['do']
        if do == 'crash':
            if self.on_crash is not None:
                self.on_crash(self)
            os._exit(CRASH_EXIT)
        raise seams.InjectedError(ERR[do], 'injected %s' % do, str(path))

    # ---- activation
    def __enter__(self):
        seams.set_world(self)
        return self

    def __exit__(self, *a):
        seams.set_world(None)
        return False
