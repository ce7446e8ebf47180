"""Seams the simulator owns.

Installed before aeolis is imported.  Everything is patched at the level of
the *library* the code under test calls (time, builtins.open, os, shutil,
numpy.random, netCDF4), never at the level of an aeolis name, so that a
refactoring of aeolis does not move a seam.

  clock    time.time / time.monotonic / time.perf_counter / time.strftime /
           time.localtime / time.gmtime / time.sleep
  random   numpy.random.* and random.* legacy global generators
  disk     builtins.open (+ the file objects it returns), os.replace/rename/
           remove/unlink/fsync, shutil.copyfile/move, numpy.savetxt, and
           netCDF4.Dataset (open, createVariable, variable assignment, sync,
           close)

Outside of a simulation (no active World) each seam is transparent.
"""
import builtins
import io
import os
import shutil
import sys
import time as _time
import random as _random

REAL = {
    'open': builtins.open,
    'time': _time.time, 'monotonic': _time.monotonic,
    'perf_counter': _time.perf_counter, 'sleep': _time.sleep,
    'strftime': _time.strftime, 'localtime': _time.localtime, 'gmtime': _time.gmtime,
    'os_replace': os.replace, 'os_rename': os.rename, 'os_remove': os.remove,
    'os_unlink': os.unlink, 'os_fsync': os.fsync,
    'copyfile': shutil.copyfile, 'move': shutil.move,
}

WORLD = None            # the active world, or None


class InjectedError(OSError):
    """A disk error the simulator injected."""


def set_world(w):
    global WORLD
    WORLD = w


# --------------------------------------------------------------- clock
def _now():
    w = WORLD
    return REAL['time']() if w is None else w.clock_read()


def _mono():
    w = WORLD
    return REAL['monotonic']() if w is None else w.clock_read(mono=True)


def _perf():
    w = WORLD
    return REAL['perf_counter']() if w is None else w.clock_read(mono=True)


def _sleep(s):
    w = WORLD
    if w is None:
        return REAL['sleep'](s)
    w.clock_advance(s)


def _localtime(t=None):
    w = WORLD
    if t is None and w is not None:
        t = w.clock_read()
    if t is None:
        return REAL['localtime']()
    return REAL['gmtime'](max(0., min(t, 4e9))) if w is not None else REAL['localtime'](t)


def _gmtime(t=None):
    w = WORLD
    if t is None and w is not None:
        t = max(0., min(w.clock_read(), 4e9))
    return REAL['gmtime']() if t is None else REAL['gmtime'](t)


def _strftime(fmt, tup=None):
    if tup is None:
        if WORLD is None:
            return REAL['strftime'](fmt)
        tup = _localtime()
    return REAL['strftime'](fmt, tup)


# ---------------------------------------------------------------- disk
class FaultFile:
    """A writable file whose operations pass the world's fault plan."""

    def __init__(self, fp, path, world):
        object.__setattr__(self, '_fp', fp)
        object.__setattr__(self, '_path', path)
        object.__setattr__(self, '_w', world)

    def __getattr__(self, k):
        return getattr(self._fp, k)

    def __iter__(self):
        return iter(self._fp)

    def __enter__(self):
        self._fp.__enter__()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def write(self, data):
        w = self._w
        if w is WORLD and w is not None:
            act = w.disk_op('write', self._path, len(data))
            if act is not None:
                keep = act.get('keep', 0)
                if keep > 0:
                    self._fp.write(data[:keep])
                try:
                    self._fp.flush()
                except Exception:
                    pass
                w.fault_raise(act, self._path)
        return self._fp.write(data)

    def close(self):
        w = self._w
        if w is WORLD and w is not None and not self._fp.closed:
            act = w.disk_op('close', self._path, 0)
            if act is not None:
                self._fp.close()
                w.fault_raise(act, self._path)
        return self._fp.close()


def _open(file, mode='r', *a, **k):
    w = WORLD
    if w is None or not isinstance(file, (str, bytes, os.PathLike)) or not w.owns(file):
        return REAL['open'](file, mode, *a, **k)
    writing = any(c in mode for c in 'wax+')
    act = w.disk_op('open_w' if writing else 'open_r', file, 0)
    if act is not None:
        if act.get('effect') == 'after' or (writing and 'w' in mode and act.get('keep', 0)):
            REAL['open'](file, mode, *a, **k).close()
        w.fault_raise(act, file)
    fp = REAL['open'](file, mode, *a, **k)
    if writing and 'log' not in os.path.splitext(str(file))[1]:
        return FaultFile(fp, str(file), w)
    return fp


def _wrap2(name, real):
    def f(src, dst, *a, **k):
        w = WORLD
        if w is not None and (w.owns(src) or w.owns(dst)):
            act = w.disk_op(name, dst, 0)
            if act is not None:
                if name == 'copyfile' and act.get('keep', 0):
                    # a torn copy
                    with REAL['open'](src, 'rb') as i, REAL['open'](dst, 'wb') as o:
                        o.write(i.read()[:act['keep']])
                w.fault_raise(act, dst)
        return real(src, dst, *a, **k)
    return f


def _wrap1(name, real):
    def f(path, *a, **k):
        w = WORLD
        if w is not None and isinstance(path, (str, bytes, os.PathLike)) and w.owns(path):
            act = w.disk_op(name, path, 0)
            if act is not None:
                w.fault_raise(act, path)
        return real(path, *a, **k)
    return f


# -------------------------------------------------------------- netCDF
def _patch_netcdf():
    import netCDF4
    RealDS = netCDF4.Dataset
    REAL['Dataset'] = RealDS

    class VarProxy:
        def __init__(self, v, path):
            object.__setattr__(self, '_v', v)
            object.__setattr__(self, '_path', path)

        def __getattr__(self, k):
            return getattr(self._v, k)

        def __setattr__(self, k, x):
            setattr(self._v, k, x)

        def __getitem__(self, i):
            return self._v[i]

        def __setitem__(self, i, x):
            w = WORLD
            if w is not None and w.owns(self._path):
                act = w.disk_op('nc_put', self._path, 0, self._v.name)
                if act is not None:
                    w.fault_raise(act, self._path)
            self._v[i] = x

        def __len__(self):
            return len(self._v)

    class Vars:
        def __init__(self, ds, path):
            self._d, self._path = ds, path

        def __getitem__(self, k):
            return VarProxy(self._d[k], self._path)

        def __contains__(self, k):
            return k in self._d

        def __iter__(self):
            return iter(self._d)

        def __len__(self):
            return len(self._d)

        def keys(self):
            return self._d.keys()

        def items(self):
            return [(k, VarProxy(v, self._path)) for k, v in self._d.items()]

        def values(self):
            return [VarProxy(v, self._path) for v in self._d.values()]

        def get(self, k, d=None):
            return self[k] if k in self._d else d

    class DSProxy:
        """netCDF4.Dataset behind the disk seam."""

        def __init__(self, filename, mode='r', *a, **k):
            w = WORLD
            object.__setattr__(self, '_path', str(filename))
            object.__setattr__(self, '_ro', mode == 'r')
            if w is not None and w.owns(filename):
                act = w.disk_op('nc_open_' + mode, filename, 0)
                if act is not None:
                    w.fault_raise(act, filename)
            object.__setattr__(self, '_ds', RealDS(filename, mode, *a, **k))

        def __getattr__(self, k):
            if k == 'variables':
                return Vars(self._ds.variables, self._path)
            return getattr(self._ds, k)

        def __setattr__(self, k, v):
            setattr(self._ds, k, v)

        def __getitem__(self, k):
            return VarProxy(self._ds[k], self._path)

        def createVariable(self, *a, **k):
            w = WORLD
            if w is not None and w.owns(self._path):
                act = w.disk_op('nc_create', self._path, 0, a[0] if a else '')
                if act is not None:
                    w.fault_raise(act, self._path)
            return VarProxy(self._ds.createVariable(*a, **k), self._path)

        def sync(self):
            w = WORLD
            if w is not None and w.owns(self._path):
                act = w.disk_op('nc_sync', self._path, 0)
                if act is not None:
                    w.fault_raise(act, self._path)
            return self._ds.sync()

        def close(self):
            w = WORLD
            if w is not None and w.owns(self._path) and not self._ro and self._ds.isopen():
                act = w.disk_op('nc_close', self._path, 0)
                if act is not None:
                    self._ds.close()
                    w.fault_raise(act, self._path)
            return self._ds.close()

        def __enter__(self):
            return self

        def __exit__(self, et, ev, tb):
            if et is not None:
                if self._ds.isopen():
                    self._ds.close()
                return False
            self.close()
            return False

    netCDF4.Dataset = DSProxy


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _time.time = _now
    _time.monotonic = _mono
    _time.perf_counter = _perf
    _time.sleep = _sleep
    _time.strftime = _strftime
    _time.localtime = _localtime
    _time.gmtime = _gmtime
    builtins.open = _open
    io_open = io.open
    io.open = _open
    REAL['io_open'] = io_open
    os.replace = _wrap2('replace', REAL['os_replace'])
    os.rename = _wrap2('rename', REAL['os_rename'])
    os.remove = _wrap1('remove', REAL['os_remove'])
    os.unlink = _wrap1('remove', REAL['os_unlink'])
    shutil.copyfile = _wrap2('copyfile', REAL['copyfile'])
    shutil.move = _wrap2('move', REAL['move'])
    _patch_netcdf()
