"""Durability of output records under crashes and disk errors."""
import os

import numpy as np

from .common import *
from .C03 import due, f32, outfile, visible, NAMES

LEVEL = 'fault_enumeration'
RUNS = (600, 20000)
RULE = ('one case = one seeded scenario whose output operations are recorded in a fault-free run (with the file read back '
        'at every time step) and which is then run again with one seeded fault (I/O error, full disk, permission lost, or '
        'crash of the process) at one output operation or a crash at the start of a time step; non-trivial when the fault '
        'fired after at least one record was complete; distinct by scenario structure, operation and fault')
ASSUMPTIONS = ['a crash of the process loses what was not handed to the operating system; loss of power and torn sectors '
               'below the HDF5 library are not simulated',
               'faults hit between library calls (open, create variable, put, close), not inside the HDF5 library']


def gen(rng):
    s = scenario.gen(rng, dim=rng.choice([1, 1, 1, 2]), steps=rng.randint(3, 9), allow=PHYS + ['veg'], mbc=999.)
    eff = min(s['dt'], .1 * s['dx']) if s['scheme'] == 'euler_forward' else s['dt']
    step = eff * s['accfac']
    s['vars'] = rng.sample(NAMES, rng.randint(1, 5))
    if rng.random() < .4:
        s['types'] = rng.sample(['avg', 'min', 'max', 'sum', 'var'], 1)
    s['out']['times'] = round(rng.choice([step, step, 2 * step]), 3)
    s['output_file'] = rng.choice([None, None, 'out.nc', 'sub/res.nc'])
    return {'s': s, 'seed': rng.randint(0, 10**6), 'op': rng.random(),
            'do': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'crash', 'crash', 'crash', 'crash step']),
            'forever': rng.random() < .3, 'stale': rng.random() < .4}


def prep(case, d):
    s = case['s']
    cfg = scenario.materialise(s, d)
    out = outfile(cfg, s)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    return cfg, out


def names(s):
    return list(s['vars']) + ['%s_%s' % (v, x) for v in s['vars'] for x in s['types']]


def intact(path, ref, k, vs, what):
    """The first k records of path equal those of ref."""
    if k == 0:
        return
    if not os.path.exists(path):
        raise Viol('%s: the output file with %d records is gone' % (what, k), 'gone')
    try:
        nc = drive.read_nc(path)
    except Exception as e:
        raise Viol('%s: the output file with %d records is not readable any more (%s)' % (what, k, str(e)[:80]), 'unreadable')
    if len(nc['time']) < k:
        raise Viol('%s: %d of %d completed records are left' % (what, len(nc['time']), k), 'lost')
    for v in ['time', 'time_bounds', 'x', 'y', 'fractions'] + vs:
        if v not in ref:
            continue
        if v not in nc:
            raise Viol('%s: variable %s is missing' % (what, v), 'lost')
        a, b = (nc[v][:k], ref[v][:k]) if v not in ('x', 'y', 'fractions') else (nc[v], ref[v])
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
            raise Viol('%s: a completed record of %s has changed' % (what, v), 'changed')


def case_fn(case, d, tally):
    s = case['s']
    vs = names(s)
    cfg, out = prep(case, os.path.join(d, 'a', 'm'))
    times = []
    counts = []

    def on(m, i):
        # another process reads the output at every time step
        times.append(m.t)
        n = len(due(times, s['out']['times']))
        try:
            nc = drive.read_nc(out)
        except Exception as e:
            raise Viol('output file is not readable at t=%r: %s' % (m.t, str(e)[:80]), 'reader')
        if len(nc['time']) != n:
            raise Viol('%d records on disk at t=%r, expected %d' % (len(nc['time']), m.t, n), 'late')
        if n and due(times, s['out']['times'])[-1] == len(times) - 1:
            for v in s['vars']:
                if v in m.s and v in nc:
                    x = f32(np.asarray(m.s[v]) / (s['accfac'] if v in ('Ct', 'Cu') else 1.))
                    if not np.array_equal(nc[v][n - 1], x, equal_nan=True):
                        raise Viol('record of %s on disk at t=%r is not the state at that time' % (v, m.t), 'late value')
        counts.append(n)
    with World(os.path.dirname(cfg)) as w:
        o = drive.run(cfg, on_step=on, seed=case['seed'])
    if o.kind == 'budget':
        return
    exc_viol(o, 'fault-free run')
    tally.runs += 1
    tally.steps += o.steps
    tally.simtime += o.model.t
    ref = drive.read_nc(out)
    cand = [op for op in w.ops if op[0].startswith('nc_') and op[0] != 'nc_open_r']
    if not cand:
        raise Viol('the run did not write output', 'none')
    do = case['do']
    # the first operations create the file; favour the rest
    op = int(case['op'] * len(cand))
    kstep = int(case['op'] * len(times))
    kind = cand[op][0]
    flt = [] if do == 'crash step' else [{'op': op, 'of': 'nc', 'do': do, 'n': 10**9 if case['forever'] and do != 'crash' else 1}]
    cfgb, outb = prep(case, os.path.join(d, 'b', 'm'))
    if case['stale']:
        # left over from an earlier simulation with other settings
        with seams.REAL['open'](outb, 'wb') as fp:
            with seams.REAL['open'](out, 'rb') as src:
                fp.write(src.read())
    log = os.path.join(d, 'progress')
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def on2(m, i):
        os.write(fd, b'%d\n' % i)
        if do == 'crash step' and i == kstep:
            os._exit(77)

    def go():
        with World(os.path.dirname(cfgb), flt) as wb:
            o = drive.run(cfgb, on_step=on2, seed=case['seed'])
        return o.kind, str(o), len(wb.fired), o.cwd_kept
    if do.startswith('crash'):
        code, r = drive.in_child(go)
        if code != 77:
            if r is None:
                raise RuntimeError('child ended with %r' % code)
            os.close(fd)
            return
    else:
        r = go()
        if not r[2]:
            os.close(fd)
            return
        if r[0] != 'exception':
            raise Viol('%s at %s of the output file is not reported: the run ends as %r' % (do, kind, r[0]), 'silent')
        if not r[3]:
            raise Viol('working directory is not restored after a disk error', 'cwd')
    os.close(fd)
    tally.runs += 1
    tally.fault('%s at %s' % (do, kind) if do != 'crash step' else 'crash at time step')
    with seams.REAL['open'](log) as fp:
        n = len(fp.readlines())
    k = counts[n - 1] if n else 0
    what = '%s at %s' % (do, '%s (%s)' % (kind, cand[op][2]) if do != 'crash step' else 'time step %d' % kstep)
    intact(outb, ref, k, vs, what)
    if do.startswith('crash') and k:
        # the record being written is there as a whole or not at all
        nc = drive.read_nc(outb)
        for i in range(k, min(len(nc['time']), len(ref['time']))):
            for v in ['time'] + vs:
                if v in ref and not np.array_equal(nc[v][i], ref[v][i], equal_nan=True):
                    raise Viol('%s: the file ends in a record without the values of %s' % (what, v), 'torn')
            tally.kind('record complete before its bounds')
        if len(nc['time']) > k + 1:
            raise Viol('%s: %d records on disk, %d were due' % (what, len(nc['time']), k + 1), 'ahead')
    tally.kind('completed records intact', k)
    tally.state('%s-%s-%d-%d' % (do, kind, k, op))
    if k:
        tally.key = [skey(s), op if do != 'crash step' else kstep, do, case['forever']]


STATES = 'fault kind, disk operation and number of records completed before it'
execute = guarded(case_fn)


def _extra(case):
    import copy
    for k in ('forever', 'stale'):
        if case[k]:
            yield dict(case, **{k: False})
    for i in range(len(case['s']['vars'])):
        if len(case['s']['vars']) > 1:
            c = copy.deepcopy(case)
            del c['s']['vars'][i]
            yield c
    if case['s']['types']:
        c = copy.deepcopy(case)
        c['s']['types'] = []
        yield c


shrink = shrinker(_extra)
