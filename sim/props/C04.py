"""Output statistics cover exactly the steps since the last record or clearing read."""
import os

import numpy as np

from .common import *
from .C03 import due, f32, outfile, NAMES

LEVEL = 'exploration'
RUNS = (900, 36000)
RULE = ('one case = one seeded scenario with seeded output interval and statistics, a callback that reads statistics at '
        'seeded steps with or without clearing them; every record and every read is compared with statistics computed '
        'from the recorded states; non-trivial when a record or read covered at least two time steps; distinct by '
        'scenario structure, output interval, variables and reading schedule')
ASSUMPTIONS = ['all reads within one time step use the same clearing flag',
               'variance is the sample variance (n-1)', 'runs start at t=0']
STAT = ['avg', 'sum', 'min', 'max', 'var']


def gen(rng):
    s = scenario.gen(rng, steps=rng.randint(4, 16), allow=PHYS + ['veg'], dim=rng.choice([1, 1, 1, 2]))
    eff = min(s['dt'], .1 * s['dx']) if s['scheme'] == 'euler_forward' else s['dt']
    step = eff * s['accfac']
    s['out']['times'] = round(rng.choice([step, 2 * step, 3 * step, 2.5 * step, 5 * step, 1e9]), 3)
    names = rng.sample(NAMES, rng.randint(1, 4))
    mode = rng.random()
    if mode < .4:
        s['types'] = rng.sample(STAT, rng.randint(1, 5))
        s['vars'] = names
    else:
        s['vars'] = []
        for n in names:
            if rng.random() < .4:
                s['vars'].append(n)
            for x in rng.sample(STAT, rng.randint(1, 3)):
                s['vars'].append(n + rng.choice(['_', '_', '_', '.']) + x)
        rng.shuffle(s['vars'])
    reads = {}
    kind = rng.choice(['none', 'sparse', 'sparse', 'dense'])
    if kind != 'none':
        p = .3 if kind == 'sparse' else .8
        for i in range(40):
            if rng.random() < p:
                reads[str(i)] = rng.random() < .5
    return {'s': s, 'seed': rng.randint(0, 10**6), 'reads': reads}


def split(s):
    """{variable: set of statistics}"""
    out = {}
    for v in s['vars']:
        x = None
        for sep in ('_', '.'):
            if sep in v and v.rsplit(sep, 1)[1] in STAT:
                v, x = v.rsplit(sep, 1)
                break
        out.setdefault(v, set())
        if x:
            out[v].add(x)
        out[v].update(s['types'])
    return out


def expect(acc, stat, shape):
    n = len(acc)
    a = np.array(acc) if n else None
    with np.errstate(all='ignore'):
        if stat == 'sum':
            return np.zeros(shape) if not n else a.sum(axis=0)
        if stat == 'avg':
            return np.zeros(shape) if not n else a.sum(axis=0) / n
        if stat == 'min':
            return np.full(shape, np.inf) if not n else a.min(axis=0)
        if stat == 'max':
            return np.full(shape, -np.inf) if not n else a.max(axis=0)
        if stat == 'var':
            return np.zeros(shape) if n < 2 else a.var(axis=0, ddof=1)


def tol(acc, stat):
    """Absolute round-off of the statistic."""
    if not len(acc):
        return 0.
    m = np.max(np.abs(np.array(acc)), axis=0)
    m = np.where(np.isfinite(m), m, 0.)
    if stat in ('min', 'max'):
        return 0.
    n = len(acc)
    return 1e-12 * n * (m * m if stat == 'var' else m) + 1e-300


def close(a, b, t, rtol):
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((a == b) | (np.abs(a - b) <= t + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))))


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    want = split(s)
    acc = {k: [] for k in want}
    records = []
    st = {'last': None, 'covered': 0, 'tout': 0.}
    times = []

    def seen(m, i):
        """Called after every step (and once before the first)."""
        for k in want:
            if k in m.s and i > 0:
                v = np.array(m.s[k], copy=True)
                if k in ('Ct', 'Cu'):
                    v = v / s['accfac']
                acc[k].append(v)
        times.append(m.t)
        # record due now?
        if m.t == 0. or m.t - st['tout'] >= s['out']['times']:
            records.append((m.t, {k: list(a) for k, a in acc.items()}))
            for a in acc.values():
                a.clear()
            st['tout'] = m.t

    def cb(m, i):
        if st['last'] is not None and st['last']:
            # the previous read asked for clearing before the step just made
            pass
        seen(m, i)
        r = case['reads'].get(str(i))
        if r is None:
            return
        # read order does not matter: reads do not change what is read
        for k in sorted(want):
            for x in sorted(want[k]):
                got = m.get_var('%s_%s' % (k, x), clear=r)
                if k not in m.s:
                    continue
                e = expect(acc[k], x, np.shape(m.s[k]))
                if got is None or not close(np.asarray(got, float), np.asarray(e, float), tol(acc[k], x), 1e-9):
                    raise Viol('%s_%s read at t=%r does not cover the %d time steps since the last record or clearing '
                               'read' % (k, x, m.t, len(acc[k])), 'read ' + x)
                tally.kind('statistic read')
                if len(acc[k]) > 1:
                    st['covered'] += 1
        if r and any(want.values()):
            for a in acc.values():
                a.clear()
            tally.kind('clearing read')
    o = drive.run(cfg, on_step=cb, seed=case['seed'])
    if o.kind == 'budget':
        return
    exc_viol(o, 'run')
    seen(o.model, o.steps)
    tally.runs += 1
    tally.simtime += o.model.t
    tally.steps += o.steps
    nc = drive.read_nc(outfile(cfg, s))
    if len(nc['time']) != len(records) or any(a != b[0] for a, b in zip(nc['time'], records)):
        raise Viol('records at %r instead of %r' % (list(nc['time'])[:20], [r[0] for r in records][:20]), 'times')
    for j, (t, a) in enumerate(records):
        for k in sorted(want):
            if k not in o.model.s:
                continue
            shape = np.shape(o.model.s[k])
            for x in sorted(want[k]):
                n = '%s_%s' % (k, x)
                if n not in nc:
                    raise Viol('requested statistic %s is not in the output file' % n, 'variable')
                e = np.asarray(expect(a[k], x, shape), float)
                if not close(nc[n][j], f32(e), tol(a[k], x), 1e-6):
                    raise Viol('record of %s at t=%r does not cover the %d time steps since the last record or '
                               'clearing read' % (n, t, len(a[k])), 'record ' + x)
                tally.kind('statistic recorded')
                if len(a[k]) > 1:
                    st['covered'] += 1
                    tally.state(drive.digest_arrays(t, {n: e}))
    if st['covered']:
        tally.key = [skey(s), s['out']['times'], sorted(s['vars']), sorted(s['types']), sorted(case['reads'].items())[:10]]


STATES = 'sha256 of the value of a statistic over at least two time steps'
execute = guarded(case_fn)


def _extra(case):
    import copy
    if case['reads']:
        yield dict(case, reads={})
        ks = sorted(case['reads'])
        yield dict(case, reads={k: case['reads'][k] for k in ks[:len(ks) // 2]})
    for i in range(len(case['s']['vars'])):
        if len(case['s']['vars']) > 1:
            c = copy.deepcopy(case)
            del c['s']['vars'][i]
            yield c


shrink = shrinker(_extra)
