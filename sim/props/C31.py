"""Watching, plotting and recording a run leaves it as it is."""
import copy
import glob
import logging
import os

import numpy as np

from .common import *
from .C03 import outfile

LEVEL = 'exploration'
RUNS = (420, 15000)
RULE = ('one case = one seeded scenario run undisturbed, and again with the same random numbers while it is watched in a seeded mix of ways '
        '(figures of the input, log at debug level, reads of all variables, statistics, parameters and metadata at seeded moments, more output '
        'variables and statistics, another output interval, restart files, progress reports after jumps of the clock); states are compared before '
        'every step, records of the same variables and times at the end; non-trivial when at least three steps were compared; distinct by scenario '
        'structure and ways of watching')
ASSUMPTIONS = ['figures are drawn at low resolution to save time', 'statistics are read without clearing them']
STUB = ['resolution and layout of figures']

WAYS = ['figures', 'debug', 'read', 'stats', 'more variables', 'interval', 'restart files', 'clock', 'metadata']


def gen(rng):
    s = scenario.gen(rng, steps=rng.randint(3, 9), allow=ALL if rng.random() < .5 else PHYS + ['veg'], mbc=None if rng.random() < .6 else .005)
    if s['shear'] and s['dim'] == 2:
        s['nx'], s['ny'] = 6, 3
        s['tstop'] = round(s['tstop'] * .4, 3)
    if s['mbc'] != 999. and s['gw']:
        s['mbc'] = 999.
    ways = [w for w in WAYS if rng.random() < (.3 if w != 'figures' else .22)] or [rng.choice(WAYS)]
    return {'s': s, 'seed': rng.randint(0, 10**6), 'ways': ways, 'wseed': rng.randint(0, 10**6)}


class Sink(logging.Handler):
    """Formats every record, keeps none."""

    def emit(self, record):
        self.format(record)


def plain(v):
    return v is None or isinstance(v, (bool, int, float, str, list, tuple, np.ndarray))


def params(m, skip):
    return {k: copy.deepcopy(v) for k, v in m.p.items() if k not in skip and not k.startswith('_') and plain(v)}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' and b.dtype.kind in 'fc' else np.array_equal(a, b))
    return type(a) == type(b) and (a == b or a != a)


def watch(m, r, ways, tally):
    """The user looks around between two steps."""
    if 'read' in ways:
        for k in sorted(m.s.keys()):
            m.get_var(k, clear=False)
        for k in sorted(m.p.keys()):
            m.get_var(k, clear=False)
        m.get_current_time(), m.get_start_time(), m.get_end_time(), m.get_count('time')
        tally.fault('all variables read')
    if 'metadata' in ways:
        n = m.get_var_count()
        for i in r.permutation(n + 2):
            k = m.get_var_name(int(i))
            m.get_var_rank(k), m.get_var_shape(k), m.get_var_type(k)
        m.dimensions() if r.rand() < .3 else None
        tally.fault('metadata read')
    if 'stats' in ways:
        for k in list(m.p['_output_vars']):
            for e in ('avg', 'sum', 'var', 'min', 'max'):
                if r.rand() < .5:
                    m.get_var(k + r.choice(['_', '.']) + e, clear=False)
                    m.get_statistic(k, e)
        tally.fault('statistics read')


def case_fn(case, d, tally):
    s = case['s']
    ways = case['ways']
    r = np.random.RandomState(case['wseed'])
    cfg = scenario.materialise(s, os.path.join(d, 'a', 'm'))
    ref, pref = [], []
    skip = {'visualization', 'output_times', 'restart', 'output_vars', 'output_types', 'output_file'}
    with World(os.path.dirname(cfg)):
        o = drive.run(cfg, on_step=lambda m, i: (ref.append(drive.Snap(m)), pref.append(params(m, skip))), seed=case['seed'], budget=60)
    if o.kind == 'budget':
        return
    exc_viol(o, 'undisturbed run')
    ref.append(drive.Snap(o.model))
    w = copy.deepcopy(s)
    x = w.setdefault('extra', {})
    if 'figures' in ways:
        x['visualization'] = True
    if 'interval' in ways:
        w['out'] = {'times': float(r.choice([.3, 1.7, 4.])) * s['dt'] * s['accfac']}
    if 'restart files' in ways:
        w['restart'] = max(1., s['dt'] * s['accfac'] * r.choice([1., 2.]))
    if 'more variables' in ways:
        w['vars'] = list(w['vars']) + [v for v in ('moist', 'ustar', 'uth', 'pickup', 'Cu', 'Ct', 'w', 'mass', 'zb', 'uw', 'qs', 'Hs', 'R', 'TWL', 'dzb', 'tau')
                                       if v not in w['vars'] and r.rand() < .5]
        w['types'] = sorted(set(w['types']) | {t for t in ('avg', 'sum', 'var', 'min', 'max') if r.rand() < .5})
    cfg2 = scenario.materialise(w, os.path.join(d, 'b', 'm'))
    clk = {'start': 1e9, 'tick': .02, 'jumps': [[int(r.randint(0, 40)), float(r.choice([-60., 61., 600., 7200.]))] for _ in range(4)]} if 'clock' in ways else {}
    n = [0]
    log = logging.getLogger('aeolis')
    sink = Sink(logging.DEBUG)

    def look(m, i):
        if 'debug' in ways and i == 0:
            log.addHandler(sink)
            log.setLevel(logging.DEBUG)
        st = np.random.get_state()
        if r.rand() < .7:
            watch(m, r, ways, tally)
        new = np.random.get_state()
        if not all(np.array_equal(p, q) for p, q in zip(st, new)):
            raise Viol('reading consumes random numbers at t=%r' % m.t, 'random numbers')
        if i < len(ref) - 1:
            compare(ref[i], drive.Snap(m), pref[i], params(m, skip))
        n[0] += 1

    def compare(a, b, pa, pb):
        e = drive.diff(a, b)
        if e is None and pa is not None:
            for k in sorted(set(pa) | set(pb)):
                if k not in pa or k not in pb or not same(pa[k], pb[k]):
                    e = 'parameter %s is %.80r instead of %.80r' % (k, pb.get(k), pa.get(k))
                    break
        if e is None and a.dt != b.dt:
            e = 'time step %r != %r' % (a.dt, b.dt)
        if e is not None:
            raise Viol('watching the run (%s) changes it: %s, at t=%r' % (', '.join(ways), e, a.t), 'changed ' + e[:30].rstrip('0123456789. '))

    import matplotlib.figure as F
    save = F.Figure.savefig
    lay = F.Figure.tight_layout
    F.Figure.savefig = lambda self, f, **k: save(self, f, **dict(k, dpi=20))
    F.Figure.tight_layout = lambda self, *a, **k: None
    try:
        with World(os.path.dirname(cfg2), clock=clk) if clk else World(os.path.dirname(cfg2)):
            o2 = drive.run(cfg2, on_step=look, seed=case['seed'], budget=60)
    finally:
        F.Figure.savefig, F.Figure.tight_layout = save, lay
        log.removeHandler(sink)
    if o2.kind == 'budget':
        raise Viol('watching the run (%s) makes it longer than the undisturbed one of %d steps' % (', '.join(ways), o.steps), 'longer')
    exc_viol(o2, 'watched run (%s)' % ', '.join(ways))
    if o2.steps != o.steps:
        raise Viol('watching the run (%s) takes %d steps instead of %d' % (', '.join(ways), o2.steps, o.steps), 'steps')
    compare(ref[-1], drive.Snap(o2.model), None, None)
    for k in ways:
        tally.kind(k)
    if 'figures' in ways:
        f = {os.path.basename(q) for q in glob.glob(os.path.join(os.path.dirname(cfg2), 'figure_*.png'))}
        if len(f) < 3:
            raise Viol('of the figures asked for only %s were made' % sorted(f), 'figures')
        import matplotlib.pyplot as plt
        if plt.get_fignums():
            plt.close('all')
            raise Viol('figures stay open after they were saved', 'figures open')
    # records
    a, b = drive.read_nc(outfile(cfg, s)), drive.read_nc(outfile(cfg2, w))
    rows = [(i, j) for i, t in enumerate(a['time']) for j, q in enumerate(b['time']) if t == q]
    if not rows or ('interval' not in ways and len(rows) != len(a['time'])):
        raise Viol('watching the run (%s) leaves other records: %s instead of %s' % (', '.join(ways), b['time'], a['time']), 'records')
    for k in a:
        if k not in s['vars'] and k.rsplit('_', 1)[0] not in s['vars']:
            continue
        if k not in b:
            raise Viol('watching the run (%s) leaves out variable %s' % (', '.join(ways), k), 'left out')
        if 'interval' in ways and k.rsplit('_', 1)[-1] in ('avg', 'sum', 'var', 'min', 'max'):
            continue
        for i, j in rows:
            if not np.array_equal(a[k][i], b[k][j], equal_nan=True):
                raise Viol('watching the run (%s) changes the record of %s at t=%r' % (', '.join(ways), k, a['time'][i]), 'record ' + k)
    tally.runs += 2
    tally.steps += o.steps + o2.steps
    tally.simtime += ref[-1].t - ref[0].t
    for q in ref:
        tally.state(q.digest())
    if o.steps >= 3:
        tally.key = [skey(s), ways, case['wseed']]


execute = guarded(case_fn)


def _extra(case):
    for k in case['ways']:
        if len(case['ways']) > 1:
            yield dict(case, ways=[q for q in case['ways'] if q != k])


shrink = shrinker(_extra)
