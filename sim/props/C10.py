"""Data exchange through the Basic Model Interface."""
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (1300, 50000)
RULE = ('one case = one seeded scenario driven by a seeded history of steps, reads, writes (grids by name, grids by index, '
        'parameters, unknown names) and repeated writes of unchanged values; a shadow dictionary predicts every read, and '
        'a second model that only gets the effective writes predicts every state; non-trivial when a write and a later '
        'step took place; distinct by scenario structure and history')
ASSUMPTIONS = ['concentrations are exchanged per unit of accelerated time: a read divides by the acceleration factor']
PARAMS = ['tstop', 'dt', 'k', 'T', 'bi', 'Cb', 'z', 'rhog', 'porosity', 'output_times', 'CFL', 'method_transport']


def gen(rng):
    s = scenario.gen(rng, steps=8, allow=PHYS + (['veg', 'shear'] if rng.random() < .5 else []), mbc=999.,
                     dim=rng.choice([1, 1, 2]))
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 7), min(s['ny'], 3)
    # settings given as whole numbers
    whole = {'z': 10, 'rhog': 2650, 'Cb': 2, 'T': 1, 'bi': 1, 'CFL': 1, 'dt': int(s['dt'])}
    for k in sorted(whole):
        if rng.random() < .4:
            s.setdefault('extra', {})[k] = whole[k]
    hist = []
    for _ in range(rng.randint(5, 22)):
        r = rng.random()
        if r < .3:
            hist.append(['step'])
        elif r < .45:
            hist.append(['readall', rng.random() < .5])
        elif r < .6:
            hist.append(['set', rng.random(), rnd(rng, .9, 1.1)])
        elif r < .7:
            hist.append(['seti', rng.random(), rnd(rng, .9, 1.1)])
        elif r < .8:
            hist.append(['param', rng.choice(PARAMS), rnd(rng, .8, 1.2)])
        elif r < .9:
            hist.append(['same', rng.choice(['one', 'all', 'index']), rng.random()])
        elif r < .95:
            hist.append(['unknown'])
        else:
            hist.append(['meta'])
    hist += [['meta'], ['step'], ['readall', True]]
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist, 'runner': rng.random() < .5}


FREE = ('zb', 'mass', 'Ct', 'moist', 'rhoveg', 'hveg', 'zs', 'uth', 'pickup', 'salt', 'dzbavg', 'gw', 'Cu', 'w', 'zb0', 'S')


def value(m, k, acc):
    v = np.array(dict.__getitem__(m.s, k), copy=True)
    return v / acc if k in ('Ct', 'Cu') else v


def check_reads(m, acc, clear, tally, runner):
    want = drive.Snap(m)
    for k in sorted(want.s):
        v = m.get_var(k, clear=clear) if runner else m.get_var(k)
        e = want.s[k] / acc if k in ('Ct', 'Cu') else want.s[k]
        if np.shape(v) != np.shape(e) or not np.array_equal(np.asarray(v), e, equal_nan=e.dtype.kind == 'f'):
            raise Viol('get_var(%s) is not the state at t=%r' % (k, m.t), 'read')
        tally.kind('read')
    d = drive.diff(want, drive.Snap(m))
    if d:
        raise Viol('reading changes the model: ' + d, 'read changes')


def check_meta(m, tally):
    names = sorted(m.s.keys())
    n = m.get_var_count()
    if n != len(names):
        raise Viol('%r variables are reported, there are %d' % (n, len(names)), 'count')
    got = [m.get_var_name(i) for i in range(n)]
    if got != names:
        raise Viol('names by index are not the variables in alphabetical order', 'names')
    if m.get_var_name(n) != -1 or m.get_var_name(n + 7) != -1:
        raise Viol('an index beyond the variables is not refused', 'names')
    for k in names:
        v = m.get_var(k)
        if m.get_var_rank(k) != np.ndim(v) or tuple(m.get_var_shape(k)) != np.shape(v):
            raise Viol('%s has rank %r and shape %r, reported are %r and %r' % (
                k, np.ndim(v), np.shape(v), m.get_var_rank(k), m.get_var_shape(k)), 'shape')
        if m.get_var_type(k) != 'double':
            raise Viol('type of %s is reported as %r' % (k, m.get_var_type(k)), 'type')
    dims = m.dimensions()
    for k, dd in dims.items():
        if k in m.s:
            shp = tuple({'nx': m.p['nx'] + 1, 'ny': m.p['ny'] + 1}.get(x, m.p.get(x)) for x in dd)
            if np.shape(m.get_var(k)) != shp:
                raise Viol('%s has shape %r, its dimensions are %r' % (k, np.shape(m.get_var(k)), shp), 'dimensions')
    for q in ('get_var_rank', 'get_var_shape', 'get_var_type'):
        if getattr(m, q)('no such variable') != -1:
            raise Viol('%s of an unknown variable is not -1' % q, 'unknown')
    tally.kind('names, ranks, shapes and types compared')


def case_fn(case, d, tally):
    s = case['s']
    rng = random.Random(case['seed'])
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    np.random.seed(7)
    m = drive.bmi(cfg, runner=case['runner'])
    np.random.seed(7)
    ref = drive.bmi(cfg, runner=case['runner'])
    acc = s['accfac']
    writes = steps = wrote = 0
    for h in case['hist']:
        if h[0] == 'step':
            drive.step(m, seed=case['seed'])
            drive.step(ref, seed=case['seed'])
            steps += 1
            wrote += writes
            tally.state(drive.digest(m))
            if m.get_current_time() != ref.t:
                raise Viol('time %r instead of %r' % (m.get_current_time(), ref.t), 'time')
            if m.p['_time'] > ref.t:
                raise Viol('time', 'time')
        elif h[0] == 'readall':
            check_reads(m, acc, h[1], tally, case['runner'])
        elif h[0] in ('set', 'seti'):
            names = [k for k in FREE if k in m.s]
            k = names[int(h[1] * len(names))]
            old = np.array(dict.__getitem__(ref.s, k), copy=True)
            x = old * h[2] + (0. if h[2] > 1 else (.001 if k not in ('mass',) else 0.))
            x = np.asarray(x, dtype=float)
            if h[0] == 'set':
                m.set_var(k, x.copy())
            else:
                m.set_var_index(sorted(m.s.keys()).index(k), x.copy())
            dict.__setitem__(ref.s, k, x.copy())
            e = value(ref, k, acc)
            if not np.array_equal(np.asarray(m.get_var(k)), e, equal_nan=True):
                raise Viol('%s does not read back as written' % k, 'read back')
            tally.kind('write by ' + ('name' if h[0] == 'set' else 'index'))
            writes += 1
        elif h[0] == 'param':
            k = h[1]
            old = ref.p[k]
            x = (rng.choice(['kawamura', 'bagnold', 'lettau']) if isinstance(old, str) else old * h[2])
            if k == 'dt' and s['gw']:
                x = old
            m.set_var(k, x)
            ref.p[k] = x
            if m.get_var(k) != x:
                raise Viol('parameter %s reads back as %r instead of %r' % (k, m.get_var(k), x), 'read back')
            if m.get_end_time() != ref.p['tstop']:
                raise Viol('end time is %r instead of %r' % (m.get_end_time(), ref.p['tstop']), 'end')
            tally.kind('write of a parameter')
            writes += 1
        elif h[0] == 'same':
            names = sorted(k for k, v in drive.arrays(m.s).items() if v.ndim and (acc == 1. or k not in ('Ct', 'Cu')))
            if h[1] == 'all':
                pick = names
            else:
                pick = [names[int(h[2] * len(names))]]
            for k in pick:
                v = np.array(m.get_var(k), copy=True)
                if h[1] == 'index':
                    m.set_var_index(sorted(m.s.keys()).index(k), v)
                else:
                    m.set_var(k, v)
            tally.kind('write of unchanged values')
        elif h[0] == 'unknown':
            before = drive.Snap(m)
            keys, pk = set(m.s), set(m.p)
            m.set_var('no_such_variable', np.zeros(3))
            m.set_var('nonsense', 3.)
            if m.get_var('no_such_variable') is not None or m.get_var('nonsense') is not None:
                raise Viol('an unknown name can be written', 'unknown')
            if set(m.s) != keys or set(m.p) != pk or drive.diff(before, drive.Snap(m)):
                raise Viol('writing an unknown name changes the model', 'unknown')
            tally.kind('unknown name')
        elif h[0] == 'meta':
            check_meta(m, tally)
        e = drive.diff(drive.Snap(ref), drive.Snap(m))
        if e:
            raise Viol('after %r: %s' % (h, e), 'state ' + h[0])
    tally.steps += steps
    tally.runs += 1
    tally.simtime += m.t
    if wrote:
        tally.key = [skey(s), case['hist']]


execute = guarded(case_fn)


def _extra(case):
    n = len(case['hist'])
    for i in range(n - 1):
        yield dict(case, hist=case['hist'][:i] + case['hist'][i + 1:])
    if case['runner']:
        yield dict(case, runner=False)


shrink = shrinker(_extra)
