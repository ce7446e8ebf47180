"""Output records equal the state at their time."""
import os

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (900, 36000)
RULE = ('one case = one seeded scenario with seeded output interval, variables and file name, run to the end and its '
        'output file compared with the states recorded by the simulator at every time step; non-trivial when at '
        'least two records were compared; distinct by scenario structure, output interval and variables')
ASSUMPTIONS = ['runs start at t=0', 'the state of the model object between time steps is the reference']

NAMES = ['zb', 'zs', 'Ct', 'Cu', 'uw', 'uws', 'uwn', 'udir', 'uth', 'mass', 'pickup', 'w', 'w_air', 'w_bed', 'w_init',
         'qs', 'qn', 'q', 'thlyr', 'moist', 'gw', 'Hs', 'SWL', 'TWL', 'ustar', 'ustars', 'taus', 'tau', 'dzb', 'dzbavg', 'zne',
         'rhoveg', 'hveg', 'theta_dyn', 'us', 'u', 'Cu0', 'uth0', 'zdry', 'R', 'salt', 'dsdn', 'scan_w']


def gen(rng):
    s = scenario.gen(rng, steps=rng.randint(3, 14), allow=PHYS + ['veg'] if rng.random() < .8 else ALL,
                     dim=rng.choice([1, 1, 2]))
    if s['shear'] and s['dim'] == 2:
        s['nx'], s['ny'] = 6, 3
        s['tstop'] = round(s['tstop'] * .4, 3)
    n = rng.randint(1, 10)
    s['vars'] = rng.sample(NAMES, n)
    eff = min(s['dt'], .1 * s['dx']) if s['scheme'] == 'euler_forward' else s['dt']
    step = eff * s['accfac']
    s['out']['times'] = round(rng.choice([step, step, 2 * step, 3 * step, 2.5 * step, .3 * step, 1e9]), 3)
    s['output_file'] = rng.choice([None, None, 'out.nc', 'sub/res.nc', 'run.2.nc'])
    if rng.random() < .3:
        s['types'] = rng.sample(['avg', 'min', 'max', 'sum', 'var'], 1)
    return {'s': s, 'seed': rng.randint(0, 10**6), 'cwd': rng.random() < .5}


def due(times, interval):
    """The documented schedule of output records."""
    out, last = [], 0.
    for i, t in enumerate(times):
        if t == 0. or t - last >= interval:
            out.append(i)
            last = t
    return out


def outfile(cfg, s):
    return os.path.join(os.path.dirname(cfg), s.get('output_file') or 'aeolis.nc')


def f32(a):
    with np.errstate(all='ignore'):
        return np.asarray(a, dtype=np.float32).astype(float)


def visible(snap, var, s):
    v = snap.s[var]
    return v / s['accfac'] if var in ('Ct', 'Cu') else v


def check_times(nc, want, what='output file'):
    got = list(nc['time'])
    if len(got) != len(want) or any(a != b for a, b in zip(got, want)):
        raise Viol('%s has records at %r instead of %r' % (what, got[:30], want[:30]), 'times')
    if any(b <= a for a, b in zip(got, got[1:])):
        raise Viol('record times are not increasing: %r' % got, 'order')
    tb = nc['time_bounds']
    for i, t in enumerate(want):
        a, b = (0. if i == 0 else want[i - 1]), t
        if not (tb[i, 0] == f32(a) and tb[i, 1] == f32(b)):
            raise Viol('time bounds of record %d are %r instead of [%r, %r]' % (i, list(tb[i]), a, b), 'bounds')


def check_static(nc, m, s):
    # the grid files of the scenario are written with 8 decimals
    X, Y = scenario.grid_arrays(s)
    for k, a in (('x', X), ('y', Y)):
        if k == 'y' and s['dim'] == 1:
            continue
        if nc[k].shape != a.shape or not np.allclose(nc[k], a, rtol=1e-6, atol=1e-6):
            raise Viol('%s-coordinates in the output file are not those of the model grid' % k, 'grid')
    for k, a in (('s', np.arange(s['nx'] + 1)), ('n', np.arange(s['ny'] + 1)), ('layers', np.arange(s['nl'])),
                 ('fractions', np.array(s['gs']))):
        if nc[k].shape != a.shape or not np.array_equal(nc[k], f32(a)):
            raise Viol('%s in the output file: %r' % (k, nc[k]), 'static')


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    out = outfile(cfg, s)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    snaps = []
    o = drive.run(cfg, on_step=lambda m, i: snaps.append(drive.Snap(m)), seed=case['seed'], cwd=d if case['cwd'] else None)
    if o.kind == 'budget':
        return
    exc_viol(o, 'run')
    snaps.append(drive.Snap(o.model))
    tally.simtime += snaps[-1].t
    tally.steps += len(snaps) - 1
    tally.runs += 1
    if not os.path.exists(out):
        raise Viol('no output file', 'none')
    nc = drive.read_nc(out)
    ix = due([x.t for x in snaps], s['out']['times'])
    check_times(nc, [snaps[i].t for i in ix])
    check_static(nc, o.model, s)
    for j, i in enumerate(ix):
        for v in s['vars']:
            if v in ('x', 'y'):
                continue            # names of the static coordinates
            if v not in snaps[i].s:
                continue
            if v not in nc:
                raise Viol('requested variable %s is not in the output file' % v, 'variable')
            a, b = nc[v][j], f32(visible(snaps[i], v, s))
            if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
                raise Viol('record of %s at t=%r is not the state at that time%s' % (
                    v, snaps[i].t, '' if a.shape != b.shape else ' (max difference %.6g)' % np.nanmax(np.abs(a - b))), 'value')
        tally.state(snaps[i].digest())
        tally.kind('record compared')
    if len(ix) > 1:
        tally.key = [skey(s), s['out']['times'], s['vars']]


execute = guarded(case_fn)


def _extra(case):
    import copy
    s = case['s']
    for i in range(len(s['vars'])):
        if len(s['vars']) > 1:
            c = copy.deepcopy(case)
            del c['s']['vars'][i]
            yield c
    if s['types']:
        c = copy.deepcopy(case)
        c['s']['types'] = []
        yield c


shrink = shrinker(_extra)
