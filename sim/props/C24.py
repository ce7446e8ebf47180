"""Equivalent descriptions of the same case give the same results."""
import copy
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (1000, 50000)
RULE = ('one case = one seeded scenario and a second description of it (all times shifted, other wind convention, other orientation of North, '
        'longer or denser series, other order and layout of the configuration, other output and restart settings); both are run completely under the '
        'same random numbers and all states are compared; non-trivial when sediment moved; distinct by variant, scenario structure and history')
ASSUMPTIONS = ['results agree within 1e-6 (rounding is amplified by iterations), and exactly where only configuration layout or output differ',
               'histories end where a fraction of several is exhausted somewhere (its traces are a matter of rounding)']

KINDS = ['time', 'convention', 'north', 'longer', 'denser', 'layout', 'observation', 'datum', 'datum']


def gen(rng):
    kind = rng.choice(KINDS)
    allow = ALL if kind != 'time' else ALL
    s = scenario.gen(rng, steps=8, mbc=rng.choice([999., 999., .01]), allow=allow, accfac=rng.choice([1., 1., 5.]))
    s['max_iter'] = 1000
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 9), min(s['ny'], 5)
    for r in s['wind']:
        r[2] = round(r[2] % 360. + .37, 3)
    if s['veg'] and s['dim'] == 1 and rng.random() < .5:
        s['veg']['shear'] = 'okin'
    if kind == 'datum':
        # without a tide the sea is at the datum, and a mask multiplies levels above it
        if not s['tide']:
            s['tide'] = [[s['tstart'], -30.], [s['tstop'], -30.]]
        s['masks'] = None
        # heights of fences and diffusion of groundwater differ by more than rounding (edges in the former, mixed stencils in the latter)
        s['fence'] = None
        s['bed']['noise'] = s['bed']['noise'] or .01
        s['ava'] = s['ava'] and s['dim'] == 1
        if s['gw']:
            s['gw'], s['moist'], s['thm'] = False, None, False
    return {'s': s, 'seed': rng.randint(0, 10**6), 'n': rng.randint(2, 8), 'kind': kind, 'x': rng.randint(0, 10**6)}


def shifted(rows, T):
    return rows and [[r[0] + T] + list(r[1:]) for r in rows]


def second(case):
    """The second description, or None where there is none."""
    s, k = case['s'], case['kind']
    rng = random.Random(case['x'])
    t = copy.deepcopy(s)
    if k == 'time':
        T = rng.choice([64., 1024., 4096., 65536., 1048576.])
        for f in ('wind', 'tide', 'wave', 'meteo'):
            if t.get(f):
                t[f] = shifted(t[f], T)
        t['tstart'] += T
        t['tstop'] += T
        return t, T
    if k == 'convention':
        t['conv'] = 'cartesian' if s['conv'] == 'nautical' else 'nautical'
        for r in t['wind']:
            r[2] = round(270. - r[2], 3)
    elif k == 'north':
        a = round(rng.uniform(-170, 170), 1)
        t['alfa'] = a
        for r in t['wind']:
            # the wind keeps its angle to the grid
            r[2] = round(r[2] + (a - s['alfa']) * (1. if s['conv'] == 'nautical' else -1.), 3)
    elif k == 'longer':
        end = s['tstart'] + (s['tstop'] - s['tstart']) * 4 + 8 * s['dt'] * max(s['accfac'], 1.) + 4000.
        for f in ('wind', 'tide', 'wave', 'meteo'):
            if s.get(f):
                # both series cover the run, one goes on
                last = s[f][-1]
                if last[0] < end:
                    case['s'][f] = s[f] + [[end] + list(last[1:])]
                t[f] = case['s'][f] + [[end + 100. + 900. * rng.random()] + [round(x * rng.uniform(.5, 1.), 2) for x in last[1:]]]
    elif k == 'denser':
        for f in ('tide', 'wave', 'meteo'):
            if s.get(f):
                rows = []
                for a, b in zip(s[f][:-1], s[f][1:]):
                    rows += [a, [(x + y) / 2. for x, y in zip(a, b)]]
                t[f] = rows + [s[f][-1]]
        rows = []
        for a, b in zip(s['wind'][:-1], s['wind'][1:]):
            rows.append(a)
            if a[2] == b[2]:
                rows.append([(x + y) / 2. for x, y in zip(a, b)])
        t['wind'] = rows + [s['wind'][-1]]
    elif k == 'datum':
        D = rng.choice([-.75, .5, 3., 7.25, -20.])
        t['bed']['z0'] += D
        t['tide'] = [[r[0], r[1] + D] for r in s['tide']]
        e = t.setdefault('extra', {})
        for key, v in (('in_gw', 0.), ('GW_stat', 1.), ('dune_toe_elevation', 3.)):
            e[key] = e.get(key, v) + D
        e['D_gw'] = e.get('D_gw', 12.) - D
        if t['veg']:
            t['veg']['zmin'] += D
    elif k == 'observation':
        t['out'] = {'times': round(rng.choice([.3, 1., 7., 1e6]) * s['dt'], 3)}
        t['vars'] = rng.sample(['zb', 'Ct', 'uth', 'mass', 'ustar', 'moist', 'zs', 'qs'], rng.randint(1, 4))
        t['types'] = rng.sample(['avg', 'sum', 'var', 'min', 'max'], rng.randint(0, 3))
        t['restart'] = rng.choice([None, s['dt'], 3. * s['dt'], .1])
        t['output_file'] = rng.choice([None, 'other.nc'])
    return t, 0.


def relayout(cfg, rng):
    """Same settings, other text."""
    with open(cfg) as fp:
        lines = [l.rstrip('\n') for l in fp if l.strip()]
    rng.shuffle(lines)
    out = ['%% comment', '']
    for l in lines:
        k, v = l.split('=', 1)
        r = rng.random()
        sp = ' ' * rng.randint(0, 12)
        out.append('%s%s=%s%s' % (k.strip(), sp or ' ', sp or ' ', v.strip()) + ('   ' if r < .2 else ''))
        if rng.random() < .2:
            out.append(rng.choice(['', '%% nothing = 3', '   ', '% ' + l]))
    with open(cfg, 'w') as fp:
        fp.write('\n'.join(out) + '\n')


SKIP = {'udir', 'alfa'}
VECTORS = ()


def close(a, b, k):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(np.where(fa, 0., a), np.where(fb, 0., b), equal_nan=True):
        return False
    m = np.abs(a[fa]).max() if fa.any() else 0.
    floor = {'pickup': 4e-6, 'mass': 4e-6, 'w': 4e-6, 'w_init': 4e-6, 'w_bed': 4e-6, 'w_air': 1e-4, 'S': 1e-4, 'dzb': 1e-8, 'zb': 1e-8}.get(k, 1e-9)
    return bool(np.all(np.abs(a[fa] - b[fa]) <= (1e-5 if k in ('pickup', 'dzb') else 1e-6) * m + floor))


COMPARED = ['zb', 'mass', 'Ct', 'Cu', 'pickup', 'w', 'uw', 'uws', 'uwn', 'ustar', 'ustars', 'ustarn', 'tau', 'uth', 'moist', 'zs', 'Hs', 'TWL', 'gw', 'rhoveg',
            'hveg', 'us', 'un', 'qs', 'qn', 'theta_stat', 'salt', 'fence_height']
LEVELS = ['zb', 'zs', 'TWL', 'gw']


def case_fn(case, d, tally):
    case = copy.deepcopy(case)
    kind = case['kind']
    t, T = second(case)
    s = case['s']
    D = t['bed']['z0'] - s['bed']['z0']
    ca = scenario.materialise(s, os.path.join(d, 'a'))
    cb = scenario.materialise(t, os.path.join(d, 'b'))
    if kind == 'layout':
        relayout(cb, random.Random(case['x']))
    exact = kind in ('layout', 'observation')
    hist = []
    stop = [False]

    def rec(m, i):
        if i > case['n'] or (s['nf'] > 1 and np.asarray(m.s['mass'])[:, :, 0, :].min() < 1e-6):
            raise drive.Stop()
        hist.append(drive.Snap(m))

    # random numbers depend on the time since the start
    o = drive.run(ca, on_step=lambda m, i: (drive.reseed(case['seed'], i), rec(m, i)))
    exc_viol(o, 'first description')
    n = [0]
    moved = [False]

    def cmp(m, i):
        drive.reseed(case['seed'], i)
        if i >= len(hist):
            raise drive.Stop()
        a, b = hist[i], drive.Snap(m)
        at = 'after %d steps (%s)' % (i, kind)
        if not abs((b.t - T) - a.t) <= (0. if exact else 1e-6 * max(1., abs(a.t))):
            raise Viol('the time is %r instead of %r %s' % (b.t - T, a.t, at), kind + ' time')
        if exact:
            df = drive.diff(a, b)
            if df:
                raise Viol('%s %s' % (df, at), kind + ' ' + df.split(' ')[1])
        else:
            for k in COMPARED:
                x, y = a.s.get(k), b.s.get(k)
                if D and k in LEVELS:
                    if (i == 0 and k != 'zb') or (k == 'gw' and not s['gw']):
                        continue
                    y = y - D
                if k in a.s and not close(x, y, k):
                    with np.errstate(all='ignore'):
                        e = np.nanmax(np.abs(x - y))
                    raise Viol('%s differs by %.4g %s' % (k, e, at), kind + ' ' + k)
        moved[0] = moved[0] or bool(np.any(a.s['pickup']))
        n[0] += 1

    o2 = drive.run(cb, on_step=cmp)
    exc_viol(o2, 'second description')
    tally.steps += o.steps + o2.steps
    if o.kind == 'ok' and o2.kind == 'ok' and not abs(o2.model.t - T - o.model.t) <= 1e-6 * max(1., o.model.t):
        raise Viol('the run ends at %r instead of %r (%s)' % (o2.model.t - T, o.model.t, kind), kind + ' end')
    for a in hist:
        tally.state(a.digest())
    tally.runs += 2
    tally.simtime += hist[-1].t * 2 if hist else 0.
    tally.kind(kind)
    tally.kind('states compared', n[0])
    if moved[0]:
        tally.key = [kind, skey(s), case['n']]


execute = guarded(case_fn)


def _extra(case):
    if case['n'] > 1:
        yield dict(case, n=case['n'] - 1)


shrink = shrinker(_extra)
