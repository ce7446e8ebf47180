"""Symmetry: shifting, mirroring or extruding a model does the same to its results."""
import copy
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (6000, 200000)
RULE = ('one case = one seeded scenario and a symmetry: rows shifted along a circular coast, the coast or the cross-shore axis mirrored together '
        'with wind and boundaries, or an alongshore uniform model against its single transect; both models go through the same seeded history of '
        'steps, plumes and fast-forwards and all states are compared; non-trivial when sediment moved; distinct by symmetry, scenario structure and history')
ASSUMPTIONS = ['results agree within 1e-6 (rounding is amplified by iterations)',
               'histories end where a fraction of several is exhausted somewhere (its traces are a matter of rounding)',
               'shear perturbation, avalanching and vegetation growth are not part of the compared models',
               'shifting and extruding are judged without the Duran grain speed (bed gradients at the edges are one-sided), extruding without the explicit scheme (its stability criterion counts the directions there are)',
               'wind fields, series and boundary conditions are uniform alongshore']

SYM = ['shift', 'mirror alongshore', 'mirror cross-shore', 'extrude']


def gen(rng):
    sym = rng.choice(SYM)
    allow = ['tide', 'wave', 'runup', 'moist', 'mix', 'wetreset', 'ne', 'graindist2d', 'bedcomp', 'mask']
    if sym == 'mirror cross-shore':
        allow = ['ne', 'graindist2d', 'bedcomp', 'mask', 'tide']
    if sym == 'extrude':
        allow.remove('bedcomp')
    s = scenario.gen(rng, steps=8, mbc=rng.choice([999., 999., .01]), calm=.15, allow=allow, accfac=rng.choice([1., 1., 5.]),
                     dim=rng.choice([1, 2]) if sym == 'mirror cross-shore' else 2)
    s['rot'] = 0.
    s['max_iter'] = 1000
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 9), min(s['ny'], 5)
    if sym != 'mirror alongshore' or rng.random() < .6:
        s['bc'][2] = 'circular'
    if sym == 'mirror cross-shore' and s['solver'] not in ('trunk', 'steadystate'):
        s['solver'] = 'trunk'
        s['bc'][0] = rng.choice(['constant', 'flux', 'uniform', 'gradient'])
        s['bc'][1] = rng.choice(['gradient', 'constant', 'uniform', 'flux'])
    if 'mirror' not in sym and s['mg'] == 'duran':
        # bed gradients at the edges are no part of the symmetry
        s['mg'] = rng.choice(['windspeed', 'constant'])
    if sym == 'extrude' and s['scheme'] == 'euler_forward':
        # the stability criterion counts the directions there are
        s['scheme'] = 'euler_backward'
    # oblique winds; keep clear of directions the model alters
    for r in s['wind']:
        r[2] = round((r[2] + rng.choice([0., 0., 20., 50., -35.])) % 360. + .37, 3)
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .25 and 'steady' not in s['solver']:
            ops.append({'plume': rng.randint(0, 10**6), 'size': rng.choice([.001, .05, 1.])})
        elif r < .35:
            ops.append({'forward': round(rng.uniform(1.5, 2 * s['dt'] + 2), 2)})
        else:
            ops.append(None)
    return {'s': s, 'seed': rng.randint(0, 10**6), 'ops': ops, 'sym': sym, 'k': rng.randint(1, max(s['ny'], 1))}


def image(case, s, a, flat=False):
    """The image of a grid (y, x, ...) under the symmetry."""
    sym = case['sym']
    if sym == 'shift':
        return np.roll(a, case['k'], axis=0)
    if sym == 'mirror alongshore':
        return a[::-1]
    if sym == 'mirror cross-shore':
        return a[:, ::-1]
    return a[:1]


GRIDS = ['z.grd', 'ne.grd', 'tide_mask.txt', 'wave_mask.txt', 'threshold_mask.txt']


def materialise(case, d):
    """Both models; returns their configurations."""
    s = case['s']
    sym = case['sym']
    a = os.path.join(d, 'a')
    b = os.path.join(d, 'b')
    ca = scenario.materialise(s, a)
    shp = (s['ny'] + 1, s['nx'] + 1)
    if sym == 'extrude':
        # an alongshore uniform bed
        for f in GRIDS:
            p = os.path.join(a, f)
            if os.path.exists(p):
                x = np.loadtxt(p).reshape(shp)
                np.savetxt(p, np.repeat(x[:1], shp[0], axis=0), fmt='%.8f')
    t = copy.deepcopy(s)
    if sym == 'extrude':
        t['dim'], t['ny'] = 1, 0
    sgn = 1. if s['conv'] == 'nautical' else -1.
    for r in t['wind']:
        # nautical: from, clockwise; cartesian: to, counter-clockwise
        if sym == 'mirror alongshore':
            r[2] = 180. - r[2] if s['conv'] == 'nautical' else -r[2]
        elif sym == 'mirror cross-shore':
            r[2] = -r[2] if s['conv'] == 'nautical' else 180. - r[2]
    if 'mirror' in sym:
        t['alfa'] = -s['alfa']
    if sym == 'mirror cross-shore':
        t['bc'] = [s['bc'][1], s['bc'][0], s['bc'][2]]
        t['oflux'], t['nflux'] = s['nflux'], s['oflux']
    cb = scenario.materialise(t, b)
    for f in GRIDS:
        p = os.path.join(a, f)
        if os.path.exists(p):
            x = image(case, s, np.loadtxt(p).reshape(shp))
            np.savetxt(os.path.join(b, f), x if len(x) > 1 else x[0], fmt='%.8f')
    p = os.path.join(a, 'bedcomp.txt')
    if os.path.exists(p):
        x = np.loadtxt(p)
        x = image(case, s, x.reshape(shp + (-1,)))
        np.savetxt(os.path.join(b, 'bedcomp.txt'), x.reshape((-1, x.shape[-1])), fmt='%.8f')
    return ca, cb, t


VARS = ['zb', 'mass', 'Ct', 'Cu', 'pickup', 'w', 'uw', 'ustar', 'tau', 'uth', 'moist', 'zs', 'Hs', 'TWL', 'u', 'dzb']
VECS = [('uws', 'uwn'), ('ustars', 'ustarn'), ('us', 'un'), ('qs', 'qn')]


def case_fn(case, d, tally):
    s = case['s']
    sym = case['sym']
    ca, cb, t = materialise(case, d)
    m, w = drive.bmi(ca), drive.bmi(cb)
    z0 = np.array(m.s['zb'], copy=True)
    moved = False
    for n, o in enumerate(case['ops']):
        if o and 'plume' in o:
            r = np.random.RandomState(o['plume'])
            C = np.asarray(m.s['Ct']).copy()
            C[:, 1:-1] += o['size'] * (r.uniform(0, 1, C[:, 1:-1].shape) < .3) * r.uniform(0, 1, C[:, 1:-1].shape)
            if sym == 'extrude':
                C[:] = C[:1]
            m.s['Ct'] = C
            w.s['Ct'] = np.array(image(case, s, C), copy=True)
            tally.fault('plumes')
        if s['nf'] > 1 and np.asarray(m.s['mass'])[:, :, 0, :].min() < 1e-6:
            # whether a trace of a fraction is left is a matter of rounding
            tally.kind('fraction exhausted')
            break
        dt = -o['forward'] if o and 'forward' in o else -1
        t0 = m.t
        n0 = m.get_count('matrixsolve')
        drive.step(m, dt, seed=case['seed'])
        drive.step(w, dt, seed=case['seed'])
        tally.steps += 2
        tally.state(drive.digest(m))
        if m.get_count('matrixsolve') - n0 >= 1000:
            tally.kind('solver did not converge')
            break
        at = 'after the step at t=%r (%s)' % (t0, sym)
        if not abs(m.t - w.t) <= 1e-6 * max(1., m.t - t0):
            raise Viol('the time is %r instead of %r %s' % (w.t, m.t, at), sym + ' time')
        for k in VARS:
            x, y = image(case, s, np.asarray(m.s[k])), np.asarray(w.s[k])
            if k == 'zb':
                ref = image(case, s, z0)
                sc = 1e-5 * np.abs(x - ref).max() + 1e-10
            elif k in ('dzb', 'pickup'):
                sc = 1e-5 * np.abs(x).max() + 4e-6 * (1. if k == 'pickup' else 1e-3)
            else:
                f = x[np.isfinite(x)]
                sc = 1e-6 * (np.abs(f).max() if f.size else 0.) + 1e-9
            if k in ('mass', 'w', 'zs'):
                # the solver accepts errors of 1e-6 per step
                sc += 4e-6 * (n + 1)
            fin = np.isfinite(x)
            if not (np.array_equal(fin, np.isfinite(y)) and np.all(np.abs(x[fin] - y[fin]) <= sc)):
                e = np.abs(np.where(fin, x, 0.) - np.where(np.isfinite(y), y, 0.)).max()
                raise Viol('%s breaks the symmetry by %.4g %s' % (k, e, at), sym + ' ' + k)
        for i, j in VECS:
            for k, g in ((i, -1. if sym == 'mirror cross-shore' else 1.), (j, -1. if sym == 'mirror alongshore' else 1.)):
                x, y = g * image(case, s, np.asarray(m.s[k])), np.asarray(w.s[k])
                sc = 1e-6 * max(np.abs(np.asarray(m.s[i])).max(), np.abs(np.asarray(m.s[j])).max()) + 1e-8
                if not np.all(np.abs(x - y) <= sc):
                    raise Viol('%s breaks the symmetry by %.4g %s' % (k, np.abs(x - y).max(), at), sym + ' ' + k)
        tally.kind('states compared')
        moved = moved or bool(np.any(np.abs(np.asarray(m.s['pickup'])) > 1e-9))
    tally.runs += 2
    tally.simtime += m.t + w.t
    tally.kind(sym)
    if moved:
        tally.key = [sym, case['k'] if sym == 'shift' else 0, skey(s), case['ops']]


execute = guarded(case_fn)


def _extra(case):
    o = case['ops']
    if len(o) > 1:
        yield dict(case, ops=o[:-1])
        yield dict(case, ops=o[1:])
    for i, x in enumerate(o):
        if x:
            yield dict(case, ops=o[:i] + [None] + o[i + 1:])


def _shrink(case):
    for c in shrinker(_extra)(case):
        if c['sym'] != 'mirror cross-shore' and c['s']['dim'] == 1:
            continue
        yield c


shrink = _shrink
