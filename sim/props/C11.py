"""Grid orientation: restored after every step, and immaterial to the results."""
import copy
import math
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (1800, 72000)
RULE = ('one case = one seeded scenario on a rotated grid driven by a seeded sequence of steps and fast-forwards; either every '
        'coordinate and vector is checked to be back in the orientation of the input after each of them, or the same model is '
        'run with grid and wind turned together and all states are compared; non-trivial when a step with wind was made on a grid '
        'rotated by at least one degree; distinct by scenario structure, angle and history')
ASSUMPTIONS = ['grids are rectangular and right-handed',
               'results of turned models agree within 1e-6 (rounding of the rotation is amplified by iterations)']


def angle(rng):
    return rng.choice([rnd(rng, -180, 180, 1)] * 5 + [45., -45., 0., 90., 180., -90., 135.])


def gen(rng):
    turn = rng.random() < .5
    allow = ['tide', 'wave', 'runup', 'moist', 'mix', 'wetreset', 'ne', 'bedcomp', 'graindist2d', 'mask', 'veg']
    if not turn:
        allow += ['shear', 'sep', 'avalanche', 'gw']
    s = scenario.gen(rng, dim=2, steps=8, allow=allow, mbc=999., scheme=rng.choice(['euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward']),
                     calm=.15, accfac=rng.choice([1., 1., 5.]))
    s['nx'], s['ny'] = min(s['nx'], 8), min(s['ny'], 4)
    s['rot'] = angle(rng)
    # keep clear of directions the model alters to avoid divisions by zero
    for r in s['wind']:
        r[2] = round(r[2] + .37, 3)
    hist = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .7:
            hist.append(-1)
        elif r < .8:
            hist.append(round(s['dt'] * rng.choice([.5, 2.]), 3) if not s['gw'] else -1)
        else:
            hist.append(-round(rng.uniform(1.5, 3 * s['dt'] + 2), 2))
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist, 'turn': turn, 'angle': angle(rng), 'runner': rng.random() < .4}


def rot(a, x, y):
    """(x, y) turned counter-clockwise by a degrees."""
    a = math.radians(a)
    return math.cos(a) * x - math.sin(a) * y, math.sin(a) * x + math.cos(a) * y


PAIRS = [('taus', 'taun'), ('ustars', 'ustarn'), ('uws', 'uwn'), ('qs', 'qn')]
SCALARS = ['zb', 'mass', 'Ct', 'Cu', 'pickup', 'w', 'uw', 'ustar', 'tau', 'uth', 'moist', 'zs', 'dzb', 'Hs', 'rhoveg', 'ds', 'dn',
           'us', 'un', 'u', 'TWL', 'S']


def turned(s, angle):
    n = copy.deepcopy(s)
    n['rot'] = angle
    d = angle - s['rot']
    for r in n['wind']:
        # nautical directions count clockwise, cartesian ones counter-clockwise
        r[2] = r[2] - d if s['conv'] == 'nautical' else r[2] + d
    return n


def close(a, b, rtol=1e-6, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    fin = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(np.where(fin, 0., a), np.where(fin, 0., b), equal_nan=True):
        return False
    m = max(np.max(np.abs(a[fin])) if fin.any() else 0., 1e-12 if scale is None else scale)
    return bool(np.all(np.abs(a[fin] - b[fin]) <= rtol * m))


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    m = drive.bmi(cfg, runner=case['runner'])
    X, Y = scenario.grid_arrays(s)
    if not (np.allclose(m.s['x'], X, atol=1e-12) and np.allclose(m.s['y'], Y, atol=1e-12)):
        raise Viol('the grid of the model is not the one of the input files', 'initial grid')
    m2 = None
    if case['turn']:
        m2 = drive.bmi(scenario.materialise(turned(s, case['angle']), os.path.join(d, 'm2')), runner=False)
    x0, y0 = np.array(m.s['x'], copy=True), np.array(m.s['y'], copy=True)
    ds0, dn0 = np.array(m.s['ds'], copy=True), np.array(m.s['dn'], copy=True)
    size = float(np.hypot(np.ptp(x0), np.ptp(y0)))
    if not (np.allclose(ds0, s['dx'], rtol=1e-9) and np.allclose(dn0, s['dy'], rtol=1e-9)):
        raise Viol('cell sizes are not those of the grid', 'cell size')
    steps = 0
    windy = 0
    for h in case['hist']:
        t = m.t
        drive.step(m, h, seed=case['seed'])
        what = 'after a %s at t=%r' % ('fast-forward' if h < -1 else 'step', t)
        # coordinates
        e = max(np.max(np.abs(m.s['x'] - x0)), np.max(np.abs(m.s['y'] - y0)))
        if not e <= 1e-9 * size:
            raise Viol('%s the grid has moved by %.3g m' % (what, e), 'grid moved')
        if not (np.array_equal(m.s['ds'], ds0) and np.array_equal(m.s['dn'], dn0)):
            raise Viol('%s cell sizes have changed' % what, 'cell size')
        # wind in the orientation of the input
        uw, dr = np.asarray(m.s['uw']), np.asarray(m.s['udir'])
        tt = np.array([r[0] for r in s['wind']])
        ws = np.array([r[1] for r in s['wind']])
        wd = np.array([r[2] for r in s['wind']])
        if s['conv'] == 'cartesian':
            wd = 270. - wd
        if t <= tt[-1]:
            sp = np.interp(t, tt, ws)
            sn, cs = np.interp(t, tt, np.sin(np.radians(wd))), np.interp(t, tt, np.cos(np.radians(wd)))
            if not np.allclose(uw, sp, rtol=1e-9, atol=1e-9):
                raise Viol('%s the wind speed is %r instead of %r' % (what, float(uw.flat[0]), sp), 'wind speed')
            if np.hypot(sn, cs) > 1e-3:
                dd = np.degrees(np.arctan2(sn, cs)) - dr
                if not np.all(np.abs(np.sin(np.radians(dd / 2.))) < 1e-9):
                    raise Viol('%s the wind direction is %r instead of %r' % (what, float(dr.flat[0]), float(np.degrees(np.arctan2(sn, cs)))), 'wind direction')
        a = np.radians(dr - s['alfa'])
        for k, v in (('uws', -uw * np.sin(a)), ('uwn', -uw * np.cos(a))):
            if not np.allclose(m.s[k], v, rtol=0, atol=1e-8 * (1 + np.max(uw))):
                raise Viol('%s wind component %s does not follow from speed and direction' % (what, k), 'wind components')
        # magnitudes survive the rotations
        for i, j, k in (('ustars', 'ustarn', 'ustar'), ('taus', 'taun', 'tau')):
            if s['veg'] or s['shear'] and k == 'tau' and s['sep']:
                continue
            if not np.allclose(np.hypot(m.s[i], m.s[j]), m.s[k], rtol=1e-7, atol=1e-9):
                raise Viol('%s %s and %s do not make up %s' % (what, i, j, k), 'magnitude ' + k)
        if not s['shear'] and not s['veg']:
            # without perturbations the shear velocity points along the wind
            c = np.asarray(m.s['ustars']) * np.asarray(m.s['uwn']) - np.asarray(m.s['ustarn']) * np.asarray(m.s['uws'])
            dot = np.asarray(m.s['ustars']) * np.asarray(m.s['uws']) + np.asarray(m.s['ustarn']) * np.asarray(m.s['uwn'])
            if not (np.all(np.abs(c) <= 1e-8 * (1 + uw**2)) and np.all(dot >= -1e-9)):
                raise Viol('%s the shear velocity does not point along the wind' % what, 'shear direction')
        if h >= -1:
            if np.any(uw > 0):
                windy += 1
                # fluxes in the orientation of the input
                fs, fn = np.asarray(m.s['Ct']) * np.asarray(m.s['us']), np.asarray(m.s['Ct']) * np.asarray(m.s['un'])
                qs, qn = rot(m.p['alpha'], fs, fn)
                first = s['solver'] == 'pieter' and t == 0.
                if not first:
                    sc = 1e-8 * (1e-12 + np.max(np.abs(fs)) + np.max(np.abs(fn)))
                    if not (np.allclose(m.s['qs'], qs, atol=sc, rtol=0) and np.allclose(m.s['qn'], qn, atol=sc, rtol=0)):
                        raise Viol('%s the sediment flux is not in the orientation of the input grid' % what, 'flux')
            elif np.any(m.s['qs']) or np.any(m.s['qn']):
                raise Viol('%s there is a sediment flux without wind' % what, 'flux')
            tally.kind('steps checked')
        else:
            tally.kind('fast-forwards checked')
        # the turned model
        if m2 is not None:
            drive.step(m2, h, seed=case['seed'])
            if not abs(m2.t - m.t) <= 1e-9 * max(1., m.t):
                raise Viol('%s the turned model is at t=%r instead of %r' % (what, m2.t, m.t), 'turned time')
            for k in SCALARS:
                if k not in m.s:
                    continue
                x, y = np.asarray(m.s[k]), np.asarray(m2.s[k])
                if k == 'zb':
                    ok = np.allclose(x - z0(s), y - z0(s), rtol=0, atol=1e-6 * (1e-9 + np.max(np.abs(x - z0(s)))) + 1e-11)
                elif k in ('dzb', 'pickup'):
                    ok = close(x, y, 1e-5, scale=1e-6)
                elif k in ('us', 'un'):
                    ok = close(x, y, 1e-6, scale=1.)
                else:
                    ok = close(x, y, 1e-6, scale=1e-9)
                if not ok:
                    raise Viol('%s %s depends on the orientation of the grid (turned from %g to %g degrees)' % (
                        what, k, s['rot'], case['angle']), 'turned ' + k)
            for i, j in PAIRS:
                a, b = rot(case['angle'] - s['rot'], np.asarray(m.s[i]), np.asarray(m.s[j]))
                sc = 1e-6 * (1e-9 + np.max(np.abs(a)) + np.max(np.abs(b)))
                if not (np.allclose(m2.s[i], a, atol=sc, rtol=0) and np.allclose(m2.s[j], b, atol=sc, rtol=0)):
                    raise Viol('%s (%s, %s) is not turned with grid and wind (from %g to %g degrees)' % (
                        what, i, j, s['rot'], case['angle']), 'turned ' + i)
            tally.kind('turned states compared')
        steps += 1
        tally.state(drive.digest(m))
    tally.steps += steps
    tally.runs += 1 + (m2 is not None)
    tally.simtime += m.t
    if windy and abs(s['rot']) >= 1.:
        tally.key = [skey(s), s['rot'], case['turn'] and case['angle'], case['hist']]


_z = {}


def z0(s):
    return scenario.bed_array(s)


execute = guarded(case_fn)


def _extra(case):
    for i in range(len(case['hist'])):
        yield dict(case, hist=case['hist'][:i] + case['hist'][i + 1:])
    if case['turn']:
        yield dict(case, turn=False)
    if case['runner']:
        yield dict(case, runner=False)


shrink = shrinker(_extra)
