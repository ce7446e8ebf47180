"""Wave-driven dune erosion: where, how far and nothing else."""
import copy
import os

import numpy as np
from math import erf, sqrt

from .common import *

LEVEL = 'exploration'
RUNS = (1600, 60000)
RULE = ('one case = one seeded beach with dune erosion under a seeded series of water levels and waves (storms, floods without waves, calm seas), stepped through seeded winds and '
        'calms, with a duplicate of the model without dune erosion stepped from the very same state in every step; the beds of the two are compared with an independent evaluation of '
        'the erosion of the profile, everything else has to be identical; non-trivial when a row was eroded by at least one cell; distinct by scenario structure and erosion settings')
ASSUMPTIONS = ['avalanching, which would follow dune erosion in the same step, is off wherever profiles are compared',
               'dune erosion acts over the configured time step, not its morphological acceleration',
               'where two positions fit equally well within rounding, either one is accepted']


def gen(rng):
    s = scenario.gen(rng, steps=8, allow=['ne', 'bedcomp', 'fence', 'avalanche', 'wetreset', 'mask', 'tide', 'wave', 'runup'], mbc=999., scheme=rng.choice(['euler_backward', 'crank_nicolson']))
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 12), min(s['ny'], 4)
    top = rng.uniform(1.5, 5.)
    z0 = rng.choice([-3., -2., -1., -.5])
    s['bed'] = dict(s['bed'], z0=z0, slope=round((top - z0) / (s['nx'] * s['dx']), 4), noise=rng.choice([0., .02, .2]), dune=rng.choice([0., 0., 1.5]))
    T = s['tstop']
    n = rng.randint(2, 6)
    ts = sorted(rnd(rng, 0., T * 1.1) for _ in range(n))
    if rng.random() < .8:
        ts[0], ts[-1] = 0., round(T * 1.5, 3)
    surge = rng.choice([0., 0., 2., 4.])
    s['tide'] = [[t, rnd(rng, -1., 1.5) + surge * rng.random()] for t in ts]
    flat = rng.random()
    s['wave'] = [[t, 0. if flat < .2 or rng.random() < .1 else rnd(rng, .1, 5.), 0. if flat < .1 else rnd(rng, 3., 15.)] for t in ts]
    s['runup'] = True
    s['ava'] = rng.random() < .1
    toe = round(z0 + (top - z0) * rng.uniform(.1, 1.05), 2)
    s['extra'] = {'process_dune_erosion': True, 'dune_toe_elevation': toe, 'beach_slope': rng.choice([.02, .05, .1, .2])}
    if rng.random() < .8:
        s['extra']['Cs'] = rng.choice([.0001, .001, .005, .02, .1])
    return {'s': s, 'seed': rng.randint(0, 10**6), 'steps': rng.randint(3, 8)}


def series(t, a, j):
    a = np.asarray(a, dtype=float)
    t0, t1 = a[0, 0], a[-1, 0]
    return float(np.interp(t, a[:, 0], a[:, j])), (t0, t1)


def erode(x, zb, zne, toe, beta, Cs, dt, Tp, twl, mean, sd, tally):
    """All beds that wave impact may leave of a profile."""
    if not (sd > 0 and Tp > 0):
        return [zb]
    p = .5 * (1. - erf((toe - mean) / (sd * sqrt(2.))))
    V = 4. * Cs * (twl - toe)**2 * p * dt / Tp
    dx = abs(x[1] - x[0])
    e = np.abs(zb - toe)
    out = []
    for st0 in np.nonzero(e <= e.min() + 1e-9)[0]:
        line = np.minimum(zb[st0:], toe + .54 * beta * (x[st0:] - x[st0]))
        with np.errstate(invalid='ignore'):
            line = np.where(line < zne[st0:], np.minimum(zb[st0:], zne[st0:]), line)
        vol = np.cumsum(dx * (zb[st0:] - line))
        vol = vol - vol[0]
        d = np.abs(vol - V)
        for k in np.nonzero(d <= d.min() + 1e-9 * max(1., V))[0]:
            z = zb.copy()
            z[st0:st0 + k] = line[:k]
            out.append(z)
            if k and d[k] == d.min():
                tally.kind('profile cut back')
    return out


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    a = drive.bmi(cfg)
    ex = s['extra']
    Cs = ex.get('Cs', a.p['Cs'] if 'Cs' in a.p else None)
    cut = 0
    for i in range(case['steps']):
        b = copy.deepcopy(a)
        b.p['process_dune_erosion'] = False
        t = a.t
        call('stepping a model with dune erosion', drive.step, a, seed=case['seed'])
        call('stepping the duplicate', drive.step, b, seed=case['seed'])
        tally.steps += 1
        tally.state(drive.digest(a))
        za, zb = np.asarray(a.s['zb']), np.asarray(b.s['zb'])
        if not np.all(np.isfinite(za)):
            raise Viol('the bed is not finite after dune erosion at t=%r' % t, 'finite')
        if s['ava']:
            tally.kind('not judged: avalanching')
            continue
        S0 = drive.Snap(a)
        S1 = drive.Snap(b)
        e = drive.diff(S0, S1, skip=('zb', 'theta_stat', 'theta_dyn', 'gradh'))
        if e:
            raise Viol('dune erosion changes something else than the bed: ' + e, 'else')
        T = [series(t, s['tide'], 1), series(t, s['wave'], 2)]
        if t < max(x[1][0] for x in T) or t > min(x[1][1] for x in T):
            # series start again beyond their ends: judged only within
            tally.kind('not judged: beyond the series')
            judge = False
        else:
            judge = True
        wl, Tp = T[0][0], T[1][0]
        x, y = np.asarray(a.s['x']), np.asarray(a.s['y'])
        for j in range(za.shape[0]):
            if np.array_equal(za[j], zb[j]):
                same = True
            else:
                same = False
                cut += 1
            if not judge:
                continue
            R, eta, sd = (float(np.asarray(b.s[k])[j, 0]) for k in ('R', 'eta', 'sigma_s'))
            twl = 1.26 * R + wl
            toe = ex['dune_toe_elevation']
            if abs(twl - toe) < 1e-9:
                continue
            if twl < toe:
                if not same:
                    raise Viol('row %d is eroded though the water reaches %.4g m and the toe lies at %.4g m, at t=%r' % (j, twl, toe, t), 'dry')
                tally.kind('row not reached')
                continue
            tally.kind('row reached' if sd > 0 else 'row flooded without waves')
            r = np.hypot(x[j] - x[j, 0], y[j] - y[j, 0]) if s['dim'] == 2 else x[j] - x[j, 0]
            want = erode(r, zb[j], np.asarray(b.s['zne'])[j], toe, ex['beach_slope'], Cs, s['dt'], Tp, twl, eta + wl, sd, tally)
            if not any(np.allclose(za[j], w, rtol=0, atol=1e-9) for w in want):
                w = min(want, key=lambda w: np.abs(w - za[j]).max())
                raise Viol('the profile of row %d deviates by up to %.4g m from the one cut back by waves at t=%r (water reaches %.4g m, toe at %.4g m, %d cells differ from the uneroded profile)' % (
                    j, np.abs(w - za[j]).max(), t, twl, toe, int(np.sum(za[j] != zb[j]))), 'profile')
    tally.runs += 1
    tally.simtime += a.t
    if cut:
        tally.kind('rows eroded', cut)
        tally.key = [skey(s), sorted(ex.items())]


execute = guarded(case_fn)


def _extra(case):
    if case['steps'] > 1:
        yield dict(case, steps=case['steps'] - 1)
        yield dict(case, steps=1)


shrink = shrinker(_extra)
