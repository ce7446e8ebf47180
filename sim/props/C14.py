"""Supply: the wind picks up no more than the bed offers, in its proportions."""
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (5000, 200000)
RULE = ('one case = one seeded scenario with storms, long steps and thin layers in which the simulator starves the top layer of single '
        'fractions and blows plumes into the air between steps; every step is judged; non-trivial when the supply of some fraction was '
        'limiting somewhere; distinct by scenario structure and injections')
ASSUMPTIONS = ['steps in which the solver did not converge (which the model reports) are not judged',
               'shortages up to the configured error (max_error) per fraction and cell are accepted by design']


def gen(rng):
    s = scenario.gen(rng, steps=8, mbc=999., dim=rng.choice([1, 1, 2]), calm=.1, nf=rng.choice([1, 2, 2, 3]),
                     allow=['stretch', 'tide', 'ne', 'bedcomp', 'graindist2d', 'mask', 'fence', 'veg'])
    s['max_iter'] = 1000
    s['lt'] = rng.choice([.0002, .001, .005, .05])
    s['bi'] = rng.choice([1., 1., 1., .5, .05])
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 8), min(s['ny'], 4)
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .35:
            ops.append({'op': 'starve', 'seed': rng.randint(0, 10**6), 'left': rng.choice([0., 1e-7, 1e-3, .1])})
        elif r < .5 and 'steady' not in s['solver']:
            ops.append({'op': 'plume', 'seed': rng.randint(0, 10**6), 'size': rng.choice([.001, .05, 1.])})
        else:
            ops.append(None)
    return {'s': s, 'seed': rng.randint(0, 10**6), 'ops': ops}


def inject(m, o, s):
    r = np.random.RandomState(o['seed'])
    if o['op'] == 'starve':
        # part of the cells lose most of one fraction to the others
        a = np.asarray(m.s['mass']).copy()
        f = r.randint(0, s['nf'])
        ix = r.uniform(0, 1, a.shape[:2]) < .5
        tot = a[:, :, 0, :].sum(axis=-1)
        top = a[:, :, 0, :].copy()
        top[..., f] *= o['left']
        if s['nf'] > 1:
            rest = top.sum(axis=-1) - top[..., f]
            ok = ix & (rest > 1e-3 * tot)
            k = (tot - top[..., f])[ok] / rest[ok]
            x = top[ok] * k[:, None]
            x[:, f] = top[ok][:, f]
            a[:, :, 0, :][ok] = x
            m.s['mass'] = a
    else:
        C = np.asarray(m.s['Ct']).copy()
        C[:, 1:-1] += o['size'] * (r.uniform(0, 1, C[:, 1:-1].shape) < .3) * r.uniform(0, 1, C[:, 1:-1].shape)
        m.s['Ct'] = C


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    m = drive.bmi(cfg)
    limited = 0
    for op in case['ops']:
        if op:
            inject(m, op, s)
            tally.fault(op['op'])
        m0 = np.array(m.s['mass'], copy=True)[:, :, 0, :]
        t = m.t
        solves = m.get_count('matrixsolve')
        drive.step(m, seed=case['seed'])
        tally.steps += 1
        tally.state(drive.digest(m))
        n = m.get_count('matrixsolve') - solves
        C = np.asarray(m.s['Ct'])
        if not np.all(np.isfinite(C)):
            raise Viol('the concentration is not finite after the step at t=%r' % t, 'finite')
        if C.min() < 0:
            raise Viol('there is a negative concentration (%.4g) in the air after the step at t=%r' % (C.min(), t), 'negative concentration')
        if n >= 1000:
            tally.kind('solver did not converge')
            break
        mass = np.asarray(m.s['mass'])
        if not np.all(np.isfinite(mass)) or mass.min() < 0:
            raise Viol('the bed holds %.4g kg/m2 of a fraction after the step at t=%r' % (mass.min(), t), 'negative mass')
        if not np.any(m.s['uw']) or n == 0:
            continue
        p = np.asarray(m.s['pickup'])
        w = np.asarray(m.s['w'])
        Cu = np.asarray(m.s['Cu'])
        over = p - m0
        if over.max() > 1.001e-6 + 1e-9 * m0.max():
            k = np.unravel_index(over.argmax(), over.shape)
            raise Viol('%.6g kg/m2 of fraction %d is picked up where only %.6g kg/m2 is available in the step at t=%r' % (
                p[k], k[2], m0[k], t), 'availability')
        if not w.min() >= -1e-9:
            raise Viol('a fraction has a negative weight (%.4g) in the step at t=%r' % (w.min(), t), 'negative weight')
        if not w.sum(axis=-1).max() <= 1. + 1e-6:
            raise Viol('the weights of the fractions add up to %.6g in the step at t=%r' % (w.sum(axis=-1).max(), t), 'weights')
        limited += int(((m0 - p < 1e-5 + 1e-4 * m0) & (p > 0)).sum())
        # what the final pickup tells about the weights only holds when the
        # solver needed no corrections
        if n != s['nf']:
            continue
        tally.kind('steps judged for proportions')
        # cells with a supply of all fractions
        cell = ((p > .1 * m0) | (m0 < 1e-4)).any(axis=-1)
        full = w.sum(axis=-1)[~cell & (Cu > 0).all(axis=-1)]
        if full.size and not np.abs(full - 1.).max() <= 2e-6:
            raise Viol('the weights add up to %.6g although no fraction is limited by its supply in the step at t=%r' % (full.flat[np.abs(full - 1.).argmax()], t), 'unlimited weights')
        # without interaction with the air, in proportion to the bed
        if s['bi'] == 1. and (t > 0. or s['bedcomp'] is None) and (t > 0 or not case['ops'][0]):
            share = m0 / m0.sum(axis=-1, keepdims=True)
            e = np.abs(w - share)[~cell & (Cu > 0).all(axis=-1)]
            if e.size and not e.max() <= 2e-6:
                raise Viol('fractions are not picked up in proportion to their share in the top layer in the step at t=%r (off by %.4g)' % (t, e.max()), 'proportion')
    tally.runs += 1
    tally.simtime += m.t
    tally.kind('supply limited fractions', limited)
    if limited:
        tally.key = [skey(s), case['ops']]


execute = guarded(case_fn)


def _extra(case):
    o = case['ops']
    if len(o) > 1:
        yield dict(case, ops=o[:-1])
        yield dict(case, ops=o[1:])
    for i, x in enumerate(o):
        if x:
            yield dict(case, ops=o[:i] + [None] + o[i + 1:])


shrink = shrinker(_extra)
