"""Sediment balance of the air: what is picked up is in the air or carried on."""
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (4800, 160000)
RULE = ('one case = one seeded scenario under a fully implicit or steady state solver, optionally with plumes of sediment injected '
        'into the air and bursts of calm, stepped through a seeded forcing; after every step the exchange with the bed, the change of the '
        'sediment in the air and what is carried to and from the neighbouring cells are balanced for every fraction in every cell; '
        'non-trivial when sediment was both picked up and carried to a neighbour; distinct by scenario structure and injections')
ASSUMPTIONS = ['steps in which the solver clipped negative concentrations or did not converge (both of which the model reports) are not judged',
               'cells on the open boundaries prescribe a concentration and are not balanced',
               'the upwind solvers (trunk, steadystate) are judged where all grains move in the same direction along each axis',
               'balance holds within the error up to which the solver accepts a shortage of sediment (max_error per cell)']


def gen(rng):
    solver = rng.choice(['trunk', 'trunk', 'trunk', 'steadystate', 'pieter', 'pieter', 'steadystatepieter'])
    s = scenario.gen(rng, steps=8, scheme='euler_backward', solver=solver, mbc=999., dim=rng.choice([1, 1, 2]), calm=.15,
                     allow=['stretch', 'tide', 'wave', 'runup', 'moist', 'mix', 'wetreset', 'ne', 'bedcomp', 'graindist2d', 'mask', 'fence', 'veg', 'avalanche'])
    s['max_iter'] = 1000
    s['mg'] = rng.choice(['windspeed', 'constant', 'duran'])
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 9), min(s['ny'], 5)
        if rng.random() < .6:
            s['bc'][2] = 'circular'
    if rng.random() < .15:
        s['extra'] = {'threshold_file': 'uth.grd'}
        s['masks'] = None
    if 'pieter' in solver and rng.random() < .4:
        # sediment runs out
        s['lt'] = rng.choice([.0002, .0005])
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        ops.append({'plume': rng.randint(0, 10**6), 'size': rng.choice([.001, .05, 1.])} if r < .3 and 'steady' not in solver else None)
    return {'s': s, 'seed': rng.randint(0, 10**6), 'ops': ops, 'uth': rnd(rng, .2, .5)}


def divergence(s, C, us, un, ds, dn):
    """Net sediment carried out of every cell per second [kg/m2/s]."""
    if 'pieter' in s['solver']:
        uf = .5 * (us[:, :-1] + us[:, 1:])
        F = np.where(uf >= 0, uf * C[:, :-1], uf * C[:, 1:])
        div = np.zeros(C.shape)
        div[:, 1:-1] = (F[:, 1:] - F[:, :-1]) / ds[:, 1:-1]
        if s['dim'] == 2:
            vf = .5 * (un + np.roll(un, -1, 0))
            G = np.where(vf >= 0, vf * C, vf * np.roll(C, -1, 0))
            div += (G - np.roll(G, 1, 0)) / dn
        return div
    qs, qn = us * C, un * C
    div = np.abs(qs) / ds
    div[:, 1:] -= np.maximum(qs, 0)[:, :-1] / ds[:, 1:]
    div[:, :-1] -= np.maximum(-qs, 0)[:, 1:] / ds[:, :-1]
    if s['dim'] == 2:
        div += np.abs(qn) / dn
        div -= np.roll(np.maximum(qn, 0), 1, 0) / dn
        div -= np.roll(np.maximum(-qn, 0), -1, 0) / dn
    return div


def onesided(a):
    return np.all(a >= 0) or np.all(a <= 0)


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    if s.get('extra', {}).get('threshold_file'):
        r = np.random.RandomState(case['seed'])
        shp = (s['ny'] + 1, s['nx'] + 1)
        th = case['uth'] + r.uniform(-.1, .1, shp)
        # read as a grid of points (y, x)
        np.savetxt(os.path.join(d, 'm', 'uth.grd'), th)
    m = drive.bmi(cfg)
    judged = carried = 0
    for op in case['ops']:
        if op:
            r = np.random.RandomState(op['plume'])
            C = np.asarray(m.s['Ct']).copy()
            C[:, 1:-1] += op['size'] * (r.uniform(0, 1, C[:, 1:-1].shape) < .3) * r.uniform(0, 1, C[:, 1:-1].shape)
            m.s['Ct'] = C
            tally.fault('plumes')
        C0 = np.array(m.s['Ct'], copy=True)
        t = m.t
        solves = m.get_count('matrixsolve')
        drive.step(m, seed=case['seed'])
        tally.steps += 1
        tally.state(drive.digest(m))
        n = m.get_count('matrixsolve') - solves
        if not np.any(m.s['uw']):
            if not np.array_equal(np.asarray(m.s['Ct']), C0):
                raise Viol('the sediment in the air changed without wind in the step at t=%r' % t, 'calm')
            continue
        if n == 0:
            continue                # first guess of the pieter solvers
        if n >= 1000:
            tally.kind('solver did not converge')
            break
        C = np.asarray(m.s['Ct'])
        P = np.asarray(m.s['pickup'])
        us, un = np.asarray(m.s['us']), np.asarray(m.s['un'])
        ds, dn = np.asarray(m.s['ds'])[:, :, None], np.asarray(m.s['dn'])[:, :, None]
        if not (np.all(np.isfinite(C)) and np.all(np.isfinite(P))):
            raise Viol('concentrations or pickup are not finite after the step at t=%r' % t, 'finite')
        q = np.hypot(np.asarray(m.s['qs']), np.asarray(m.s['qn']))
        if not np.allclose(q, C * np.hypot(us, un), rtol=1e-9, atol=1e-15):
            raise Viol('the sediment flux is not the sediment in the air times its velocity after the step at t=%r' % t, 'flux')
        div = divergence(s, C, us, un, ds, dn)
        dC = C - C0 if 'steady' not in s['solver'] else 0. * C
        wCu = np.asarray(m.s['w']) * np.asarray(m.s['Cu'])
        cu = np.asarray(m.s['Cu'])
        sat = np.where(cu > 0, C0 / np.where(cu > 0, cu, 1.), 0.).sum(axis=-1)
        for f in range(s['nf']):
            if 'pieter' not in s['solver'] and not (onesided(us[..., f]) and (s['dim'] == 1 or onesided(un[..., f]))):
                tally.kind('grains move in several directions')
                continue
            # negative concentrations were clipped to zero
            z = C[..., f] == 0.
            if 'pieter' not in s['solver']:
                clipped = z[:, 1:-1] & (wCu[:, 1:-1, f] > 0)
                near = (C[:, :-2, f] > 0) | (C[:, 2:, f] > 0)
                clipped |= z[:, 1:-1] & near & np.any(us[:, 1:-1, f] != 0)
                edge = (z[:, 0] & (s['bc'][0] in ('gradient', 'uniform'))) | (z[:, -1] & (s['bc'][1] in ('gradient', 'uniform')))
                if np.any(clipped) or np.any(edge):
                    tally.kind('clipped')
                    continue
            res = (dC + div * m.dt - P)[..., f][:, 1:-1]
            if s['dim'] == 2 and s['bc'][2] != 'circular':
                res = res[1:-1]
            scale = max(np.abs(P[..., f]).max(), np.abs(div[..., f] * m.dt).max())
            # interpolating between thresholds by the saturation amplifies rounding where far more is in the air than it can carry
            tol = 1e-7 * scale + 4e-6 + 4 * np.finfo(float).eps * sat.max() * wCu[..., f].max() * m.dt / s['T']
            judged += 1
            carried += int(np.sum(np.abs(div[..., f] * m.dt) > tol))
            if res.size and not np.abs(res).max() <= tol:
                e = np.abs(res)
                k = np.unravel_index(e.argmax(), e.shape)
                raise Viol('%.6g kg/m2 of fraction %d %s between bed, air and neighbours in cell %r in the step at t=%r (pickup %.4g)' % (
                    e.max(), f, 'appeared' if res[k] > 0 else 'vanished', tuple(int(i) for i in k), t, scale), 'balance')
    tally.runs += 1
    tally.simtime += m.t
    tally.kind('balanced fractions', judged)
    if carried:
        tally.key = [skey(s), case['ops']]


execute = guarded(case_fn)


def _extra(case):
    o = case['ops']
    if len(o) > 1:
        yield dict(case, ops=o[:-1])
        yield dict(case, ops=o[1:])
    for i, x in enumerate(o):
        if x:
            yield dict(case, ops=o[:i] + [None] + o[i + 1:])
    if case['s']['mg'] != 'windspeed':
        yield dict(case, s=dict(case['s'], mg='windspeed'))


shrink = shrinker(_extra)
