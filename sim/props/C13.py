"""Sediment budget of the bed: what leaves the bed is what is picked up."""
import math
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (5400, 180000)
RULE = ('one case = one seeded scenario, optionally with pickup or deposition of any size injected into the transport step by the '
        'simulator, stepped through a seeded forcing; after every step the mass of every fraction in every layer of every cell and '
        'the bed level are compared with an independent ledger; non-trivial when sediment was both picked up and deposited; '
        'distinct by scenario structure and seed of the injected exchange')
ASSUMPTIONS = ['masses agree within 1e-9 of the mass of a layer; negative masses below the configured error are rounded to zero by design',
               'a transport solution that did not converge (which the model reports) is not judged',
               'injected exchanges never take more of a fraction from a cell than its top layer holds']


def gen(rng):
    s = scenario.gen(rng, steps=8, allow=['stretch', 'tide', 'wave', 'runup', 'moist', 'mix', 'mix', 'ne', 'bedcomp', 'graindist2d', 'mask', 'fence', 'veg'],
                     mbc=999., dim=rng.choice([1, 1, 2]))
    s['max_iter'] = 1000
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 7), min(s['ny'], 3)
    if rng.random() < .25:
        # waves that mix layers of different composition
        s['tide'] = scenario.gen_series(rng, s['tstop'], .2, 1.5)
        s['wave'] = scenario.gen_series(rng, s['tstop'], 0, 0, 2, [.1, 3.], [2., 12.])
        s['runup'] = s['mix'] = True
        s['lt'] = rng.choice([.003, .01, .03])
        s['bedcomp'] = None
        if s['nf'] == 1:
            s['nf'], s['gs'] = 2, [.0002, .0004]
        s['nl'] = rng.choice([2, 3, 4])
        s['gd'] = [rnd(rng, .1, 1., 2) for _ in range(s['nf'])]
        s['gd2'] = [[rnd(rng, .1, 1., 2) for _ in range(s['nf'])] for _ in range(s['nl'])]
        s['wind'] = [[r[0], 0. if rng.random() < .6 else r[1], r[2]] for r in s['wind']]
    inject = None
    if rng.random() < .6:
        inject = {'seed': rng.randint(0, 10**6), 'size': rng.choice([.01, .5, 1., 2.5, 8.]), 'mixed': rng.random() < .6,
                  'p': rng.choice([.3, .7, 1.])}
    return {'s': s, 'seed': rng.randint(0, 10**6), 'n': rng.randint(3, 8), 'inject': inject}


def exchange(rs, mass, inj):
    """Pickup of every fraction (negative: deposition); erosion is limited by
    what the top layer holds, deposition may exceed several layers."""
    top = mass[:, :, 0, :]
    ml = top.sum(axis=-1, keepdims=True)
    n, nf = top.shape[:2], top.shape[2]
    kind = rs.randint(0, 3, n)                          # erode, deposit, mixed
    p = np.zeros(top.shape)
    ero = top * rs.uniform(0, 1, top.shape) * min(1., inj['size'])
    comp = rs.uniform(0, 1, top.shape) + 1e-3
    comp /= comp.sum(axis=-1, keepdims=True)
    dep = -ml * comp * (rs.uniform(0, 1, n) * inj['size'])[:, :, None]
    p[kind == 0] = ero[kind == 0]
    p[kind == 1] = dep[kind == 1]
    mx = np.where(rs.uniform(0, 1, top.shape) < .5, ero, dep)
    p[kind == 2] = mx[kind == 2] if inj['mixed'] and nf > 1 else 0.
    p[rs.uniform(0, 1, n) > inj['p']] = 0.
    return p


def bottom(s, d, shape):
    """Composition of the sediment below the layers."""
    if s['bedcomp'] is not None:
        m = np.loadtxt(os.path.join(d, 'bedcomp.txt')).reshape(shape)[:, :, -1, :]
        return m / m.sum(axis=-1, keepdims=True)
    g = np.array(s['gd2'][-1] if s['gd2'] is not None else s['gd'], float)
    return np.broadcast_to(g / g.sum(), (shape[0], shape[1], shape[3]))


def mixing(m, m0, m1, t, tally):
    """Mixing by waves moves sediment between the layers of a cell only, down
    to a tenth of the wave height, and evens them out."""
    if not np.allclose(m0.sum(axis=2), m1.sum(axis=2), rtol=1e-11, atol=1e-11):
        raise Viol('mixing by waves changed the sediment in a cell at t=%r' % t, 'mixing budget')
    deep = np.asarray(m.s['thlyr']).cumsum(axis=2) > m.p['facDOD'] * np.asarray(m.s['Hsmix'])[:, :, None]
    if not np.allclose(m0[deep], m1[deep], rtol=1e-11, atol=1e-12):
        raise Viol('waves mixed layers below their depth of disturbance at t=%r' % t, 'mixing depth')
    if np.any(np.ptp(m1, axis=2) > np.ptp(m0, axis=2) * (1 + 1e-9) + 1e-9):
        raise Viol('mixing by waves made layers more different at t=%r' % t, 'mixing direction')
    thick = np.asarray(m.s['thlyr']).sum(axis=2)
    dod = m.p['facDOD'] * np.asarray(m.s['Hsmix'])
    k = (~deep).sum(axis=2)
    for n in range(2, m0.shape[2] + 1):
        c = (k == n) & (dod <= thick)
        if np.any(c):
            x = m1[c][:, :n]
            if not np.allclose(x, x.mean(axis=1, keepdims=True), rtol=1e-9, atol=1e-12):
                raise Viol('layers within the depth of disturbance are not mixed at t=%r' % t, 'mixing')
    if np.any(np.abs(m0 - m1) > 1e-9):
        tally.kind('calm steps with mixing')


def ledger(m0, m1, p, bot, t, tally, layers=True):
    """m0, m1: mass before and after; p: pickup of this step."""
    ml = m0.sum(axis=-1)
    tol = 1e-9 * (1. + ml.max()) + 1e-9 * np.abs(p).max() + 1.5e-6 * m0.shape[3]
    if not np.all(np.isfinite(m1)):
        raise Viol('bed mass is not finite after the step at t=%r' % t, 'finite')
    # no layer gains or loses mass
    e = np.abs(m1.sum(axis=-1) - ml)
    if not e.max() <= tol:
        raise Viol('the mass of layer %d changed from %.9g to %.9g kg/m2 in the step at t=%r' % (
            (np.unravel_index(e.argmax(), e.shape)[2],) + (ml.flat[e.argmax()], m1.sum(axis=-1).flat[e.argmax()]) + (t,)), 'layer mass')
    tot = p.sum(axis=-1)
    change = m1.sum(axis=2) - m0.sum(axis=2) + p         # kg/m2 per fraction from below
    ero = tot >= 0
    # erosion: replenished from below with the composition of the bottom
    want = tot[..., None] * bot
    e = np.abs(change - want)[ero]
    if e.size and not e.max() <= tol:
        raise Viol('%.6g kg/m2 of a fraction appeared or vanished in an eroding cell in the step at t=%r' % (e.max(), t), 'erosion budget')
    # deposition: as much leaves through the bottom, of nothing but what was there
    out = -change[~ero]
    if out.size:
        if not out.min() >= -tol:
            raise Viol('%.6g kg/m2 of a fraction appeared in a depositing cell in the step at t=%r' % (-out.min(), t), 'deposition budget')
        e = np.abs(out.sum(axis=-1) + tot[~ero])
        if not e.max() <= tol:
            raise Viol('%.6g kg/m2 appeared or vanished in a depositing cell in the step at t=%r' % (e.max(), t), 'deposition total')
        # a thin deposit pushes out sediment of the lowest layer only
        thin = (-tot < .999 * ml.min(axis=-1)) & ~ero
        nl = m0.shape[2]
        if np.any(thin) and nl > 1 and layers:
            o = -change[thin]
            d = m0[thin][:, -1, :] / m0[thin][:, -1, :].sum(axis=-1, keepdims=True)
            e = np.abs(o + tot[thin][:, None] * d)
            if not e.max() <= tol:
                raise Viol('a thin deposit pushed out other sediment than that of the lowest layer in the step at t=%r' % t, 'deposition composition')
    # layers above: sediment only moves between neighbours
    nl = m0.shape[2]
    pos = (p >= 0).all(axis=-1)
    if np.any(pos) and nl > 1 and layers:
        a, b = m0[pos], m1[pos]
        x = tot[pos][:, None]
        d = a / a.sum(axis=-1, keepdims=True)
        for i in range(nl):
            below = d[:, i + 1] if i + 1 < nl else bot[pos]
            own = d[:, i] if i else 0.
            want = a[:, i] + x * below - (x * own if i else p[pos])
            want = np.where((want < 0) & (want > -1e-6), 0., want)
            e = np.abs(b[:, i] - want)
            if not e.max() <= tol:
                raise Viol('layer %d of an eroding cell is not replenished from the layer below in the step at t=%r' % (i, t), 'erosion layers')
    # a deposit of more than a layer fills the top layer
    over = (-tot > 1.001 * ml[:, :, 0]) & (p <= 0).all(axis=-1)
    if np.any(over):
        d = p[over] / tot[over][:, None]
        got = m1[over][:, 0, :] / m1[over][:, 0, :].sum(axis=-1, keepdims=True)
        if not np.abs(got - d).max() <= 1e-9:
            raise Viol('the top layer does not consist of the fresh deposit in the step at t=%r' % t, 'deposition top')
        tally.kind('deposits of more than a layer', int(over.sum()))
    tally.kind('eroding cells', int((tot > 0).sum()))
    tally.kind('depositing cells', int((tot < 0).sum()))


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    m = drive.bmi(cfg)
    # initial composition
    shape = m.s['mass'].shape
    full = 2650. * (1. - .4) * s['lt']
    bot = bottom(s, os.path.join(d, 'm'), shape)
    m0 = np.array(m.s['mass'], copy=True)
    if s['bedcomp'] is None:
        if not np.allclose(m0.sum(axis=-1), full, rtol=1e-12):
            raise Viol('the layers do not hold the mass of their thickness initially', 'initial mass')
        for i in range(s['nl']):
            g = np.array(s['gd2'][i] if s['gd2'] is not None else s['gd'], float)
            if not np.allclose(m0[:, :, i, :], full * g / g.sum(), rtol=1e-12):
                raise Viol('layer %d does not have the configured composition initially' % i, 'initial composition')
    elif not np.allclose(m0, np.loadtxt(os.path.join(d, 'm', 'bedcomp.txt')).reshape(shape), rtol=1e-12):
        raise Viol('the bed does not have the composition of the input file initially', 'initial composition')
    inj = case['inject']
    rs = np.random.RandomState(inj['seed']) if inj else None
    scheme = {'euler_forward': 'euler_forward', 'euler_backward': 'euler_backward', 'crank_nicolson': 'crank_nicolson'}[s['scheme']]
    ero = dep = 0
    for i in range(case['n']):
        prev = drive.Snap(m, only=('mass', 'zb'))
        if inj:
            # the transport step is replaced by an exchange of any size
            def stub():
                return dict(pickup=exchange(rs, m.s['mass'], inj))
            setattr(m, scheme, stub)
        t = m.t
        before = prev.s['mass']
        solves = m.get_count('matrixsolve')
        drive.step(m, seed=case['seed'])
        if m.get_count('matrixsolve') - solves >= 1000:
            # the solver gave up (and said so): availability is not respected
            tally.kind('solver did not converge')
            break
        calm = not np.any(np.asarray(m.s['uw']))
        p = np.asarray(m.s['pickup'])
        m1 = np.asarray(m.s['mass'])
        if calm:
            if np.any(p):
                raise Viol('there is an exchange of sediment without wind at t=%r' % t, 'calm')
            if s['mix']:
                mixing(m, before, m1, t, tally)
            elif not np.array_equal(m1, before):
                raise Viol('bed composition changes without wind at t=%r' % t, 'calm')
            tally.state(drive.digest(m))
            continue
        ledger(before, m1, p, bot, t, tally, layers=not s['mix'])
        dz = -p.sum(axis=-1) / (2650. * (1. - .4))
        e = np.abs(np.asarray(m.s['zb']) - prev.s['zb'] - dz)
        if not e.max() <= 1e-12 * (1. + np.abs(prev.s['zb']).max()) + 1e-9 * np.abs(dz).max():
            raise Viol('the bed level change is not the volume of the sediment exchanged in the step at t=%r (off by %.3g m)' % (t, e.max()), 'bed level')
        ero += int((p.sum(axis=-1) > 0).sum())
        dep += int((p.sum(axis=-1) < 0).sum())
        tally.state(drive.digest(m))
    tally.steps += i + 1
    tally.runs += 1
    tally.simtime += m.t
    if inj:
        tally.fault('injected exchanges', case['n'])
    if ero and dep:
        tally.key = [skey(s), inj, case['n']]


execute = guarded(case_fn)


def _extra(case):
    if case['n'] > 1:
        yield dict(case, n=case['n'] // 2)
        yield dict(case, n=case['n'] - 1)
    if case['inject']:
        yield dict(case, inject=None)
        yield dict(case, inject=dict(case['inject'], mixed=False))
        yield dict(case, inject=dict(case['inject'], size=case['inject']['size'] / 2))


shrink = shrinker(_extra)
