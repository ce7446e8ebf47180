"""Sediment enters and leaves through the boundaries as configured."""
import logging
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (2400, 80000)
RULE = ('one case = one seeded scenario with any combination of conditions on the offshore, onshore and lateral boundaries under any solver and '
        'scheme, optionally with plumes of sediment injected into the air and bursts of calm, or with one condition that is unknown or not implemented; '
        'after every windy step the concentration prescribed (upwind solvers) or the sediment balance of the cell at the boundary (face based solvers) '
        'is compared with the configured condition; non-trivial when sediment moved at a boundary, or a condition was refused; '
        'distinct by scenario structure, conditions and injections')
ASSUMPTIONS = ['steps in which the solver clipped negative concentrations or did not converge (both of which the model reports) are not judged',
               'where a constant lateral boundary meets a uniform or gradient one the corner cell is not judged',
               'a prescribed flux is a share of the equilibrium concentration of every fraction at the boundary',
               'the face based solvers are balanced under the fully implicit scheme or in steady state']

UPWIND = {'off': ['flux', 'flux', 'constant', 'constant', 'uniform', 'gradient'], 'lat': ['circular', 'constant']}
FACE = {'off': ['flux', 'flux', 'constant', 'gradient'], 'lat': ['circular', 'constant', 'flux', 'gradient']}
BAD = {'trunk': ([['circular', 'NotImplementedError'], ['clamped', 'ValueError']],
                 [['uniform', 'NotImplementedError'], ['gradient', 'NotImplementedError'], ['clamped', 'ValueError']]),
       'steadystate': ([['circular', 'NotImplementedError'], ['noflux', 'ValueError'], ['clamped', 'ValueError']],
                       [['uniform', 'NotImplementedError'], ['gradient', 'NotImplementedError'], ['clamped', 'ValueError']]),
       'pieter': ([['circular', 'NotImplementedError'], ['uniform', 'ValueError'], ['clamped', 'ValueError']],
                  [['uniform', 'ValueError'], ['clamped', 'ValueError']])}
BAD['steadystatepieter'] = BAD['pieter']


def gen(rng):
    solver = rng.choice(['trunk', 'trunk', 'trunk', 'steadystate', 'pieter', 'pieter', 'steadystatepieter', 'steadystatepieter'])
    face = 'pieter' in solver
    scheme = 'euler_backward' if face else rng.choice(['euler_backward', 'crank_nicolson', 'euler_forward'])
    s = scenario.gen(rng, steps=8, scheme=scheme, solver=solver, mbc=999., dim=rng.choice([1, 2, 2]), calm=.1,
                     allow=['stretch', 'tide', 'wave', 'runup', 'moist', 'mix', 'wetreset', 'ne', 'bedcomp', 'graindist2d', 'mask', 'fence', 'veg', 'avalanche'])
    s['max_iter'] = 1000
    s['mg'] = rng.choice(['windspeed', 'constant', 'duran'])
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 9), min(s['ny'], 5)
    k = FACE if face else UPWIND
    off = k['off'] + (['noflux'] if solver == 'trunk' else [])
    s['bc'] = [rng.choice(off), rng.choice(off), rng.choice(k['lat'])]
    if s['dim'] == 1 and not face:
        s['bc'][2] = rng.choice(['circular', 'constant'])
    s['oflux'] = rng.choice([0., .3, 1., 1., 2.])
    s['nflux'] = rng.choice([0., .3, 1., 1.5])
    s['extra'] = {'constant_offshore_flux': rng.choice([0., .001, .01]), 'constant_onshore_flux': rng.choice([0., .002, .02]),
                  'lateral_flux': rng.choice([0., .5, 1.])}
    bad = None
    if rng.random() < .12:
        i = rng.randrange(3)
        name, exc = rng.choice(BAD[solver][1 if i == 2 else 0])
        s['bc'][i] = name
        bad = [i, name, exc]
    ops = []
    for _ in range(rng.randint(2, 6)):
        ops.append({'plume': rng.randint(0, 10**6), 'size': rng.choice([.001, .05])} if rng.random() < .3 and 'steady' not in solver else None)
    return {'s': s, 'seed': rng.randint(0, 10**6), 'ops': ops, 'bad': bad}


class Clipped(logging.Handler):
    """Counts reports of negative concentrations."""

    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.n = 0

    def emit(self, rec):
        if 'egative' in str(rec.msg):
            self.n += 1


def share(s, side):
    """Share of the equilibrium concentration prescribed at a boundary."""
    b = s['bc'][side]
    return 0. if b == 'noflux' else (s['oflux'], s['nflux'])[side]


def expect_upwind(s, C, u, cu0, ds, side):
    """Concentration in the boundary cells, None where nothing is prescribed."""
    b = s['bc'][side]
    i, j, k = (0, 1, 2) if side == 0 else (-1, -2, -3)
    if b in ('flux', 'noflux'):
        return share(s, side) * cu0[:, i]
    if b == 'constant':
        return s['extra'][('constant_offshore_flux', 'constant_onshore_flux')[side]] / u[:, i]
    if b == 'uniform':
        return C[:, j]
    return C[:, j] + (C[:, j] - C[:, k]) * (ds[:, j] / ds[:, k])


def residual_face(s, C, dC, P, us, un, cu0, ds, dn, dt):
    """Sediment appearing in every cell that is not prescribed, and what is carried through the outer faces."""
    off, on, lat = s['bc']
    ny, nx = C.shape
    F = np.zeros((ny, nx + 1))
    uf = .5 * (us[:, :-1] + us[:, 1:])
    F[:, 1:-1] = np.where(uf >= 0, uf * C[:, :-1], uf * C[:, 1:])
    F[:, 0] = us[:, 0] * cu0[:, 0] * s['oflux']
    F[:, -1] = us[:, -1] * cu0[:, -1] * s['nflux']
    if off == 'gradient':
        F[:, 0] = F[:, 1]
    if on == 'gradient':
        F[:, -1] = F[:, -2]
    div = (F[:, 1:] - F[:, :-1]) / ds
    G = np.zeros((ny + 1, nx))
    if s['dim'] == 2:
        vf = .5 * (un[:-1] + un[1:])
        G[1:-1] = np.where(vf >= 0, vf * C[:-1], vf * C[1:])
        if lat == 'circular':
            w = .5 * (un[0] + un[-1])
            G[0] = G[-1] = np.where(w >= 0, w * C[-1], w * C[0])
        elif lat == 'flux':
            G[0] = un[0] * cu0[0] * s['extra']['lateral_flux']
            G[-1] = un[-1] * cu0[-1] * s['extra']['lateral_flux']
        elif lat == 'gradient':
            G[0], G[-1] = G[1], G[-2]
        div = div + (G[1:] - G[:-1]) / dn
    res = dC + div * dt - P
    free = np.ones(C.shape, bool)
    free[:, 0] &= off != 'constant'
    free[:, -1] &= on != 'constant'
    if s['dim'] == 2 and lat == 'constant':
        free[0] = free[-1] = False
    edge = np.zeros(C.shape, bool)
    edge[:, [0, -1]] = True
    if s['dim'] == 2:
        edge[[0, -1]] = True
    return res, free, edge, div


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    clip = Clipped()
    log = logging.getLogger('aeolis')
    log.addHandler(clip)
    try:
        run(case, cfg, clip, tally)
    finally:
        log.removeHandler(clip)


def refused(case, m, tally):
    i, name, exc = case['bad']
    for _ in range(4):
        try:
            drive.step(m, seed=case['seed'])
        except Exception as e:
            if type(e).__name__ != exc:
                raise Viol('condition %r on the %s boundary raises %s: %s' % (name, ('offshore', 'onshore', 'lateral')[i], type(e).__name__, str(e)[:100]), 'refused as')
            tally.kind('refused conditions')
            tally.key = [skey(case['s']), case['bad']]
            return
        tally.steps += 1
        if m.get_count('matrixsolve') > 0:
            raise Viol('transport was computed with the unknown condition %r on the %s boundary' % (name, ('offshore', 'onshore', 'lateral')[i]), 'not refused')


def run(case, cfg, clip, tally):
    s = case['s']
    face = 'pieter' in s['solver']
    steady = 'steady' in s['solver']
    m = drive.bmi(cfg)
    tally.runs += 1
    if case['bad']:
        refused(case, m, tally)
        tally.simtime += m.t
        return
    judged = moved = 0
    for op in case['ops']:
        if op:
            r = np.random.RandomState(op['plume'])
            C = np.asarray(m.s['Ct']).copy()
            C[:, 1:-1] += op['size'] * (r.uniform(0, 1, C[:, 1:-1].shape) < .3) * r.uniform(0, 1, C[:, 1:-1].shape)
            m.s['Ct'] = C
            tally.fault('plumes')
        C0 = np.array(m.s['Ct'], copy=True)
        t = m.t
        solves = m.get_count('matrixsolve')
        n0 = clip.n
        drive.step(m, seed=case['seed'])
        tally.steps += 1
        tally.state(drive.digest(m))
        n = m.get_count('matrixsolve') - solves
        if not np.any(m.s['uw']):
            tally.fault('calm')
            continue
        if n == 0:
            continue                # first guess of the face based solvers
        if n >= 1000:
            tally.kind('solver did not converge')
            break
        if clip.n > n0:
            tally.kind('clipped')
            continue
        C = np.asarray(m.s['Ct'])
        P = np.asarray(m.s['pickup'])
        us, un, u, cu0 = (np.asarray(m.s[k]) for k in ('us', 'un', 'u', 'Cu0'))
        ds, dn = np.asarray(m.s['ds']), np.asarray(m.s['dn'])
        for f in range(s['nf']):
            c = C[..., f]
            if not np.all(np.isfinite(c)):
                raise Viol('concentrations are not finite after the step at t=%r' % t, 'finite')
            tol = 1e-9 * max(np.abs(c).max(), np.abs(cu0[..., f]).max()) + 1e-13
            if face and np.any(c == 0.) and np.any(cu0[..., f] > 0):
                # negative concentrations may have been clipped to zero
                outflow = (s['bc'][0] == 'flux' and np.any(us[:, 0, f] < 0) and s['oflux'] > 0) or (s['bc'][1] == 'flux' and np.any(us[:, -1, f] > 0) and s['nflux'] > 0) \
                    or (s['bc'][2] == 'flux' and s['dim'] == 2 and s['extra']['lateral_flux'] > 0)
                if outflow:
                    tally.kind('clipped')
                    continue
            cells = slice(1, -1) if s['dim'] == 2 and s['bc'][2] == 'constant' else slice(None)
            for side in (0, 1):
                i = (0, -1)[side]
                name = ('offshore', 'onshore')[side]
                b = s['bc'][side]
                rows = cells if b in ('uniform', 'gradient') else slice(None)
                if not face:
                    x = expect_upwind(s, c, u[..., f], cu0[..., f], ds, side)
                elif b == 'constant':
                    x = s['extra'][('constant_offshore_flux', 'constant_onshore_flux')[side]] / u[:, i, f] if steady else C0[:, i, f]
                else:
                    continue
                e = np.abs(c[:, i] - x)[rows]
                judged += 1
                moved += bool(np.any(np.abs(x[rows]) > tol))
                # tiny negative concentrations count as zero
                if e.size and not e.max() <= tol + 1e-6 * np.any(x < 0):
                    k = int(e.argmax())
                    raise Viol('%s %s boundary: concentration of fraction %d is %.6g rather than %.6g in the step at t=%r' % (
                        b, name, f, c[rows, i][k], x[rows][k], t), 'prescribed %s %s' % (b, name))
            if s['dim'] == 2 and s['bc'][2] == 'constant' and not (face and steady):
                e = np.abs(c - C0[..., f])[[0, -1], 1:-1]
                judged += 1
                moved += bool(np.any(C0[[0, -1], 1:-1, f] > tol))
                if not e.max() <= tol:
                    raise Viol('constant lateral boundary: concentration of fraction %d changed by %.6g in the step at t=%r' % (f, e.max(), t), 'prescribed constant lateral')
            if not face:
                continue
            res, free, edge, div = residual_face(s, c, (c - C0[..., f]) if not steady else 0. * c, P[..., f], us[..., f], un[..., f], cu0[..., f], ds, dn, m.dt)
            scale = max(np.abs(P[..., f]).max(), np.abs(div * m.dt).max())
            tol = 1e-7 * scale + 4e-6
            judged += 1
            moved += bool(np.any(np.abs(div * m.dt)[free & edge] > tol))
            e = np.abs(res) * (free & edge)
            if not e.max() <= tol:
                k = tuple(int(v) for v in np.unravel_index(e.argmax(), e.shape))
                raise Viol('%s: %.6g kg/m2 of fraction %d %s in the boundary cell %r in the step at t=%r (pickup %.4g)' % (
                    '/'.join(s['bc']), e.max(), f, 'appeared' if res[k] > 0 else 'vanished', k, t, scale), 'balance')
    tally.simtime += m.t
    tally.kind('judged boundaries', judged)
    for b in s['bc'][:2 if s['dim'] == 1 else 3]:
        tally.kind('condition ' + b)
    if moved:
        tally.key = [skey(s), s['extra'], case['ops']]


execute = guarded(case_fn)


def _extra(case):
    o = case['ops']
    if len(o) > 1:
        yield dict(case, ops=o[:-1])
        yield dict(case, ops=o[1:])
    for i, x in enumerate(o):
        if x:
            yield dict(case, ops=o[:i] + [None] + o[i + 1:])
    if case['s']['mg'] != 'windspeed':
        yield dict(case, s=dict(case['s'], mg='windspeed'))


shrink = shrinker(_extra)
