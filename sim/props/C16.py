"""Avalanching: sediment only moves downslope until slopes are stable."""
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (1040, 40000)
RULE = ('one case = one seeded scenario in which the simulator steepens the bed between steps (dunes, pits, cliffs of seeded size and '
        'place, deep or shallow non-erodible layer); every step is compared with the bed before it and the sediment exchanged with the '
        'wind; non-trivial when the bed avalanched; distinct by scenario structure and steepenings')
ASSUMPTIONS = ['cells are at least 0.5 m wide (the explicit relaxation is not stable for smaller ones)',
               'sediment that slides into the outermost row of cells leaves the domain',
               'remaining slopes are judged on beds without a non-erodible layer, where the iteration is given enough iterations (30000)']


def gen(rng):
    s = scenario.gen(rng, steps=8, allow=['ne', 'ne', 'tide', 'mask', 'veg'], mbc=999., dim=rng.choice([1, 1, 2]),
                     calm=.2, accfac=1., scheme=rng.choice(['euler_backward', 'euler_backward', 'crank_nicolson']), dtmax=900.)
    s['ava'] = True
    s['max_iter'] = 1000
    s['bed']['dune'] = 0.
    s['thslope'] = False
    s['dx'], s['dy'] = scenario.resize(s, rng.choice([.5, 1., 1., 2., 5.]))
    if s['dim'] == 2:
        s['nx'], s['ny'] = rng.randint(7, 11), rng.randint(6, 9)
        s['bc'][2] = 'circular'
    else:
        s['nx'] = rng.randint(9, 24)
    dyn = rnd(rng, 20, 40, 1)
    s['extra'] = {'theta_dyn': dyn, 'theta_stat': round(dyn + rng.choice([0., 1., 3.]), 1), 'max_iter_ava': 3000 if s['ne'] is not None else 30000}
    if s['ne'] is not None:
        s['ne'] = rng.choice([0., .02, .1, .5, 1.])
    s['bed']['slope'] = min(s['bed']['slope'], .05)
    hist = []
    for _ in range(rng.randint(1, 5)):
        hist.append([{'kind': rng.choice(['peak', 'pit', 'cliff', 'ridge', 'ramp', 'noise']), 'seed': rng.randint(0, 10**6),
                      'size': rng.choice([.1, .4, .9, 1.5, 3.])} for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))])
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist, 'margin': rng.choice([0, 2, 3])}


def steepen(z, ops, dx, margin):
    """Disturbs the bed at least `margin` cells from the edges."""
    z = z.copy()
    ny, nx = z.shape
    my = 0 if ny == 1 else min(margin, (ny - 1) // 2)
    for o in ops:
        r = np.random.RandomState(o['seed'])
        i = r.randint(margin, nx - margin)
        j = r.randint(my, ny - my) if ny > 1 else 0
        h = min(o['size'] * dx, 3.)
        k = o['kind']
        lo, hi = margin, nx - margin
        sl = slice(my, ny - my) if ny > 1 else slice(0, 1)
        if k == 'peak':
            z[j, i] += h
        elif k == 'pit':
            z[j, i] -= h
        elif k == 'cliff':
            z[sl, i:hi] += h
        elif k == 'ridge':
            z[sl, i] += h
        elif k == 'ramp':
            n = min(i + r.randint(2, 5), hi)
            z[sl, i:n] += h * np.arange(1, n - i + 1)
        else:
            z[sl, lo:hi] += h * .5 * r.uniform(-1, 1, (z[sl, lo:hi].shape))
    return z


def slopes(z, dx, dy):
    """Steepest downslope gradient of every inner cell (None elsewhere)."""
    ny, nx = z.shape
    g = np.full(z.shape, np.nan)
    gx = np.maximum(0., z[:, 1:-1] - np.minimum(z[:, :-2], z[:, 2:])) / dx
    if ny == 1:
        g[:, 1:-1] = gx
    else:
        gy = np.maximum(0., z[1:-1, :] - np.minimum(z[:-2, :], z[2:, :])) / dy
        g[1:-1, 1:-1] = np.hypot(gx[1:-1, :], gy[:, 1:-1])
    return g


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    m = drive.bmi(cfg)
    dx = s['dx']
    zne = np.array(m.s['zne'], float, copy=True)
    tdyn, tstat = (np.tan(np.radians(s['extra'][k])) for k in ('theta_dyn', 'theta_stat'))
    n_ava = 0
    for ops in case['hist']:
        if ops:
            m.set_var('zb', steepen(np.asarray(m.get_var('zb')), ops, dx, case['margin']))
            tally.fault('beds steepened', len(ops))
        z0 = np.array(m.s['zb'], copy=True)
        t = m.t
        solves = m.get_count('matrixsolve')
        drive.step(m, seed=case['seed'])
        tally.steps += 1
        z1 = np.asarray(m.s['zb'])
        if not np.all(np.isfinite(z1)):
            raise Viol('the bed level is not finite after the step at t=%r' % t, 'finite')
        if not np.any(np.asarray(m.s['uw'])):
            if not np.array_equal(z0, z1):
                raise Viol('the bed moved without wind in the step at t=%r' % t, 'calm')
            continue
        # bed after the exchange with the wind, before avalanching
        zt = z0 - np.asarray(m.s['pickup']).sum(axis=-1) / (2650. * .6)
        dz = z1 - zt
        scale = np.abs(zt).max() + 1.
        eps = 1e-9 * scale
        g0, g1 = slopes(zt, dx, s['dy']), slopes(z1, dx, s['dy'])
        inner = ~np.isnan(g0)
        # nothing happens unless a slope exceeds the static angle of repose
        if np.all(g0[inner] <= tstat * (1 - 1e-9)):
            if not np.abs(dz).max() <= eps:
                raise Viol('the bed avalanches although no slope exceeds the static angle of repose in the step at t=%r' % t, 'untriggered')
            tally.state(drive.digest(m))
            continue
        if np.any(g0[inner] <= tstat * (1 + 1e-9)) and np.abs(dz).max() <= eps and not np.any(g0[inner] > tstat * (1 + 1e-9)):
            continue
        free = np.isnan(zne) if s['ne'] is not None else np.ones(z1.shape, bool)
        cover = np.where(free, np.inf, zt - np.where(free, 0., zne))
        if np.abs(dz).max() <= eps:
            if np.any((g0 > tstat * (1 + 1e-9)) & inner & (cover > 1e-3)):
                raise Viol('a slope steeper than the static angle of repose does not avalanche in the step at t=%r' % t, 'not triggered')
            continue
        n_ava += 1
        # outermost cells never give sediment
        edge = ~inner
        if np.any(np.abs(dz[edge]) > eps):
            raise Viol('avalanching changed cells at the edge of the domain in the step at t=%r' % t, 'edge')
        # sediment is conserved
        tot = dz.sum()
        if tot > 1e-9 * scale * z1.size:
            raise Viol('avalanching created %.4g m of sediment in the step at t=%r' % (tot, t), 'created')
        ring = np.zeros(z1.shape, bool)
        if s['dim'] == 1:
            ring[:, [1, -2]] = True
        else:
            ring[1:-1, [1, -2]] = True
            ring[[1, -2], 1:-1] = True
        if np.all(dz[ring] == 0.):
            tally.kind('avalanches away from the edges')
            if not abs(tot) <= 1e-9 * scale * z1.size:
                raise Viol('avalanching away from the edges lost %.4g m of sediment in the step at t=%r' % (-tot, t), 'lost')
        # only downslope: extremes are never exceeded
        if z1.max() > zt.max() + eps:
            raise Viol('avalanching raised the highest point from %.6g to %.6g m in the step at t=%r' % (zt.max(), z1.max(), t), 'upslope')
        if z1.min() < zt.min() - eps:
            raise Viol('avalanching dug from %.6g to %.6g m in the step at t=%r' % (zt.min(), z1.min(), t), 'upslope')
        # never into the non-erodible layer
        low = ~free & (z1 < np.minimum(zt, np.where(free, np.inf, zne)) - 1e-6)
        if np.any(low):
            raise Viol('avalanching dug %.3g m into the non-erodible layer in the step at t=%r' % (
                (np.minimum(zt, zne) - z1)[low].max(), t), 'non-erodible')
        # relaxed to the dynamic angle of repose
        steep = inner & (g1 > tdyn * (1 + 1e-6))
        if np.any(steep) and np.all(free):
            raise Viol('slopes of %.4g remain although the dynamic angle of repose is %.4g after the step at t=%r' % (g1[steep].max(), tdyn, t), 'relaxed')
        tally.state(drive.digest(m))
    tally.runs += 1
    tally.simtime += m.t
    tally.kind('avalanching steps', n_ava)
    if n_ava:
        tally.key = [skey(s), case['hist']]


execute = guarded(case_fn)


def _extra(case):
    h = case['hist']
    if len(h) > 1:
        yield dict(case, hist=h[1:])
        yield dict(case, hist=h[:-1])
    for i, o in enumerate(h):
        if len(o) > 1:
            yield dict(case, hist=h[:i] + [o[1:]] + h[i + 1:])


shrink = shrinker(_extra)
