"""Fences shelter what lies in their lee."""
import copy
import os

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (2000, 50000)
RULE = ('one case = one seeded model with fences on its profile or area whose wind blows, veers and calms while the simulator buries and '
        'bares the fences between steps; in every step the heights of the fences are compared with an independent account of their tops, and '
        'the shear with the formula of the configured reduction over a twin without fences (profiles) or with where the wakes can be (areas); '
        'non-trivial when fences stood in at least two windy steps; distinct by scenario structure and history')
ASSUMPTIONS = ['the twin without fences carries the state of the model before each step', 'areas are compared to the resolution of the grids '
               'the reductions are computed on']


def gen(rng):
    dim = rng.choice([1, 1, 2])
    s = scenario.gen(rng, dim=dim, steps=8, mbc=999., calm=.15, dtmax=300., accfac=rng.choice([1., 1., 5.]),
                     allow=['bedcomp', 'graindist2d', 'tide', 'ne', 'mask', 'shear', 'stretch'] if dim == 1 else ['bedcomp', 'tide', 'mask'],
                     scheme=rng.choice(['euler_backward', 'euler_backward', 'euler_forward', 'crank_nicolson']))
    if dim == 1:
        s['nx'] = rng.randint(10, 40)
        s['alfa'] = rng.choice([0., 0., rnd(rng, -60, 60, 1), rnd(rng, -180, 180, 1)])
    else:
        s['nx'], s['ny'] = rng.randint(8, 14), rng.randint(6, 10)
    s['dx'] = rng.choice([.5, 1., 2.] if dim == 1 else [1., 2., 4.])
    s['dy'] = s['dx'] * (1. if dim == 1 else rng.choice([1., 1., .8]))
    s['bed'] = dict(s['bed'], z0=rng.choice([2., 0., -1.5, -4.]), noise=rng.choice([0., .03]), dune=0.)
    s['ne'] = s['ne'] if dim == 1 else None
    cells = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        h = rng.choice([1., 1.2, .8, rnd(rng, .05, 1.6, 2), rnd(rng, .05, .15, 3)])
        if dim == 1:
            cells.append([0, 0, rng.randint(0, s['nx']), h])
        else:
            i = rng.randint(1, s['nx'] - 1)
            j0, j1 = sorted([rng.randint(0, s['ny']), rng.randint(0, s['ny'])])
            if rng.random() < .5:
                j0, j1 = 0, s['ny']
            cells.append([j0, j1, i, h])
    s['fence'] = cells
    s['extra'] = dict(s.get('extra', {}))
    if rng.random() < .5:
        s['extra'].update(okin_c1_fence=rng.choice([.48, .2, 1.]), okin_initialred_fence=rng.choice([.32, 0., .6, .9]))
    hist = []
    for _ in range(rng.randint(2, 5)):
        hist.append(['step'])
        if rng.random() < .7:
            hist.append(['move', rng.choice(['fill', 'fill', 'fence', 'scour', 'all', 'down']), rnd(rng, .05, 1.2, 2), rng.randint(0, 10**6)])
    hist += [['step']]
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist}


def move(zb, f, h):
    """The bed after the simulator moved it."""
    r = np.random.RandomState(h[3])
    z = zb.copy()
    if h[1] == 'fence':
        z[f > 0] += h[2]
    elif h[1] == 'scour':
        z[f > 0] -= h[2]
    elif h[1] == 'fill':
        z += h[2] * r.uniform(0, 1, z.shape)
    elif h[1] == 'all':
        z += h[2]
    else:
        z -= h[2]
    return np.round(z, 6)


def okin(x, hf, down, c1, i0):
    red = np.zeros(len(x))
    for k in np.flatnonzero(hf > 0):
        d = (x - x[k]) * (1. if down else -1.)
        w = (d >= 0) & (d / hf[k] < 20.)
        r = np.where(w, 1. - (i0 + (1. - i0) * (1. - np.exp(-d * c1 / hf[k]))), 0.)
        red += np.where(r < 1e-5, 0., r)
    return 1. - np.minimum(red, 1.)


def case_fn(case, d, tally):
    s = case['s']
    x = s['extra']
    two = s['dim'] == 2
    m = drive.bmi(scenario.materialise(s, os.path.join(d, 'm')))
    t = drive.bmi(scenario.materialise(dict(copy.deepcopy(s), fence=None), os.path.join(d, 't')))
    g = lambda m, k: np.array(dict.__getitem__(m.s, k), copy=True)
    c1, i0 = x.get('okin_c1_fence', .48), x.get('okin_initialred_fence', .32)
    f0 = np.zeros(g(m, 'zb').shape)
    for j0, j1, i, h in s['fence']:
        f0[j0:j1 + 1, i] = h
    top, init = g(m, 'zb') + f0, f0.copy()
    stood = 0
    for h in case['hist']:
        if h[0] == 'move':
            m.set_var('zb', move(g(m, 'zb'), f0, h))
            tally.fault('bed moved: ' + h[1])
            continue
        for k in ('zb', 'mass', 'Ct'):
            dict.__getitem__(t.s, k)[:] = g(m, k)
        t.t = m.t
        zb, t0 = g(m, 'zb'), m.t
        drive.step(m, seed=case['seed'])
        drive.step(t, seed=case['seed'])
        tally.steps += 1
        at = 'in the step at t=%r' % t0
        # heights
        e = top - zb
        e[(init < .1) | (e < .1)] = 0.
        out = e > 1.5
        if np.any(out & (init >= .1)):
            tally.kind('fence eroded out')
        e[out] = 0.
        init[out] = 0.
        hf = g(m, 'fence_height')
        edge = (np.abs(top - zb - .1) < 1e-6) | (np.abs(top - zb - 1.5) < 1e-6)
        if np.any(edge & (init > 0)):
            return
        if not np.allclose(hf, e, rtol=0, atol=1e-9):
            k = np.unravel_index(np.argmax(np.abs(hf - e)), e.shape)
            raise Viol('the fence with its top at %.4g m over a bed of %.4g m has a height of %.4g m instead of %.4g m %s' % (
                top[k], zb[k], hf[k], e[k], at), 'height')
        if np.any((f0 > .1) & (e == 0)):
            tally.kind('fence buried or gone')
        a, b = g(m, 'ustar'), g(t, 'ustar')
        if not np.allclose(np.hypot(g(m, 'ustars'), g(m, 'ustarn'))[b > 0], a[b > 0], rtol=1e-9, atol=1e-12) or \
                not np.allclose(np.hypot(g(m, 'taus'), g(m, 'taun')), g(m, 'tau'), rtol=1e-9, atol=1e-12) or \
                not np.allclose((1.225 * a**2)[b > 0], g(m, 'tau')[b > 0], rtol=1e-9, atol=1e-12):
            raise Viol('shear velocity and shear stress do not belong together %s' % at, 'consistent')
        if not np.any(b > 0):
            if np.any(g(m, 'tau') > 0):
                raise Viol('fences bring shear into a calm %s' % at, 'calm')
            continue
        # wind keeps its direction
        bs, bn = g(t, 'ustars'), g(t, 'ustarn')
        as_, an = g(m, 'ustars'), g(m, 'ustarn')
        cr = as_ * bn - an * bs
        if np.any(np.abs(cr) > 1e-7 * (1. + b**2)) or np.any(as_ * bs + an * bn < -1e-12):
            raise Viol('fences turn the wind over them from %.4g, %.4g to %.4g, %.4g %s' % (
                bs.flat[0], bn.flat[0], as_.flat[0], an.flat[0], at), 'turned')
        if np.any(a > np.maximum(b, .01) * (1. + 1e-9)):
            raise Viol('fences increase shear %s' % at, 'increase')
        uws, uwn = float(g(t, 'uws').flat[0]), float(g(t, 'uwn').flat[0])
        if np.any(e > 0):
            stood += 1
            tally.kind('fences in the wind')
        if not two:
            if abs(uws) < 1e-6 * abs(uwn):
                continue
            mult = okin(g(m, 'x')[0], e[0], uws > 0, c1, i0)
            w = np.maximum(b[0] * mult, .01)
            if not np.allclose(a[0], w, rtol=1e-7, atol=1e-9):
                k = np.argmax(np.abs(a[0] - w))
                raise Viol('shear velocity behind fences is %.6g instead of %.6g m/s in cell %d %s' % (a[0][k], w[k], k, at), 'okin')
            tally.kind('profiles compared')
        else:
            # from world coordinates to those of the grid
            w = (uws + 1j * uwn) * np.exp(-1j * np.radians(s['rot']))
            area(m, s, e, a / b, w.real, w.imag, i0, c1, at, tally)
        tally.state(drive.digest(m))
    tally.runs += 2
    tally.simtime += m.t
    if stood >= 2:
        tally.key = [skey(s), case['hist'], s['fence']]


def area(m, s, e, r, uws, uwn, i0, c1, at, tally):
    if not np.any(e > 0):
        if not np.allclose(r, 1., rtol=1e-9):
            raise Viol('without standing fences the shear velocity changes by a factor of %.6g to %.6g %s' % (r.min(), r.max(), at), 'no fence')
        tally.kind('areas without standing fences')
        return
    u = np.hypot(uws, uwn)
    cx, cy = uws / u, uwn / u
    # grid lines run along s and n
    x, y = np.meshgrid(np.arange(s['nx'] + 1) * s['dx'], np.arange(s['ny'] + 1) * s['dy'])
    mg = np.hypot(s['dx'], s['dy']) + 2.5 * max(m.p['dx'] / 2., .25)
    wake = np.zeros(e.shape, bool)
    for j, i in zip(*np.nonzero(e > 0)):
        dx, dy = x - x[j, i], y - y[j, i]
        al, ac = dx * cx + dy * cy, dy * cx - dx * cy
        wake |= (al > -mg) & (al < 20. * e[j, i] + mg) & (np.abs(ac) < mg)
    if np.any(np.abs(r[~wake] - 1.) > 1e-9):
        raise Viol('fences change the shear velocity out of their wakes, by a factor of %.5g %s' % (r[~wake].min(), at), 'out of wake')
    tally.kind('areas with wakes')
    for j, i in zip(*np.nonzero(e > 0)):
        if 0 < j < e.shape[0] - 1 and 0 < i < e.shape[1] - 1 and r[j, i] > i0 + .1:
            raise Viol('shear velocity in a fence of %.3g m is %.4g of what it is without, instead of at most %.4g %s' % (
                e[j, i], r[j, i], i0, at), 'in fence')
    # whole lines of fences across the wind
    full = [i for i in range(1, e.shape[1] - 1) if np.all(e[:, i] > .3)]
    if full and abs(cx) > .95:
        j = e.shape[0] // 2
        i = full[0]
        for k in range(e.shape[1]):
            dd = (x[j, k] - x[j, i]) * np.sign(cx)
            if 0 <= dd < 5. and 0 < k < e.shape[1] - 1:
                w = i0 + (1. - i0) * (1. - np.exp(-(dd + mg) / abs(cx) * c1 / e[:, i].min()))
                if r[j, k] > w + .05:
                    raise Viol('shear velocity %.3g m behind a line of fences is %.4g of what it is without, instead of at most %.4g %s' % (
                        dd, r[j, k], w, at), 'behind line')
        tally.kind('lines of fences')


execute = guarded(case_fn)


def _extra(case):
    hh = case['hist']
    for i in range(len(hh)):
        n = hh[:i] + hh[i + 1:]
        if any(h[0] == 'step' for h in n):
            yield dict(case, hist=n)
    for i in range(len(case['s']['fence'])):
        yield dict(case, s=dict(case['s'], fence=case['s']['fence'][:i] + case['s']['fence'][i + 1:]))


shrink = shrinker(_extra)
