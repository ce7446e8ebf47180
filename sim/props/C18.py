"""Vegetation: where plants appear, how they grow and die, what they shelter."""
import copy
import os

import numpy as np

from .common import *
from .C30 import okin

LEVEL = 'exploration'
RUNS = (1600, 60000)
RULE = ('one case = one seeded vegetated scenario stepped through seeded wind, calm and tide, optionally with burial, erosion or flooding '
        'of cells injected by the simulator between steps; every step is compared with an independent model of growth and dying, with the '
        'set of cells that may be colonised, and with the shear of the same model without plants; non-trivial when plants grew and plants '
        'died or appeared; distinct by scenario structure and history')
ASSUMPTIONS = ['a year has 365.25 days', 'sheltering is judged in steps with wind and without topographic steering, whose results depend on '
               'the bed of the step', 'frequencies of germination and spreading are accepted within six standard deviations']

YEAR = 365.25 * 24. * 3600.


def gen(rng):
    s = scenario.gen(rng, steps=10, allow=['stretch', 'tide', 'ne', 'ne', 'avalanche', 'wetreset', 'runup', 'moist', 'mask'], mbc=999., calm=rng.choice([.2, .6, .9]),
                     scheme=rng.choice(['euler_backward', 'euler_backward', 'euler_forward']),
                     accfac=rng.choice([1., 10., 100., 1000.]), dtmax=3600.)
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 8), min(s['ny'], 4)
    if s['accfac'] >= 100.:
        # a step is a season, little sand moves
        s['wind'] = [[r[0], 0. if rng.random() < .5 else min(r[1], 7.5), r[2]] for r in s['wind']]
        s['ava'] = False
    s['wind'][0][1] = rng.choice([s['wind'][0][1], 6.5])
    s['veg'] = {'seed': rng.randint(0, 10**6), 'type': rng.choice(['orig', 'orig', 'duranmoore14']),
                'germ': rng.choice([0., 0., .5, .99, 1.]), 'lat': rng.choice([0., 0., .5, .99, 1.]),
                'vver': rng.choice([0., .5, 1., 10.]), 'zmin': rng.choice([-5., -5., 0., .3, .6]),
                'shear': rng.choice(['raupach', 'okin']), 'cover': rng.choice([0., .1, .4, 1.]),
                'uniform': rng.choice([None, None, None, 0., .3, 1.])}
    s['extra'] = {'hveg_max': rng.choice([1., .5, 2.]), 'veg_gamma': rng.choice([0., .2, 1.]), 'dzb_opt': rng.choice([0., .2]),
                  'gamma_vegshear': rng.choice([16., 4., 0.]), 'veg_sigma': rng.choice([.8, .8, 2., .3]),
                  'okin_c1_veg': rng.choice([.48, .48, .2, 1.]), 'okin_initialred_veg': rng.choice([.32, .32, 0., .6]),
                  't_veg': rng.choice([3, 30, 365]), 'rhoveg_max': rng.choice([.5, .9]), 'v_gam': rng.choice([1, .2])}
    hist = []
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < .65:
            hist.append(['step'])
        elif r < .8:
            hist.append(['bed', rng.randint(0, 10**6), rng.choice([.01, .3, 1.])])
        elif r < .9:
            hist.append(['dt', round(s['dt'] * rng.uniform(.2, 1.), 3)])
        else:
            hist.append(['water'] if s['tide'] else ['step'])
    if s['tide'] and rng.random() < .4:
        # a flood and the ebb after it
        s['tide'] = [[0., -9.], [round(.3 * s['tstop'], 1), rng.choice([-9., 2., 9.])], [round(.6 * s['tstop'], 1), -9.]]
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist + [['step']]}


def higher_neighbours(r):
    """Number of neighbours of each cell with more plants."""
    out = np.zeros(r.shape)
    out[:, 1:] += r[:, :-1] > r[:, 1:]
    out[:, :-1] += r[:, 1:] > r[:, :-1]
    out[1:, :] += r[:-1, :] > r[1:, :]
    out[:-1, :] += r[1:, :] > r[:-1, :]
    return out


def grown(s, x, r0, h0, dzb, T):
    """Height and cover of a plant after T years (before it may drown)."""
    v = s['veg']
    hm = x['hveg_max']
    if v['type'] == 'orig':
        g = (v['vver'] * (1. - h0 / hm) - np.abs(dzb - x['dzb_opt']) * x['veg_gamma']) if v['vver'] > 0 else 0.
        h = np.clip(h0 + g * T, 0., hm)
        return h, (h / hm)**2
    r = np.minimum(r0, x['rhoveg_max'])
    if v['vver'] > 0:
        g = (x['rhoveg_max'] - r) / (x['t_veg'] / 365.) - x['v_gam'] / hm * np.abs(dzb - x['dzb_opt']) * x['veg_gamma']
        r = np.where(r > 0, np.maximum(r + g * T, 0.), 0.)
    return hm * np.sqrt(r), r


def case_fn(case, d, tally):
    s = case['s']
    x = s['extra']
    v = s['veg']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    bare = copy.deepcopy(s)
    bare['veg'] = None
    for k in ('gamma_vegshear', 'veg_sigma', 'hveg_max', 'veg_gamma', 'dzb_opt', 't_veg', 'rhoveg_max', 'v_gam'):
        pass
    m = drive.bmi(cfg)
    twin = drive.bmi(scenario.materialise(bare, os.path.join(d, 'm2')))
    rs = np.random.RandomState(case['seed'])
    trials = hits = var = 0.
    grew = died = came = 0
    g = lambda k: np.array(dict.__getitem__(m.s, k), copy=True)
    eps = 1e-9

    def bounds(at):
        r, h, ge, la = g('rhoveg'), g('hveg'), g('germinate'), g('lateral')
        for k, a, hi in (('rhoveg', r, 1.), ('hveg', h, x['hveg_max'] * (1. if v['type'] == 'orig' else 1e9)), ('germinate', ge, 1.), ('lateral', la, 1.)):
            if not (np.all(a >= 0.) and np.all(a <= hi * (1 + eps))) and not (k == 'rhoveg' and v['type'] != 'orig' and np.all(a >= 0.)):
                raise Viol('%s ranges from %r to %r %s' % (k, a.min(), a.max(), at), 'bounds ' + k)
        if not np.allclose(h, x['hveg_max'] * np.sqrt(r), rtol=1e-7, atol=1e-9):
            raise Viol('height and cover of the plants do not belong together %s' % at, 'consistent')
    bounds('initially')
    for h in case['hist']:
        if h[0] == 'bed':
            r = np.random.RandomState(h[1])
            dz = h[2] * r.uniform(-1, 1, g('zb').shape) * (r.uniform(0, 1, g('zb').shape) < .5)
            m.set_var('zb', g('zb') + dz)
            twin.set_var('zb', g('zb'))
            tally.fault('cells buried or eroded')
            continue
        if h[0] == 'water':
            z = g('zb')
            m.set_var('SWL', np.full(z.shape, np.quantile(z, rs.uniform(0, 1))))
            tally.fault('water level set')
            continue
        r0, h0, ge0, la0, zb0 = (g(k) for k in ('rhoveg', 'hveg', 'germinate', 'lateral', 'zb'))
        t0 = m.t
        drive.step(m, h[1] if h[0] == 'dt' else -1, seed=case['seed'])
        drive.step(twin, h[1] if h[0] == 'dt' else -1, seed=case['seed'])
        tally.steps += 1
        at = 'after the step at t=%r' % t0
        bounds(at)
        r1, h1, zb, zs, ge1 = (g(k) for k in ('rhoveg', 'hveg', 'zb', 'zs', 'germinate'))
        T = (m.t - t0) / YEAR
        dz = zb - zb0
        rate = dz / T
        if not np.allclose(g('dzbveg'), rate, rtol=1e-6, atol=1e-9 * (1. + np.abs(zb0).max()) / T):
            raise Viol('plants are buried at up to %.3g m/yr, the bed changes by up to %.3g m/yr in the step at t=%r' % (
                np.abs(g('dzbveg')).max(), np.abs(rate).max(), t0), 'burial')
        rate = g('dzbveg')
        wet = (zb + .01 < zs) if s['tide'] else np.zeros(zb.shape, bool)
        low = zb < v['zmin']
        gone = wet | low
        if np.any(r1[gone]) or np.any(h1[gone]):
            raise Viol('plants live %s %s' % ('under water' if np.any(r1[wet]) else 'below the lowest elevation', at), 'drowned')
        n = 1. / T
        pg = 1. - (1. - v['germ'])**(1. / n)
        near = higher_neighbours(r0) > 0
        may = (r0 > 0) | ((rate >= 0) & (pg > 0)) | (near & (v['lat'] > 0))
        new = (r0 == 0) & (r1 > 0)
        if np.any(new & ~may):
            raise Viol('a plant appeared where nothing can germinate or spread to %s' % at, 'from nothing')
        he, re_ = grown(s, x, r0, h0, rate, T)
        he[gone] = 0.
        re_[gone] = 0.
        lived = (r0 > 0) | new
        tol = 1e-7 * (x['hveg_max'] + np.abs(rate) * T)
        for k, a, e in (('height', h1, he), ('cover', r1, re_)):
            bad = lived & (np.abs(a - e) > (tol if k == 'height' else 1e-6))
            if k == 'height' and v['type'] != 'orig':
                bad = lived & (np.abs(a**2 - e**2) > 1e-6)
            if np.any(bad):
                i = tuple(np.argwhere(bad)[0])
                raise Viol('plant %s is %.6g instead of %.6g %s' % (k, a[i], e[i], at), 'growth ' + k)
        # what certainly germinates or spreads has grown
        sure = (r0 == 0) & (((rate >= 0) & (v['germ'] == 1.)) | (near & (v['lat'] == 1.))) & (v['vver'] > 0) & (he > 0)
        if v['type'] == 'orig' and np.any(sure & (r1 == 0)):
            raise Viol('no plant appeared where germination or spreading is certain %s' % at, 'certain')
        # frequency
        if v['type'] == 'orig' and v['vver'] > 0 and not (v['germ'] == 1. or v['lat'] == 1.):
            # one number is drawn for both ways to get there
            pl = (1. - (1. - (1. - (1. - v['lat'])**(1. / n)))**(1. / s['dx'])) * higher_neighbours(r0)
            pr = np.minimum(np.maximum(pl, pg * (rate >= 0)), 1.)
            ok = (r0 == 0) & (he > 0) & (pr > 0)
            trials += pr[ok].sum()
            var += (pr * (1 - pr))[ok].sum()
            hits += (ok & (r1 > 0)).sum()
            if np.any(ok & (pl > 0)):
                tally.kind('spreading counted')
        grew += int(np.any((r1 > r0) & (r0 > 0)))
        died += int(np.any((r0 > 0) & (r1 == 0)))
        came += int(np.any(new))
        # shelter
        uw = np.asarray(m.s['uw'])
        if np.any(uw) and abs(twin.t - m.t) <= 1e-9 * max(1., m.t):
            a, b = g('ustar'), np.array(twin.s['ustar'], copy=True)
            if not np.all(a <= np.maximum(b, .01) * (1 + eps)):
                raise Viol('plants speed up the shear velocity from %.5g to %.5g %s' % (b.flat[np.argmax(a - b)], a.flat[np.argmax(a - b)], at), 'shelter')
            if not np.all(a > 0):
                raise Viol('plants stop the shear velocity altogether %s' % at, 'shelter')
            cr = g('ustars') * np.asarray(twin.s['ustarn']) - g('ustarn') * np.asarray(twin.s['ustars'])
            if not np.all(np.abs(cr) <= 1e-9 * (1. + b**2)):
                raise Viol('plants turn the shear velocity %s' % at, 'shelter direction')
            if not np.any(r0):
                if not np.allclose(a, np.maximum(b, .01) if v['shear'] == 'okin' and s['dim'] == 1 else b, rtol=1e-9):
                    raise Viol('shear velocity is reduced without plants %s' % at, 'shelter nothing')
            if v['shear'] == 'raupach' or s['dim'] == 2:
                if np.ptp(r0) == 0.:
                    f = 1. / np.sqrt(1. + x['gamma_vegshear'] * r0)
                    if not np.allclose(a, b * f, rtol=1e-7):
                        raise Viol('even vegetation of cover %g reduces the shear velocity by %.5g instead of %.5g %s' % (
                            r0.flat[0], (a / b).flat[0], f.flat[0], at), 'shelter raupach')
                    tally.kind('even vegetation')
                else:
                    f = 1. / np.sqrt(1. + x['gamma_vegshear'] * r0)
                    w = b > 1e-9
                    q = a[w] / b[w]
                    if np.any(q < f.min() * (1 - 1e-7)) or np.any(q > f.max() * (1 + 1e-7)):
                        raise Viol('vegetation that reduces the shear velocity by %.5g to %.5g reduces it by %.5g to %.5g %s' % (
                            f.min(), f.max(), q.min(), q.max(), at), 'shelter range')
                    if np.all(w) and abs(q.mean() - f.mean()) > 1e-7:
                        raise Viol('smoothing changes the average reduction by vegetation from %.6g to %.6g %s' % (f.mean(), q.mean(), at), 'shelter average')
                    tally.kind('uneven vegetation')
            elif np.any(h0):
                # the plants shelter cells downwind only
                u, xs = np.asarray(m.s['ustars'])[0], np.asarray(m.s['x'])[0]
                p = np.where(h0[0] > 0)[0]
                up = np.arange(len(xs)) < p.min() if u[np.argmax(np.abs(u))] > 0 else np.arange(len(xs)) > p.max()
                if abs(u[np.argmax(np.abs(u))]) > 1e-6 and not np.allclose(a[0][up], np.maximum(b[0][up], .01), rtol=1e-9):
                    raise Viol('plants shelter cells upwind of them %s' % at, 'shelter upwind')
                if abs(u[np.argmax(np.abs(u))]) > 1e-6:
                    w = np.maximum(b[0] * okin(xs, h0[0], u[np.argmax(np.abs(u))] > 0, x['okin_c1_veg'], x['okin_initialred_veg']), .01)
                    if not np.allclose(a[0], w, rtol=1e-7, atol=1e-9):
                        k = np.argmax(np.abs(a[0] - w))
                        raise Viol('shear velocity behind plants is %.6g instead of %.6g m/s in cell %d %s' % (a[0][k], w[k], k, at), 'shelter okin')
                tally.kind('okin')
            tally.kind('shear compared')
        tally.kind('steps judged')
        tally.state(drive.digest(m))
    if not abs(hits - trials) <= 6 * np.sqrt(var) + 2:
        raise Viol('%d plants germinated or spread to a cell, %.1f expected' % (hits, trials), 'frequency')
    tally.kind('plants grew', grew)
    tally.kind('plants died', died)
    tally.kind('plants appeared', came)
    tally.runs += 2
    tally.simtime += m.t
    if grew and (died or came):
        tally.key = [skey(s), case['hist']]


execute = guarded(case_fn)


def _extra(case):
    hh = case['hist']
    for i in range(len(hh)):
        if len(hh) > 1:
            yield dict(case, hist=hh[:i] + hh[i + 1:])


shrink = shrinker(_extra)
