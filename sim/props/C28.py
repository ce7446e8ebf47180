"""Coupled models: what another model supplies takes effect as supplied."""
import copy
import os

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (4500, 120000)
RULE = ('one case = one seeded model that gets water levels and/or waves from another model, played by the simulator, at seeded intervals '
        '(every step, now and then, late); the values are arbitrary fields, dry everywhere at times, or those a twin takes from its own series; '
        'after every step the water levels, run-up and wetness are compared with an independent evaluation of the supplied values, or all '
        'states with those of the twin; non-trivial when at least two exchanges took effect; distinct by scenario structure and history')
ASSUMPTIONS = ['wave heights and periods are supplied together', 'the level in dry cells is that of any of the nearest wet cells, counted in cells']


def gen(rng):
    s = scenario.gen(rng, steps=8, mbc=999., calm=.15, accfac=rng.choice([1., 1., 5.]), allow=['stretch', 'ne', 'bedcomp', 'mask', 'graindist2d'],
                     scheme=rng.choice(['euler_backward', 'euler_backward', 'euler_forward', 'crank_nicolson']))
    twin = rng.random() < .4
    ext = rng.choice([['zs'], ['Hs', 'Tp'], ['zs', 'Hs', 'Tp'], ['zs', 'Hs', 'Tp']])
    s['tide'] = scenario.gen_series(rng, s['tstop'], -1., 1.5)
    s['wave'] = scenario.gen_series(rng, s['tstop'], 0, 0, 2, [.1, 3.], [3., 12.])
    s['runup'] = rng.random() < .8
    s['moist'] = 'infiltration' if rng.random() < .7 else None
    s['wetreset'] = rng.random() < .3
    s['mix'] = False
    if twin:
        s['masks'] = None
        s['wetreset'] = False
    elif rng.random() < .5:
        s['masks'] = {'seed': rng.randint(0, 10**6), 'which': [k for k in ('tide', 'wave', 'runup', 'threshold') if rng.random() < .6]}
    x = dict(s.get('extra', {}), external_vars=ext)
    if s['runup']:
        x['beach_slope'] = rng.choice([.1, .02, .3])
    # the series of the model itself are of no account where it is coupled
    s['extra'] = x
    hist = []
    for k in range(rng.randint(3, 8)):
        if k == 0 or rng.random() < (1. if twin else .6):
            hist.append(['feed', rng.choice(['field', 'field', 'even', 'pools', 'dry'] if not twin else ['twin']), rng.randint(0, 10**6)])
        hist.append(['step'])
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist, 'twin': twin, 'own': rng.choice([True, False])}


def values(zb, h):
    """Values another model supplies: water level, wave height and period."""
    r = np.random.RandomState(h[2])
    lo, hi = zb.min(), zb.max()
    w = max(hi - lo, .5)
    if h[1] == 'dry':
        zs = zb.copy()
    elif h[1] == 'even':
        zs = np.maximum(zb, lo + w * r.uniform(.1, 1.2))
    elif h[1] == 'field':
        zs = np.maximum(zb, lo + w * r.uniform(.1, .9) + r.uniform(-.2, .2, zb.shape))
    else:
        zs = zb + np.where(r.uniform(0, 1, zb.shape) < .25, r.uniform(.01, 1., zb.shape), 0.)
    Hs = r.uniform(0., 2.5, zb.shape) * (r.uniform(0, 1, zb.shape) < .8)
    if h[1] == 'even':
        Hs = np.full(zb.shape, r.uniform(0., 2.5))
    Tp = r.uniform(2., 12., zb.shape)
    return np.round(zs, 6), np.round(Hs, 4), np.round(Tp, 3)


def stockdon(H, T, beta):
    """Run-up following Stockdon et al. (2006)."""
    L = 9.81 * T**2 / 2. / np.pi
    with np.errstate(all='ignore'):
        xi = beta / np.sqrt(H / L)
        dis = .043 * np.sqrt(H * L)
        ref = 1.1 * (.35 * beta * np.sqrt(H * L) + np.sqrt(H * L * (.563 * beta**2 + .0004)) / 2.)
    edge = np.abs(xi - .3) < 1e-6
    return np.where(H > 0, np.where(xi < .3, dis, ref), 0.), edge


KEYS = ['zb', 'mass', 'Ct', 'Cu', 'pickup', 'ustar', 'uth', 'moist', 'zs', 'SWL', 'TWL', 'R']


def case_fn(case, d, tally):
    s = case['s']
    ext = s['extra']['external_vars']
    c = copy.deepcopy(s)
    if not case['own']:
        # no series at all
        if 'Hs' in ext:
            c['extra']['wave_file'] = None
        if 'zs' in ext:
            c['extra']['tide_file'] = None
    else:
        for k in ('tide', 'wave'):
            if (k == 'tide' and 'zs' in ext) or (k == 'wave' and 'Hs' in ext):
                c[k] = [[r[0]] + [.5 * q + .3 for q in r[1:]] for r in c[k]]
    m = drive.bmi(scenario.materialise(c, os.path.join(d, 'm')))
    t = None
    if case['twin']:
        o = copy.deepcopy(s)
        del o['extra']['external_vars']
        t = drive.bmi(scenario.materialise(o, os.path.join(d, 't')))
    g = lambda m, k: np.array(dict.__getitem__(m.s, k), copy=True)
    mask = lambda k: np.real(np.asarray(m.s[k + '_mask'])) * np.ones(g(m, 'zb').shape)
    fed = {}
    used = 0
    for h in case['hist']:
        if h[0] == 'feed':
            if t is None:
                v = dict(zip(('zs', 'Hs', 'Tp'), values(g(m, 'zb'), h)))
            else:
                continue
            for k in ext:
                m.set_var(k, v[k].copy())
                fed[k] = v[k].copy()
                tally.fault('exchange: ' + (k if h[1] != 'dry' or k != 'zs' else 'no water at all'))
            continue
        zb, moist, t0 = g(m, 'zb'), g(m, 'moist'), m.t
        if t is not None:
            z0 = g(t, 'zb')
            drive.step(t, seed=case['seed'])
            v = {'zs': np.maximum(g(t, 'SWL'), z0), 'Hs': np.repeat(g(t, 'Hs')[:, :1], z0.shape[1], axis=1),
                 'Tp': np.repeat(g(t, 'Tp')[:, :1], z0.shape[1], axis=1)}
            if 'zs' in ext and not np.any(v['zs'] - zb > 3e-3):
                # nothing tells the coupled model where the water is
                return
            for k in ext:
                m.set_var(k, v[k].copy())
                fed[k] = v[k].copy()
                tally.fault('exchange: ' + k)
        drive.step(m, seed=case['seed'])
        tally.steps += 1
        used += 1
        at = 'in the step at t=%r' % t0
        for k in ('Hs', 'Tp'):
            if k in ext and not np.array_equal(g(m, k), fed[k]):
                raise Viol('the supplied %s of %.6g became %.6g %s' % (k, fed[k].flat[0], g(m, k).flat[0], at), 'kept ' + k)
        if 'zs' in ext:
            b = zb
            w = np.maximum(fed['zs'], b)
            if not np.allclose(g(m, 'zs'), w, rtol=0, atol=1e-9):
                i = np.unravel_index(np.argmax(np.abs(g(m, 'zs') - w)), w.shape)
                raise Viol('the supplied water level of %.6g m over a bed of %.6g m became %.6g m in cell %s %s' % (
                    fed['zs'][i], b[i], g(m, 'zs')[i], tuple(int(q) for q in i), at), 'kept zs')
            fed['zs'] = w
            wet = w - b > 2. * m.p['eps']
            if np.any(np.abs(w - b - 2. * m.p['eps']) < 1e-9):
                return
            S = g(m, 'SWL')
            L = w * mask('tide')
            if wet.any():
                if not np.allclose(S[wet], L[wet], rtol=1e-9, atol=1e-9):
                    raise Viol('the still water level of wet cells is not the supplied one %s' % at, 'SWL')
                J, I = np.nonzero(wet)
                for i in zip(*np.nonzero(~wet)):
                    q = (J - i[0])**2 + (I - i[1])**2
                    n = q == q.min()
                    if np.min(np.abs(L[J[n], I[n]] - S[i])) > 1e-9:
                        raise Viol('the still water level of dry cell %s is not that of the nearest water %s' % (i, at), 'SWL dry')
                tally.kind('partly dry' if not wet.all() else 'wet everywhere')
            else:
                if np.any(S > w + 1e-9):
                    raise Viol('there is water in a model supplied with none %s' % at, 'dry')
                tally.kind('dry everywhere')
        if s['runup'] and 'Hs' in ext:
            R, edge = stockdon(fed['Hs'] * mask('wave'), fed['Tp'] * mask('wave'), m.p['beach_slope'])
            R = R * mask('runup')
            if not np.allclose(g(m, 'R')[~edge], R[~edge], rtol=1e-7, atol=1e-9):
                i = np.unravel_index(np.argmax(np.abs(g(m, 'R') - R)), R.shape)
                raise Viol('run-up is %.6g instead of %.6g m for the supplied waves %s' % (g(m, 'R')[i], R[i], at), 'run-up')
            tally.kind('run-up of supplied waves')
        if s['runup']:
            if not np.allclose(g(m, 'TWL'), g(m, 'SWL') + g(m, 'R'), rtol=0, atol=1e-9):
                raise Viol('the total water level is not the supplied level and run-up %s' % at, 'TWL')
            if s['moist'] == 'infiltration' and not s['wetreset']:
                e = g(m, 'TWL') - zb
                w = e > m.p['eps']
                if not np.any(np.abs(e - m.p['eps']) < 1e-9) and not np.allclose(g(m, 'moist')[w], m.p['porosity'], rtol=1e-9):
                    raise Viol('cells under the water of the coupled model are not saturated %s' % at, 'moist')
        for k in ('SWL', 'TWL', 'zb', 'Ct'):
            if not np.all(np.isfinite(g(m, k))):
                raise Viol('%s is not finite %s' % (k, at), 'finite')
        if t is not None:
            for k in KEYS:
                a, b = g(m, k), g(t, k)
                if k == 'zs' and 'zs' in ext:
                    continue
                if not np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True):
                    i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
                    raise Viol('%s is %.8g in the coupled model and %.8g in the model with the same water levels and waves of its own %s' % (
                        k, a[i], b[i], at), 'twin ' + k)
            tally.kind('compared with twin')
        tally.state(drive.digest(m))
    tally.runs += 1 + (t is not None)
    tally.simtime += m.t
    if used >= 2:
        tally.key = [skey(s), case['hist'], ext, case['own']]


execute = guarded(case_fn)


def _extra(case):
    hh = case['hist']
    for i in range(1, len(hh)):
        n = hh[:i] + hh[i + 1:]
        if any(h[0] == 'step' for h in n):
            yield dict(case, hist=n)


shrink = shrinker(_extra)
