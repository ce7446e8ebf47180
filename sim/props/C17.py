"""Water on the beach: levels, moisture, groundwater and salt stay physical."""
import math
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (1400, 50000)
RULE = ('one case = one seeded scenario with tides, waves, run-up and a moisture process, with or without groundwater, under surges, '
        'storms and fast-forwards; after every step all water quantities are judged, and in half of the two-dimensional cases every cross-shore '
        'transect is run as a one-dimensional twin in lockstep; non-trivial when in one step some cells were wetted and others dried; '
        'distinct by scenario structure and history')
ASSUMPTIONS = ['groundwater is judged with a shoreline inside the domain and time steps that are stable for its explicit scheme',
               'twins are compared under winds too weak to move sediment, without alongshore rotation']


def gen(rng):
    s = scenario.gen(rng, steps=8, mbc=999., dim=rng.choice([1, 2]), calm=.2, scheme='euler_backward', dt=rng.choice([5., 60., 300., 900., 3600.]),
                     allow=['tide', 'wave', 'runup', 'moist', 'gw', 'mix', 'ne', 'mask', 'graindist2d', 'wetreset'])
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 10), min(s['ny'], 4)
    gw = rng.random() < .6
    s['moist'] = 'surf_moisture' if gw else 'infiltration'
    s['gw'] = gw
    s['runup'] = True
    e = {}
    e['Tdry'] = rng.choice([300., 1800., 5400., 40000.])
    e['beach_slope'] = rng.choice([.02, .1, .2])
    s['thm'] = rng.random() < .5
    s['solver'] = rng.choice(['trunk', 'trunk', 'pieter'])
    s['bc'] = ['constant', 'constant', 'circular']
    if gw:
        s['dx'], s['dy'] = scenario.resize(s, rng.choice([2., 5.]))
        s['dt'] = min(max(s['dt'], 60.), 300. if s['dx'] == 2. else 900.)
        s['nx'] = rng.randint(12, 20)
        s['tstop'] = round(s['dt'] * s['steps'] * s['accfac'], 3)
        s['wind'] = scenario.gen_wind(rng, s['tstop'], calm=.2)
        s['bed'] = dict(s['bed'], z0=-2., slope=round(rng.uniform(5.5, 8.) / (s['nx'] * s['dx']), 4), noise=rng.choice([0., .01, .1]), dune=0.)
        s['tide'] = scenario.gen_series(rng, s['tstop'], -.6, .6)
        s['wave'] = scenario.gen_series(rng, s['tstop'], 0, 0, 2, [.1, 3.], [1., 8.])
        s['scan'] = rng.random() < .5
        s['meteo'] = scenario.gen_series(rng, s['tstop'], 0, 0, 5, [2., 0., 0., 100., 40.], [25., 20., rng.choice([0., 3., 60.]), 103., 95.])
        if s['masks'] and 'tide' in s['masks']['which']:
            s['masks'] = None
        e['process_salt'] = rng.random() < .3
        e['process_seepage_face'] = rng.random() < .3
        e['boundary_gw'] = rng.choice(['no_flow', 'no_flow', 'static'])
        e['in_gw'] = rng.choice([0., -.5, .5])
        e['K_gw'] = rng.choice([.00078, .0003])
    else:
        s['tide'] = scenario.gen_series(rng, s['tstop'], -1., 1.5)
        s['wave'] = scenario.gen_series(rng, s['tstop'], 0, 0, 2, [0., 3.], [3., 12.])
    s['extra'] = e
    twin = s['dim'] == 2 and rng.random() < .7
    hist = []
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < .8 or gw:
            hist.append(-1)
        elif r < .9:
            hist.append(round(s['dt'] * rng.choice([.3, 2.]), 3))
        else:
            hist.append(-round(rng.uniform(1.5, 3 * s['dt'] + 2), 2))
    if twin:
        s['rot'] = 0.
        s['solver'] = 'trunk'
        s['mix'] = s['wetreset'] = False
        if s['wind']:
            s['wind'] = [[r[0], round(r[1] / 20., 2), r[2]] for r in s['wind']]
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist, 'twin': twin, 'rain': rng.random() < .3}


WATER = ['zs', 'SWL', 'Hs', 'Tp', 'TWL', 'DSWL', 'R', 'eta', 'sigma_s', 'moist', 'gw', 'moist_swr', 'salt', 'Hsmix']


def transects(s, cfg, d):
    """One-dimensional models of the cross-shore transects."""
    out = []
    src = os.path.dirname(cfg)
    for j in range(s['ny'] + 1):
        n = dict(s, dim=1, ny=0)
        # only the files of a one-dimensional model differ
        c = scenario.materialise(dict(n, bed=s['bed']), os.path.join(d, 'row%d' % j))
        for f in os.listdir(src):
            a = os.path.join(src, f)
            if f in ('aeolis.txt', 'y.grd', 'x.grd') or not os.path.isfile(a):
                continue
            if f.endswith('.grd') or f.endswith('_mask.txt'):
                np.savetxt(os.path.join(d, 'row%d' % j, f), np.loadtxt(a)[j], fmt='%.8f')
        out.append(drive.bmi(c))
    return out


def case_fn(case, d, tally):
    s = case['s']
    e = s['extra']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    m = drive.bmi(cfg)
    rows = transects(s, cfg, d) if case['twin'] else []
    both = 0
    lo = min(e.get('in_gw', 0.), 1. if e.get('boundary_gw') == 'static' else 99.)
    hi = max(e.get('in_gw', 0.), 1. if e.get('boundary_gw') == 'static' else -99.)
    for h in case['hist']:
        b = drive.Snap(m, only=('zb', 'moist', 'gw', 'salt'))
        t = m.t
        drive.step(m, h, seed=case['seed'])
        for r in rows:
            drive.step(r, h, seed=case['seed'])
        tally.steps += 1
        tally.state(drive.digest(m))
        at = 'in the step at t=%r' % t
        g = {k: np.asarray(m.s[k]) for k in WATER if k in m.s}
        zb = b.s['zb']
        if h < -1:
            if not (np.array_equal(g['moist'], b.s['moist']) and np.array_equal(g['gw'], b.s['gw'])):
                raise Viol('fast-forwarding changes moisture or groundwater %s' % at, 'fast-forward')
            continue
        for k, v in g.items():
            if v.dtype.kind == 'f' and not np.all(np.isfinite(v)):
                raise Viol('%s is not finite %s' % (k, at), 'finite ' + k)
        dz = np.asarray(m.s['pickup']).sum(axis=-1) / (2650. * .6)
        # the water surface is the bed where it is dry
        surf = np.maximum(g['SWL'], zb)
        if not np.all(np.abs(g['zs'] - surf) <= np.abs(dz) + 1e-9):
            raise Viol('the water surface is neither the water level nor the bed %s' % at, 'water surface')
        wet = g['TWL'] - zb
        if s['moist'] == 'infiltration':
            w = wet > .001
            ref = np.where(w, .4, b.s['moist'] * .5 ** (m.dt / e['Tdry']))
            ok = np.abs(g['moist'] - ref) <= 1e-9 * (1. + ref)
            ok |= np.abs(wet - .001) < 1e-9
            if not np.all(ok):
                k = np.unravel_index((~ok).argmax(), ok.shape)
                raise Viol('the soil moisture of a %s cell is %.6g instead of %.6g %s' % ('wetted' if w[k] else 'drying', g['moist'][k], ref[k], at), 'infiltration')
        else:
            w = wet > 0.
            if not (g['moist'].min() >= 0. and g['moist'].max() <= .5 + 1e-12):
                raise Viol('the soil moisture is %.4g to %.4g %s' % (g['moist'].min(), g['moist'].max(), at), 'moisture range')
            if not np.all(g['moist'][wet > 1e-9] >= .5 - 1e-9):
                raise Viol('a wetted cell is not saturated %s' % at, 'moisture of wet cells')
        both += bool(np.any(w) and not np.all(w))
        if s['gw']:
            lo = min(lo, g['DSWL'].min(), zb.min())
            hi = max(hi, g['DSWL'].max(), g['TWL'].max())
            top = np.maximum(zb, g['DSWL'])
            if not np.all(g['gw'] <= top + 1e-9):
                raise Viol('the groundwater rises %.4g m above bed and water level %s' % ((g['gw'] - top).max(), at), 'groundwater above bed')
            if not g['gw'].min() >= lo - 1e-2:
                raise Viol('the groundwater falls to %.5g m, below all water levels so far (%.5g) %s' % (g['gw'].min(), lo, at), 'groundwater low')
            flooded = zb < g['DSWL'] - 1e-9
            if not np.allclose(g['gw'][flooded], g['DSWL'][flooded], rtol=0, atol=1e-9):
                raise Viol('the groundwater below the sea is not at water level %s' % at, 'groundwater flooded')
            if not e['process_salt'] and np.any(g['salt'] != b.s['salt']):
                raise Viol('the salt content changes %s' % at, 'salt')
        if e.get('process_salt'):
            x = g['salt'][:, :, 0]
            if not (x.min() >= 0. and x.max() <= 1.):
                raise Viol('the salt content is %.4g to %.4g %s' % (x.min(), x.max(), at), 'salt range')
        for j, r in enumerate(rows):
            if not np.array_equal(np.asarray(r.s['zb'])[0], np.asarray(m.s['zb'])[j]):
                raise Viol('sediment moves below the threshold %s' % at, 'twin bed')
            for k in g:
                x, y = g[k][j], np.asarray(r.s[k])[0]
                if not np.allclose(x, y, rtol=1e-9, atol=1e-9):
                    raise Viol('%s of transect %d is influenced by the other transects (off by %.4g) %s' % (k, j, np.abs(x - y).max(), at), 'twin ' + k)
            tally.kind('transects compared')
    tally.runs += 1 + len(rows)
    tally.simtime += m.t
    tally.kind(s['moist'])
    if both:
        tally.key = [skey(s), case['hist'], sorted(e.items(), key=str)]


execute = guarded(case_fn)


def _extra(case):
    h = case['hist']
    if case['twin']:
        yield dict(case, twin=False)
    if len(h) > 1:
        yield dict(case, hist=h[:-1])
        yield dict(case, hist=h[1:])
    for i, x in enumerate(h):
        if x != -1:
            yield dict(case, hist=h[:i] + [-1] + h[i + 1:])


shrink = shrinker(_extra)
