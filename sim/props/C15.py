"""Thresholds: sediment is only picked up where the wind is strong enough."""
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (8000, 200000)
RULE = ('one case = one seeded scenario of one transport and one moisture formulation with calms, gusts, surges, wet and exposed '
        'non-erodible cells, in which the simulator blows plumes into the air and changes the water level between steps; every step is '
        'judged; non-trivial when in one step sediment was picked up in some cells and prevented by a threshold in others; distinct by '
        'scenario structure and injections')
ASSUMPTIONS = ['the DK formulation multiplies the threshold by the published factor 0.8',
               'moisture formulations that replace rather than raise the threshold are not held to the threshold of dry sand',
               'without a soil moisture process no moisture threshold is applied']

RAISING = ['belly_johnson', 'hotta', 'chepil', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish']
OTHER = ['saleh_fryear', 'cornelis', 'dong_2007']
TRANSPORT = ['bagnold', 'bagnold_gs', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen']


def gen(rng):
    s = scenario.gen(rng, steps=8, mbc=999., dim=rng.choice([1, 1, 2]), calm=.2, dtmax=900.,
                     allow=['stretch', 'tide', 'tide', 'wave', 'runup', 'moist', 'ne', 'bedcomp', 'graindist2d', 'mask', 'fence', 'veg'])
    s['max_iter'] = 1000
    if rng.random() < .35:
        s['tide'] = scenario.gen_series(rng, s['tstop'], -1., 1.5)
        s['wave'] = scenario.gen_series(rng, s['tstop'], 0, 0, 2, [0., 3.], [3., 12.])
        s['runup'], s['moist'] = True, 'infiltration'
    s['mt'] = rng.choice(TRANSPORT)
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 8), min(s['ny'], 4)
    if s['ne'] is not None:
        s['ne'] = rng.choice([0., .005, .012, .05])
    e = {}
    if s['moist']:
        s['thm'] = rng.random() < .8
        e['method_moist_threshold'] = rng.choice(RAISING * 2 + OTHER)
        e['Tdry'] = rng.choice([300., 1800., 5400.])
        e['w1_5'] = rng.choice([.01, .02, .05, .1])
        e['resw_moist'] = rng.choice([0., .01, .03])
    if rng.random() < .25:
        e['th_salt'] = True
    if rng.random() < .2:
        e['th_sheltering'] = True
        e['m'] = .5
    s['extra'] = e
    # winds around the threshold
    for r in s['wind']:
        if r[1] and rng.random() < .5:
            r[1] = rnd(rng, 3., 9., 2)
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .2 and 'steady' not in s['solver']:
            ops.append({'op': 'plume', 'seed': rng.randint(0, 10**6), 'size': rng.choice([.001, .05, 1.])})
        elif r < .4 and e.get('th_salt'):
            ops.append({'op': 'salt', 'seed': rng.randint(0, 10**6)})
        elif r < .7 and s['moist'] == 'infiltration':
            ops.append({'op': 'wet', 'seed': rng.randint(0, 10**6)})
        else:
            ops.append(None)
    return {'s': s, 'seed': rng.randint(0, 10**6), 'ops': ops}


def inject(m, o):
    r = np.random.RandomState(o['seed'])
    if o['op'] == 'plume':
        C = np.asarray(m.s['Ct']).copy()
        C[:, 1:-1] += o['size'] * (r.uniform(0, 1, C[:, 1:-1].shape) < .3) * r.uniform(0, 1, C[:, 1:-1].shape)
        m.s['Ct'] = C
    elif o['op'] == 'salt':
        m.s['salt'] = r.choice([0., .5, 1.], np.asarray(m.s['salt']).shape)
    else:
        m.s['moist'] = r.choice([0., .005, .01, .015, .02, .03, .05, .08, .3], np.asarray(m.s['moist']).shape)


def moist_threshold(k, uth, mg, p, D):
    """Threshold of moist sand by formulation k; sand with less moisture than it always holds is dry sand."""
    w = p['w1_5']
    rg, ra, g = p['rhog'], p['rhoa'], p['g']
    if k == 'belly_johnson':
        return uth * np.maximum(1., 1.8 + .6 * np.log10(100. * np.maximum(mg, 1e-12)))
    if k == 'hotta':
        return uth + 7.5 * mg
    if k == 'chepil':
        return np.sqrt(uth**2 + .6 * (mg / w)**2 / ra)
    if k in ('saleh_fryear', 'saleh_fryear_mod'):
        return (.305 if k == 'saleh_fryear' else uth) + .022 * mg / w + .506 * (mg / w)**2
    if k == 'shao':
        return uth * np.exp(22.7 * mg)
    if k == 'dong_2002':
        K = [2.51, 2.05, 2.75, 1.59, 1.87, 2.15][int(np.sum(D * 1e3 >= np.array([.135, .15, .2, .25, .4])))]
        return uth * np.sqrt(1. + 100. * K * mg)
    if k == 'gregory_darwish':
        return uth * np.sqrt(1. + mg + 6. / np.pi * 6.12e-5 / (rg * g * D**2) + 738.8 / (p['rhow'] * g * D) * np.exp(-.1 * mg / w) * np.maximum(mg - .5 * w, 0.))
    R = (rg - ra) * g
    if k == 'cornelis':
        return np.sqrt(.013 * R / ra * D * (1. + mg + 1.7e-4 / (R * D**2) * (1. + 3e14 * .075**2 * D / 1e9 * np.exp(6.5 * mg / w)))) + 0. * uth
    return .16 * np.sqrt(R / ra * D) * (1. + 478.2 * mg**1.52) + 0. * uth


def threshold(s, e, m, b, base, zne, tmask, SWL):
    """The threshold of every cell and fraction, and where it is certain."""
    p = m.p
    zb = b.s['zb']
    u = base / tmask
    sure = np.ones(zb.shape, bool)
    if s['thm']:
        c = p['rhow'] / (p['rhog'] * (1. - p['porosity']))
        mg = (np.asarray(m.s['moist'], float) * c)
        low = p['resw_moist'] * c + .005
        for lim in (low, .064):
            sure &= np.abs(mg - lim) > 1e-9
        D = np.sum(np.array(s['gs']) * np.array(s['gd'])) / np.sum(s['gd']) if s['gd2'] is None else np.sum(np.array(s['gs']) * np.array(s['gd2'][0])) / np.sum(s['gd2'][0])
        if e['method_moist_threshold'] == 'dong_2002':
            sure &= np.all(np.abs(D * 1e3 - np.array([.135, .15, .2, .25, .4])) > 1e-6)
        mg = mg[:, :, None]
        u = np.where(mg > low, moist_threshold(e['method_moist_threshold'], u, mg, p, D), u)
        u = np.where(mg > .064, np.inf, u)
    elif s['tide']:
        sure &= np.abs(SWL - zb - p['eps']) > 1e-9
        u = np.where((SWL - zb > p['eps'])[:, :, None], np.inf, u)
    if e.get('th_salt'):
        u = u * 1.03 * np.exp(102.7 * p['csalt'] * (1. - b.s['salt'][:, :, :1]))
    if e.get('th_sheltering'):
        us = np.asarray(m.s['ustar'])[:, :, None]
        mass = b.s['mass'][:, :, 0, :]
        still = us <= u
        sure &= np.all(np.isinf(u) | (np.abs(us - u) > 1e-9), axis=2)
        w = np.where(still, mass, 0.).sum(axis=2) / mass.sum(axis=2)
        u = u * np.sqrt((1. - p['m'] * w) * (1. + p['m'] * p['beta'] / p['sigma'] * w))[:, :, None]
    u = u * tmask
    if s['ne'] is not None:
        sure &= np.abs(zb - zne - .01) > 1e-9
        u = np.where((zb <= zne + .01)[:, :, None], np.inf, u)
    return u, sure


def saturated(k, us, th, u, p, gs):
    """Saturated concentration by formulation k."""
    r = p['rhoa'] / p['g']
    fin = np.isfinite(th) & (us > 0.) & (u != 0.)
    th = np.where(fin, th, 0.)
    v = np.where(fin, np.abs(u), 1.)
    c = {'bagnold': lambda: p['Cb'] * r * (us - th)**3 / v,
         'bagnold_gs': lambda: p['Cb'] * np.sqrt(np.array(gs) / .00025) * r * (us - th)**3 / v,
         'kawamura': lambda: p['Ck'] * r * (us + th)**2 * (us - th) / v,
         'lettau': lambda: p['Cl'] * r * us**2 * (us - th) / v,
         'dk': lambda: p['Cdk'] * r * .8 * th * (us**2 - (.8 * th)**2) / v,
         'sauermann': lambda: .7 * r * (us**2 - th**2),
         'vanrijn_strypsteen': lambda: p['Cb'] * r * (us**3 - th**3) / v}[k]()
    return np.where(fin, np.maximum(0., c), 0.) * p['accfac']


def case_fn(case, d, tally):
    s = case['s']
    e = s['extra']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    m = drive.bmi(cfg)
    p = m.p
    mixed = 0
    zne = np.array(m.s['zne'], float, copy=True)
    if s['ne'] is not None:
        zne = np.loadtxt(os.path.join(d, 'm', 'ne.grd')).reshape(zne.shape)
    tmask = 1.
    if s['masks'] and 'threshold' in s['masks']['which']:
        tmask = np.loadtxt(os.path.join(d, 'm', 'threshold_mask.txt')).reshape(zne.shape)[:, :, None]
    base = .085 * np.sqrt((2650. - 1.225) / 1.225 * 9.81 * np.array(s['gs'])) * tmask
    base = np.broadcast_to(base, zne.shape + (s['nf'],))
    for op in case['ops']:
        if op:
            inject(m, op)
            tally.fault(op['op'])
        b = drive.Snap(m, only=('zb', 'mass', 'Ct', 'salt'))
        solves = m.get_count('matrixsolve')
        t = m.t
        drive.step(m, seed=case['seed'])
        tally.steps += 1
        tally.state(drive.digest(m))
        at = 'in the step at t=%r' % t
        P = np.asarray(m.s['pickup'])
        uth = np.asarray(m.s['uth'])
        ustar = np.asarray(m.s['ustar'])[:, :, None]
        if not np.any(m.s['uw']):
            tally.kind('calm steps')
            for k in ('zb', 'mass', 'Ct'):
                if not np.array_equal(b.s[k], np.asarray(m.s[k])):
                    raise Viol('%s changes without wind %s' % (k, at), 'calm ' + k)
            for k in ('pickup', 'qs', 'qn', 'dzb'):
                if np.any(m.s[k]):
                    raise Viol('%s is not zero without wind %s' % (k, at), 'calm ' + k)
            continue
        if np.any(np.isnan(uth)) or np.any(uth <= 0.):
            raise Viol('a threshold is not a positive number %s' % at, 'threshold')
        # bed surface properties only raise the threshold of dry sand
        if not s['thm'] or e['method_moist_threshold'] in RAISING:
            if not np.all(uth >= base * (1 - 1e-9)):
                raise Viol('the threshold is below that of bare dry sand (%.5g of it) %s' % (np.min(uth / base), at), 'threshold lowered')
        # formulations that replace the threshold by one of their own: moist sand resists at least as much as dry sand of that formulation
        if s['thm'] and e['method_moist_threshold'] in ('cornelis', 'dong_2007') and s['gd2'] is None:
            D = np.sum(np.array(m.p['grain_size']) * np.array(m.p['grain_dist'])) / np.sum(m.p['grain_dist'])
            own = {'cornelis': np.sqrt(.013 * (1. + 1.7e-4 / (2648.775 * 9.81 * D**2)) * 2648.775 / 1.225 * 9.81 * D),
                   'dong_2007': .16 * np.sqrt(2648.775 / 1.225 * 9.81 * D)}[e['method_moist_threshold']] * tmask
            if not np.all(uth >= np.minimum(base, own) * (1 - 1e-9)):
                raise Viol('the threshold of moist sand is below that of dry sand (%.5g of it) %s' % (np.min(uth / np.minimum(base, own)), at), 'threshold lowered')
            tally.kind('moist by a formulation of its own')
        if not s['thm'] and not s['tide'] and s['ne'] is None and not e.get('th_salt') and not e.get('th_sheltering'):
            if not np.allclose(uth, base, rtol=1e-9):
                raise Viol('the threshold of bare sand is not that of its grain size %s' % at, 'threshold of sand')
        if e.get('th_salt') and not s['thm'] and not s['tide'] and s['ne'] is None and not e.get('th_sheltering'):
            cs = 1.03 * np.exp(.1027e3 * .035 * (1. - b.s['salt'][:, :, :1]))
            if not np.allclose(uth, base * cs, rtol=1e-9):
                raise Viol('the threshold does not follow the salt content %s' % at, 'threshold salt')
        # cells without any transport
        zb = b.s['zb']
        dz = np.asarray(m.s['zb']) - zb
        none = np.zeros(zb.shape, bool)
        if s['tide'] and not s['thm']:
            # the water surface was moved along with the bed
            zs = np.asarray(m.s['zs']) - (0. if s['dim'] else 0.)
            SWL = np.asarray(m.s['SWL'])
            flooded = SWL - zb > .001 + 1e-9
            none |= flooded
        if s['thm']:
            mg = np.asarray(m.s['moist']) * 1025. / (2650. * .6)
            none |= mg > .064 + 1e-9
        if s['ne'] is not None:
            none |= zb <= zne + .01 - 1e-9
        none = np.broadcast_to(none[:, :, None], P.shape)
        if not np.all(np.isinf(uth[none])):
            raise Viol('there is a finite threshold in flooded, wet or non-erodible cells %s' % at, 'no threshold')
        Cu = np.asarray(m.s['Cu'])
        if np.any(np.isnan(Cu)) or np.any(np.isinf(Cu)) or np.any(Cu < 0):
            raise Viol('the saturated concentration is negative or not finite %s' % at, 'saturated concentration')
        th = .8 * uth if s['mt'] == 'dk' else uth
        below = none | (ustar < th * (1 - 1e-12))
        if np.any(Cu[below] > 0):
            raise Viol('there is saturated transport below the threshold %s' % at, 'saturated below threshold')
        above = (ustar > th * (1 + 1e-6)) & ~none & (np.abs(np.asarray(m.s['u'])) > 0)
        if not np.all(Cu[above] > 0):
            raise Viol('there is no saturated transport above the threshold %s' % at, 'no transport above threshold')
        # and both are what the chosen formulations give
        SWL = np.asarray(m.s['SWL'])
        want, sure = threshold(s, e, m, b, base, zne, np.broadcast_to(tmask, base.shape), SWL)
        bad = sure[:, :, None] & ~np.isclose(uth, want, rtol=1e-8, atol=0.)
        if np.any(bad):
            k = tuple(np.argwhere(bad)[0])
            raise Viol('the threshold of cell and fraction %s is %r but should be %r%s %s' % (
                k, float(uth[k]), float(want[k]), ' by ' + e['method_moist_threshold'] if s['thm'] else '', at), 'threshold formula')
        u = np.asarray(m.s['u'])
        full = saturated(s['mt'], ustar, uth, u, m.p, s['gs'])
        if not np.allclose(Cu, full, rtol=1e-6, atol=1e-12 + 1e-12 * full.max()):
            raise Viol('the saturated concentration is off by up to %.4g of %.4g kg/m2 by %s %s' % (np.abs(Cu - full).max(), full.max(), s['mt'], at), 'formulation')
        flat = saturated(s['mt'], np.asarray(m.s['ustar0'])[:, :, None], base / tmask, np.where(ustar != 0., u, 0.), m.p, s['gs'])
        if not np.allclose(m.s['Cu0'], flat, rtol=1e-6, atol=1e-12 + 1e-12 * flat.max()):
            raise Viol('the saturated concentration over a flat bed is off by up to %.4g of %.4g kg/m2 by %s %s' % (
                np.abs(m.s['Cu0'] - flat).max(), flat.max(), s['mt'], at), 'formulation')
        tally.kind('exact thresholds and concentrations')
        if m.get_count('matrixsolve') - solves >= 1000:
            tally.kind('solver did not converge')
            break
        if np.any(P[below] > 1e-12):
            k = np.unravel_index(np.where(below, P, 0.).argmax(), P.shape)
            raise Viol('%.4g kg/m2 is picked up where the shear velocity %.4g is below the threshold %.4g %s' % (
                P[k], ustar[k[0], k[1], 0], th[k], at), 'pickup below threshold')
        if np.any(P[~below] > 0) and np.any(below):
            mixed += 1
        tally.kind('cells below threshold', int(below.sum()))
        tally.kind('flooded, wet or non-erodible cells', int(none.sum()))
    tally.runs += 1
    tally.simtime += m.t
    tally.kind(s['mt'])
    if s['thm']:
        tally.kind(e['method_moist_threshold'])
    if mixed:
        tally.key = [skey(s), case['ops'], s['mt'], e.get('method_moist_threshold')]


execute = guarded(case_fn)


def _extra(case):
    o = case['ops']
    if len(o) > 1:
        yield dict(case, ops=o[:-1])
        yield dict(case, ops=o[1:])
    for i, x in enumerate(o):
        if x:
            yield dict(case, ops=o[:i] + [None] + o[i + 1:])
    for k in ('th_salt', 'th_sheltering'):
        if case['s']['extra'].get(k):
            yield dict(case, s=dict(case['s'], extra={a: b for a, b in case['s']['extra'].items() if a != k}))
    if case['s']['mt'] != 'bagnold':
        yield dict(case, s=dict(case['s'], mt='bagnold'))


shrink = shrinker(_extra)
