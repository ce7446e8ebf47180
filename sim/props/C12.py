"""Forcing conditions are those of the input series at the model time."""
import math
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (1600, 70000)
RULE = ('one case = one seeded scenario with wind, tide, wave and meteorological series reached through a seeded history of steps of '
        'any size, fast-forwards and changes of the clock; after each of them every forcing quantity is compared with an independent '
        'interpolation of the series at the time of the step; non-trivial when at least three steps were compared; distinct by scenario '
        'structure and history')
ASSUMPTIONS = ['series are strictly increasing in time and start at or before the start of the run',
               'beyond its end a series starts again; where exactly within one second is left open']


def gen(rng):
    s = scenario.gen(rng, steps=8, allow=['tide', 'wave', 'runup', 'moist', 'gw', 'mix', 'mask', 'mask', 'ne', 'wetreset', 'veg'], mbc=999.,
                     dim=rng.choice([1, 1, 2]))
    if rng.random() < .3 and not s['gw']:
        s['tstart'] = rng.choice([7., 3600.5])
        s['tstop'] += s['tstart']
    hist = []
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        if r < .4:
            hist.append(['step', -1])
        elif r < .6:
            hist.append(['step', round(s['dt'] * rng.choice([.25, 1.7, 4.]), 3) if not s['gw'] else -1])
        elif r < .85:
            hist.append(['step', -round(rng.uniform(1.5, 4 * s['dt'] + 20.), 2)])
        else:
            hist.append(['jump', round(s['tstart'] + rng.random() * rng.choice([1., 1., 5.]) * max(s['tstop'] - s['tstart'], 60.), 3)])
    if s['gw']:
        hist = [h for h in hist if h[0] == 'step']
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist or [['step', -1]], 'runner': rng.random() < .4}


def at(t, tt, v):
    """Range of values the series may have at time t."""
    tt, v = np.asarray(tt, float), np.asarray(v, float)
    if tt[0] <= t <= tt[-1]:
        x = float(np.interp(t, tt, v))
        return x, x
    # repeats; every cycle may take up to a second more than the series
    k = int((t - tt[-1]) // max(tt[-1] - tt[0], 1e-9))
    los, his = [], []
    for n in range(1, k + 2):
        a, b = t - n * (tt[-1] - tt[0] + 1.), t - n * (tt[-1] - tt[0])
        if b < tt[0] - 1e-9 or a > tt[-1] + 1. + 1e-9:
            continue
        for x in np.clip([a, b], tt[0], tt[-1]):
            los.append(np.interp(x, tt, v))
        inside = v[(tt >= a - 1e-9) & (tt <= b + 1e-9)]
        los += list(inside)
        if b - tt[0] <= 1.:
            los.append(v[-1])
    return min(los), max(los)


def within(x, lo, hi, tol=1e-9):
    x = np.asarray(x, float)
    return bool(np.all(x >= lo - tol) and np.all(x <= hi + tol))


def cap(h, v):
    return np.minimum(h * .5, v)


def check(m, s, prev, t, full, tally, masks):
    tt = [r[0] for r in s['wind']]
    wd = np.array([r[2] for r in s['wind']], float)
    if s['conv'] == 'nautical':
        wd[wd == 0.] = .01
    else:
        wd[wd == 270.] = 270.01
        wd = 270. - wd
    end = '' if tt[0] <= t <= tt[-1] else ' (beyond the end of the series)'
    lo, hi = at(t, tt, [r[1] for r in s['wind']])
    if not within(m.s['uw'], lo, hi):
        raise Viol('wind speed at t=%r is %r, the series has %r%s' % (t, float(m.s['uw'].flat[0]), lo, end), 'wind speed' + end)
    if tt[0] <= t <= tt[-1]:
        sn, cs = np.interp(t, tt, np.sin(np.radians(wd))), np.interp(t, tt, np.cos(np.radians(wd)))
        if np.hypot(sn, cs) > 1e-3:
            dd = np.degrees(np.arctan2(sn, cs)) - m.s['udir']
            if not np.all(np.abs(np.sin(np.radians(dd / 2.))) < 1e-9):
                raise Viol('wind direction at t=%r is %r, the series has %r' % (
                    t, float(m.s['udir'].flat[0]), float(np.degrees(np.arctan2(sn, cs)))), 'wind direction')
    elif len(set(wd)) == 1:
        dd = wd[0] - m.s['udir']
        if not np.all(np.abs(np.sin(np.radians(dd / 2.))) < 1e-9):
            raise Viol('wind direction at t=%r is not the only one of the series' % t, 'wind direction' + end)
    tally.kind('wind compared' + end)
    if not full:
        return
    if s['gw']:
        # groundwater looks ahead within the step
        return
    zb = prev.s['zb']
    swl = (np.zeros(zb.shape),) * 2
    if s['tide']:
        lo, hi = at(t, [r[0] for r in s['tide']], [r[1] for r in s['tide']])
        a, b = lo * masks['tide'], hi * masks['tide']
        swl = np.minimum(a, b), np.maximum(a, b)
        tally.kind('tide compared')
    if not within(m.s['SWL'], *swl):
        raise Viol('still water level at t=%r is %r, the series has %r' % (t, float(m.s['SWL'].flat[0]), float(swl[0].flat[0])), 'tide' + end)
    real = np.asarray(m.s['SWL'])
    if s['wave']:
        lo, hi = at(t, [r[0] for r in s['wave']], [r[1] for r in s['wave']])
        h = np.maximum(0., real - zb)
        if not within(m.s['Hs'], cap(h, lo) * masks['wave'], cap(h, hi) * masks['wave']):
            raise Viol('wave height at t=%r is not the one of the series limited by half the depth' % t, 'wave height' + end)
        lo, hi = at(t, [r[0] for r in s['wave']], [r[2] for r in s['wave']])
        if not within(m.s['Tp'], lo * masks['wave'], hi * masks['wave']):
            raise Viol('wave period at t=%r is %r, the series has %r' % (t, float(m.s['Tp'].flat[0]), lo), 'wave period' + end)
        if s['runup']:
            R, eta = np.asarray(m.s['R']), np.asarray(m.s['eta'])
            if not (np.array_equal(m.s['TWL'], real + R) and np.array_equal(m.s['DSWL'], real + eta)):
                raise Viol('total water level at t=%r is not still water level and run-up' % t, 'total water level')
            if not (np.all(R >= 0) and np.all(eta >= 0) and np.all(R >= eta)):
                raise Viol('run-up at t=%r is %r with a set-up of %r' % (t, float(R.min()), float(eta.min())), 'runup')
        lo, hi = at(t, [r[0] for r in s['wave']], [r[1] for r in s['wave']])
        h = np.maximum(0., np.asarray(m.s['TWL']) - zb)
        if not within(m.s['Hsmix'], cap(h, lo) * masks['wave'], cap(h, hi) * masks['wave']):
            raise Viol('mixing wave height at t=%r is not the one of the series limited by half the depth' % t, 'mixing wave height' + end)
        tally.kind('waves compared')
    else:
        if np.any(m.s['Hs']) or np.any(m.s['Tp']):
            raise Viol('there are waves at t=%r without a series' % t, 'waves')


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    m = drive.bmi(cfg, runner=case['runner'])
    masks = {'tide': 1., 'wave': 1.}
    for k in masks:
        if s['masks'] and k in s['masks']['which']:
            masks[k] = np.loadtxt(os.path.join(d, 'm', k + '_mask.txt')).reshape(m.s['zb'].shape)
    n = 0
    for h in case['hist']:
        if h[0] == 'jump':
            m.t = h[1]
            tally.kind('clock set')
            continue
        t = m.t
        prev = drive.Snap(m, only=('zb',))
        drive.step(m, h[1], seed=case['seed'])
        full = h[1] >= -1
        check(m, s, prev, t, full, tally, masks)
        if full and s['gw'] and t + m.dt <= s['meteo'][-1][0]:
            met = m.s['meteo']
            tt = [r[0] for r in s['meteo']]
            for i, k in enumerate(('T', 'Q', 'RH', 'P', 'U')):
                v = [r[i + 1] for r in s['meteo']]
                a, b = np.interp([t, t + m.dt], tt, v)
                mid = [x for y, x in zip(tt, v) if t <= y <= t + m.dt]
                if not min([a, b] + mid) - 1e-9 <= float(met[k]) <= max([a, b] + mid) + 1e-9:
                    raise Viol('%s at t=%r is %r, the series has %r' % (k, t, float(met[k]), a), 'meteo')
            tally.kind('meteorology compared')
        n += 1
        tally.state(drive.digest(m))
    tally.steps += n
    tally.runs += 1
    tally.simtime += max(0., m.t - s['tstart'])
    if n > 2:
        tally.key = [skey(s), case['hist']]


execute = guarded(case_fn)


def _extra(case):
    for i in range(len(case['hist'])):
        yield dict(case, hist=case['hist'][:i] + case['hist'][i + 1:])
    if case['runner']:
        yield dict(case, runner=False)


shrink = shrinker(_extra)
