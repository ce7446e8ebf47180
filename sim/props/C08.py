"""The model clock: legal step sizes, exact advance, bounded progress."""
import math
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (1600, 60000)
RULE = ('one case = one seeded scenario either run to its end or driven by a seeded sequence of requested time steps and '
        'fast-forwards; every step is compared with the time step the configuration, the CFL condition and the bed '
        'level change limit allow; non-trivial when at least three steps were checked; distinct by scenario structure '
        'and the sequence of requests')
ASSUMPTIONS = ['wind speeds are finite', 'a limit on bed level change may make steps arbitrarily small: the bound on the '
               'number of steps is checked without it']


def gen(rng):
    scheme = rng.choice(['euler_forward', 'euler_forward', 'euler_backward', 'crank_nicolson'])
    s = scenario.gen(rng, steps=rng.randint(3, 14), scheme=scheme, allow=PHYS + ['veg'] if rng.random() < .7 else ALL,
                     mbc=rng.choice([999., 999., .0001, .001, .01, .1]), calm=rng.choice([.1, .5, .8]),
                     dim=rng.choice([1, 1, 2]))
    if s['shear'] and s['dim'] == 2:
        s['nx'], s['ny'] = 6, 3
        s['tstop'] = round(s['tstop'] * .4, 3)
    if s['mbc'] != 999.:
        s['gw'] = False
        if s['moist'] == 'surf_moisture':
            s['moist'] = 'infiltration'
    if rng.random() < .25:
        s['tstart'] = rng.choice([10., 3600., 86400.5])
        s['tstop'] = round(s['tstop'] + s['tstart'], 3)
    req = None
    if rng.random() < .5:
        req = []
        for _ in range(rng.randint(3, 12)):
            r = rng.random()
            if r < .35:
                req.append(-1)
            elif r < .65:
                req.append(round(s['dt'] * rng.choice([.1, .5, 1., 2., 7.3]), 3))
            elif r < .75:
                req.append(rng.choice([0, -.5, -1.]))
            else:
                req.append(-round(rng.uniform(1.5, 5 * s['dt'] + 2), 2))
        if s['gw']:
            # a step must resolve the groundwater computation
            req = [x for x in req if x < 0] or [-1]
    return {'s': s, 'seed': rng.randint(0, 10**6), 'req': req, 'runner': rng.random() < .4}


def dtref(m, s):
    """Sum of the largest inverse crossing times of a cell in the
    coordinates of the grid."""
    a = math.radians(m.p['alpha'])
    u, v = np.asarray(m.s['uws']), np.asarray(m.s['uwn'])
    # rotated by alpha around the origin
    ur = math.cos(a) * u + math.sin(a) * v
    vr = -math.sin(a) * u + math.cos(a) * v
    return np.max(np.abs(ur) / m.s['ds']) + np.max(np.abs(vr) / m.s['dn'])


def allowed(m, s, prev, req):
    dt = req if req > 0 else s['dt']
    lim = ['requested' if req > 0 else 'configured']
    if s['scheme'] == 'euler_forward':
        r = dtref(m, s)
        x = s['CFL'] / r if r > 0 else 1.
        if x < dt:
            dt = x
            lim.append('CFL' if r > 0 else 'calm')
    if s['mbc'] != 999. and prev.dt > 0:
        z = np.max(np.abs(prev.s['dzb']))
        if z > 0:
            x = prev.dt * s['mbc'] / z
            if x < dt:
                dt = x
                lim.append('bed level change')
    return dt, lim[-1]


STILL = ('zb', 'mass', 'Ct', 'pickup', 'moist', 'gw', 'zs', 'thlyr', 'rhoveg', 'hveg', 'dzb', 'Cu', 'w', 'qs', 'qn', 'ds', 'dn')


def check_step(m, s, prev, req, tally):
    t, dt = float(m.t), float(m.dt)
    if not (math.isfinite(t) and math.isfinite(dt)):
        raise Viol('time %r after a step of %r' % (t, dt), 'not finite')
    if req < -1:
        if not abs(t - prev.t - abs(req)) <= 1e-9 * max(1., abs(t)):
            raise Viol('fast-forward of %r s moves the clock from %r to %r' % (abs(req), prev.t, t), 'fast-forward')
        for k in STILL:
            a, b = prev.s[k], np.asarray(m.s[k])
            if k in ('qs', 'qn'):
                ok = np.allclose(a, b, rtol=1e-9, atol=1e-12 * (1. + np.max(np.abs(a))))
            else:
                ok = np.array_equal(a, b, equal_nan=True)
            if not ok:
                raise Viol('fast-forward of %r s changes %s' % (abs(req), k), 'fast-forward changes')
        tally.kind('fast-forward')
        return
    if not dt > 0:
        raise Viol('time step of %r s at t=%r' % (dt, prev.t), 'not positive')
    want, why = allowed(m, s, prev, req)
    if not abs(dt - want) <= 1e-9 * want:
        raise Viol('time step of %r s at t=%r, %r expected (%s)' % (dt, prev.t, want, why), 'size ' + why)
    if not abs(t - prev.t - dt * s['accfac']) <= 1e-9 * max(1., abs(t)):
        raise Viol('the clock moves from %r to %r in a step of %r s accelerated by %g' % (prev.t, t, dt, s['accfac']), 'advance')
    tally.kind('step limited by ' + why)


def case_fn(case, d, tally):
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    n = 0
    if case['req'] is not None:
        m = drive.bmi(cfg, runner=case['runner'])
        if m.get_current_time() != s['tstart'] or m.get_start_time() != s['tstart'] or m.get_end_time() != s['tstop']:
            raise Viol('a model of [%r, %r] reports [%r, %r] and stands at %r' % (
                s['tstart'], s['tstop'], m.get_start_time(), m.get_end_time(), m.get_current_time()), 'limits')
        for r in case['req']:
            prev = drive.Snap(m)
            drive.step(m, r, seed=case['seed'])
            check_step(m, s, prev, r, tally)
            if m.get_current_time() != m.t:
                raise Viol('reported time is %r instead of %r' % (m.get_current_time(), m.t), 'limits')
            tally.state(drive.digest(m))
            n += 1
        tally.simtime += m.t - s['tstart']
    else:
        # slowest possible progress
        eff = s['dt']
        if s['scheme'] == 'euler_forward':
            u = max([r[1] for r in s['wind']] + [1e-9])
            eff = min(eff, 1., s['CFL'] * min(s['dx'], 1. if s['dim'] == 1 else s['dy']) / (2 * u))
        budget = int(math.ceil((s['tstop'] - s['tstart']) / (eff * s['accfac']) * (1 + 1e-9))) + 2
        if s['mbc'] != 999.:
            budget = 60
        last = []

        def on(m, i):
            if last:
                check_step(m, s, last[0], -1, tally)
                tally.state(drive.digest(m))
            elif m.t != s['tstart']:
                raise Viol('the run starts at %r instead of %r' % (m.t, s['tstart']), 'start')
            if m.t > s['tstop']:
                raise Viol('a step is made at %r, after the end of the run at %r' % (m.t, s['tstop']), 'end')
            last[:] = [drive.Snap(m, only=('dzb',))]
        o = drive.run(cfg, on_step=on, seed=case['seed'], budget=budget)
        if o.kind == 'budget' and s['mbc'] != 999.:
            return
        exc_viol(o, 'run')
        check_step(o.model, s, last[0], -1, tally)
        if not o.model.t > s['tstop']:
            raise Viol('the run ends at %r, before %r' % (o.model.t, s['tstop']), 'end')
        if s['scheme'] != 'euler_forward' and s['mbc'] == 999.:
            want = math.floor((s['tstop'] - s['tstart']) / (s['dt'] * s['accfac']) + 1e-6) + 1
            if abs(o.steps - want) > (1 if abs((s['tstop'] - s['tstart']) / (s['dt'] * s['accfac']) % 1.) < 1e-5 or
                                      abs((s['tstop'] - s['tstart']) / (s['dt'] * s['accfac']) % 1. - 1) < 1e-5 else 0):
                raise Viol('%d steps of %g s to cover %g s' % (o.steps, s['dt'] * s['accfac'], s['tstop'] - s['tstart']), 'count')
        if o.model.get_count('time') != o.steps:
            raise Viol('%d time steps counted instead of %d' % (o.model.get_count('time'), o.steps), 'counter')
        n = o.steps
        tally.simtime += o.model.t - s['tstart']
    tally.steps += n
    tally.runs += 1
    if n > 2:
        tally.key = [skey(s), case['req']]


execute = guarded(case_fn)


def _extra(case):
    if case['req']:
        for i in range(len(case['req'])):
            yield dict(case, req=case['req'][:i] + case['req'][i + 1:])
    if case['runner']:
        yield dict(case, runner=False)


shrink = shrinker(_extra)
