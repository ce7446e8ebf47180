"""Moisture of the beach: its balance of water, the groundwater below and how sand holds water."""
import os
import signal

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (900, 30000)
RULE = ('one case = one seeded beach with tides, with or without waves, run-up and groundwater, under sun, rain and wind, whose bed the '
        'simulator fills and scours between steps; in every step the soil moisture is compared with an independent account of drainage, '
        'evaporation, rain and retention (with its loops of wetting and drying), the groundwater without waves with an independent solution '
        'of the Boussinesq equation; non-trivial when the surface dried, was wetted and held water by capillary rise; distinct by scenario '
        'structure and history')
ASSUMPTIONS = ['evaporation uses the coefficient of wind of the code, the documentation has another', 'groundwater is judged without waves '
               'and seepage faces, with a shoreline inside the domain and time steps stable for its explicit scheme']


def gen(rng):
    s = scenario.gen(rng, steps=8, mbc=999., dim=rng.choice([1, 1, 2]), calm=.2, scheme='euler_backward', dt=rng.choice([6., 60., 300., 900.]),
                     allow=['tide', 'ne'], accfac=1.)
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 10), min(s['ny'], 3)
    s['ne'] = None
    s['rot'] = 0.
    s['moist'], s['gw'] = 'surf_moisture', True
    s['dx'], s['dy'] = scenario.resize(s, rng.choice([2., 5.]))
    s['dt'] = min(s['dt'], 300. if s['dx'] == 2. else 900.)
    s['nx'] = rng.randint(12, 24)
    s['tstop'] = round(s['dt'] * s['steps'], 3)
    s['wind'] = [[r[0], r[1] if rng.random() < .3 else round(r[1] / 3., 2), r[2]] for r in scenario.gen_wind(rng, s['tstop'], calm=.2)]
    s['bed'] = dict(s['bed'], z0=-2., slope=round(rng.uniform(5.5, 8.) / (s['nx'] * s['dx']), 4), noise=rng.choice([0., .01, .1]), dune=0.)
    s['tide'] = scenario.gen_series(rng, s['tstop'], -.8, .8)
    s['runup'] = rng.random() < .6
    s['wave'] = scenario.gen_series(rng, s['tstop'], 0, 0, 2, [.1, 3.], [1., 8.]) if rng.random() < .4 else None
    s['scan'] = rng.random() < .6
    s['meteo'] = scenario.gen_series(rng, s['tstop'], 0, 0, 5, [-2., 0., 0., 95., 30.], [30., 25., rng.choice([0., 0., 3., 60.]), 103., 100.])
    s['masks'] = None
    wet = rng.choice([{}, {}, {'alfaw_moist': .034, 'alfad_moist': .019, 'nw_moist': 4.931, 'nd_moist': 4.931, 'mw_moist': .797, 'md_moist': .797},
                      {'satw_moist': .45, 'satd_moist': .45}, {'satw_moist': .5, 'satd_moist': .45}])
    s['extra'] = dict(wet, Tdry=rng.choice([300., 5400., 40000.]), fc=rng.choice([.11, .05, .3]), thick_moist=rng.choice([.002, .002, .02]),
                      beach_slope=rng.choice([.02, .1]), in_gw=rng.choice([0., -.5, .5, .3]), boundary_gw=rng.choice(['no_flow', 'no_flow', 'static']),
                      GW_stat=rng.choice([1., .2]), K_gw=rng.choice([.00078, .0003]), D_gw=rng.choice([12., 5.]), ne_gw=rng.choice([.3, .4]),
                      tfac_gw=rng.choice([10, 10, 7, 3, 30]), process_groundwater=rng.random() < .85, process_seepage_face=rng.random() < .15,
                      resw_moist=rng.choice([.01, .01, .03]), resd_moist=rng.choice([.01, .01, .05]), z=rng.choice([10., 10., 6.]))
    hist = []
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < .8:
            hist.append(['step', -1])
        elif r < .9:
            hist.append(['step', round(s['dt'] * rng.uniform(.1, 1.), 3)])
        else:
            hist.append(['bed', rng.randint(0, 10**6), rng.choice([.02, .1])])
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist + [['step', -1]]}


def held(p, k, h):
    """Moisture sand holds at a height above the groundwater (cm), van Genuchten (1980)."""
    r, s = p['res%s_moist' % k], p['sat%s_moist' % k]
    return r + (s - r) / (1. + np.abs(p['alfa%s_moist' % k] * h)**p['n%s_moist' % k])**p['m%s_moist' % k]


class Sand(object):
    """How the sand of every cell follows the curves of wetting and drying, and those of Mualem (1974) between them."""

    def __init__(self, p, h):
        self.p, self.first = p, True
        self.turn = h.copy()                        # height above groundwater where wetting or drying began
        self.up = np.zeros(h.shape, bool)           # on a curve between the main ones, wetting
        self.down = np.zeros(h.shape, bool)         # ... drying
        self.last = None
        self.lost = np.zeros(h.shape, bool)

    def step(self, h, was, rises, strictly):
        p = self.p
        w, d = held(p, 'w', h), held(p, 'd', h)
        if self.first:
            self.first = False
            return w
        turn, (w0, d0, mw, md) = self.turn, self.last if self.last else (None,) * 4
        for i in np.ndindex(h.shape):
            if was[i] and not rises[i]:
                if not self.up[i]:
                    turn[i] = h[i]
                else:
                    x = min((mw[i] - w0[i]) * (p['satd_moist'] - w0[i]) / (d0[i] - w0[i]) + w0[i], p['satw_moist'])
                    a = (p['satw_moist'] - p['resw_moist']) / max(x - p['resw_moist'], 1e-5)
                    with np.errstate(invalid='ignore'):
                        turn[i] = max(1. / p['alfaw_moist'] * (a**(1. / p['mw_moist']) - 1.)**(1. / p['nw_moist']), 0.)
            elif not was[i] and strictly[i]:
                if not self.down[i]:
                    turn[i] = h[i]
                else:
                    x = np.arange(1, 100001) * .01
                    a, b = held(p, 'w', x), held(p, 'd', x)
                    f = w0[i] + (p['satw_moist'] - w0[i]) / np.maximum(p['satw_moist'] - a, 1e-4) * (b - a) - md[i]
                    k = np.flatnonzero(~(f > .01))
                    if len(k) and x[k[0]] < 999.:
                        turn[i] = x[k[0]]
                    else:                           # no such height, nothing is said about what follows
                        self.lost[i] = True
                        turn[i] = 1000.
        a, b = held(p, 'w', turn), held(p, 'd', turn)
        mw = np.clip(w + (p['satw_moist'] - w) / np.maximum(p['satw_moist'] - a, 1e-4) * (b - a), None, d)
        md = np.clip(w + (a - w) / np.maximum(p['satd_moist'] - w, 1e-4) * (d - w), None, d)
        mw, md = np.maximum(mw, w), np.maximum(md, w)
        between_up = rises & (~was | self.up)
        between_down = ~rises & (was | self.down)
        out = np.where(between_up, mw, np.where(between_down, md, np.where(rises, w, d)))
        self.up = between_up & (mw > w)
        self.down = between_down & (md < d)
        self.last = (w, d, mw, md)
        return np.where(self.lost, np.nan, out)


def evaporated(p, met, uw):
    """Penman's evaporation in m/s."""
    T, l = met['T'], 2.26
    e = .6108 * np.exp(17.27 * T / (T + 237.3))
    m = 4098. * e / (T + 237.3)**2
    ga = p['cpair'] * met['P'] / (.622 * l)
    u2 = .174 / np.log10(p['z'] / 2.) * uw
    return (m * met['Q'] + 6.43 * ga * e * (1. - met['U'] / 100.) * (1. + .86 * u2)) / (l * (m + ga)) / 86400. / 1000.


def tide(series, t):
    """Water level at a time; the series starts again a second after its end."""
    x, y = np.array(series).T
    return np.interp(x[0] + (t - x[0]) % (x[-1] - x[0] + 1.), x, y)


def flow(p, dx, n, dt, g, zb, levels):
    """Groundwater of a transect after n parts of a step: central differences and the method of Runge and Kutta."""
    g = g.copy()
    K, D = p['K_gw'] / p['ne_gw'], p['D_gw']
    if K * (D + max(np.abs(g).max(), np.abs(levels).max())) * dt / n / dx**2 > .5:
        return None                                 # beyond the stability of an explicit scheme
    for lev in levels:
        k = int(np.argmax(zb > lev)) - 1
        if not 0 < k < len(g) - 5:
            return None

        def fix(g):
            g[k] = g[k - 1] = lev
            g[-3:] = g[-4] if p['boundary_gw'] == 'no_flow' else p['GW_stat']
            return g

        def rate(g):
            g = fix(g.copy())
            out = np.zeros(len(g))
            out[1:-1] = K * D * np.diff(g, 2) / dx**2
            out[2:-2] += K * (g[3:-1] * (g[4:] - g[2:-2]) - g[1:-3] * (g[2:-2] - g[:-4])) / 4. / dx**2
            out[:k + 1] = out[-3:] = 0.
            return out
        h = dt / n
        g = fix(g)
        a = rate(g)
        b = rate(g + h / 2. * a)
        c = rate(g + h / 2. * b)
        e = rate(g + h * c)
        g = np.minimum(g + h / 6. * (a + 2 * b + 2 * c + e), zb)
        g = np.where(zb < lev, lev, g)
    return g


def case_fn(case, d, tally):
    s = case['s']
    e = s['extra']
    if s['moist'] != 'surf_moisture' or not s['gw'] or not s['tide'] or not s['meteo']:
        return
    m = drive.bmi(scenario.materialise(s, os.path.join(d, 'm')))
    p = {k: m.p[k] for k in ('D_gw', 'K_gw', 'ne_gw', 'GW_stat', 'boundary_gw', 'fc', 'Tdry', 'thick_moist', 'z', 'cpair', 'tfac_gw') +
         tuple('%s%s_moist' % (a, b) for a in ('res', 'sat', 'alfa', 'n', 'm') for b in 'wd')}
    for k, v in e.items():
        if k in p and p[k] != v:
            raise Viol('%s is %r instead of %r' % (k, p[k], v), 'setting')
    g = lambda k: np.array(dict.__getitem__(m.s, k), copy=True)
    gws = []
    sand = None
    dried = wetted = rose = 0

    def late(*a):
        raise Viol('a step does not end (at t=%r)' % m.t, 'hangs')
    for h in case['hist']:
        if h[0] == 'bed':
            r = np.random.RandomState(h[1])
            z = g('zb')
            m.set_var('zb', np.round(z + h[2] * r.uniform(-1, 1, z.shape), 6))
            tally.fault('bed moved')
            continue
        zb, m0, g0, t0 = g('zb'), g('moist'), g('gw'), m.t
        if not gws:
            g0 = np.full(zb.shape, e['in_gw']) if e['process_groundwater'] else np.zeros(zb.shape)
            gws = [g0, g0]
        signal.signal(signal.SIGALRM, late)
        signal.alarm(60)
        try:
            drive.step(m, h[1], seed=case['seed'])
        finally:
            signal.alarm(0)
        dt = m.t - t0
        tally.steps += 1
        at = 'in the step at t=%r' % t0
        gw, TWL, swr, mo = g('gw'), g('TWL'), g('moist_swr'), g('moist')
        # water levels
        if not s['runup']:
            n = int(np.ceil(p['tfac_gw'])) if e['process_groundwater'] else 1
            lv = [tide(s['tide'], t0 + i * dt / n) for i in range(n)]
            for k in ('TWL', 'DSWL'):
                if not np.allclose(g(k), lv[-1], rtol=0, atol=1e-6 + 2 * np.ptp(lv)):
                    raise Viol('without run-up %s is %.4g m with the tide at %.4g m %s' % (k, g(k).flat[0], lv[-1], at), 'water level')
        # groundwater
        if e['process_groundwater']:
            if not e['process_seepage_face'] and not s['wave']:
                n = int(np.ceil(p['tfac_gw']))
                lv = [tide(s['tide'], t0 + i * dt / n) for i in range(n)]
                for j in range(zb.shape[0]):
                    ref = flow(p, s['dx'], n, dt, g0[j], zb[j], lv)
                    if ref is None:
                        continue
                    off = np.abs(ref - gw[j]).max()
                    if off > .002 * np.abs(ref - g0[j]).max() + 1e-6:
                        k = np.abs(ref - gw[j]).argmax()
                        raise Viol('groundwater rises from %.5g to %.5g m instead of %.5g m in cell %d %s' % (g0[j, k], gw[j, k], ref[k], k, at), 'flow')
                    tally.kind('groundwater compared')
        elif np.any(gw != 0.):
            raise Viol('groundwater moves although it is not computed %s' % at, 'groundwater off')
        # retention
        was = gws[-1] > gws[-2]
        hh = np.maximum(0., (zb - gw) * 100.)
        if s['scan']:
            if sand is None:
                sand = Sand(p, hh)
            sw = sand.step(hh, was, gw >= gws[-1], gw > gws[-1])
            if np.any(sand.up) or np.any(sand.down):
                tally.kind('between the curves')
        else:
            sw = np.where(was, held(p, 'w', hh), held(p, 'd', hh))
        gws = [gws[-1], gw]
        bad = ~(np.abs(sw - swr) <= (1e-6 if not s['scan'] else 3e-4)) & np.isfinite(sw)
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0])
            raise Viol('sand %.4g m above groundwater holds a moisture of %.6g instead of %.6g, the groundwater having %s and now %s, in cell %s %s' % (
                hh[i] / 100., swr[i], sw[i], 'risen' if was[i] else 'not risen', 'rising' if gws[1][i] > gws[0][i] else 'not rising', i, at), 'retention')
        # balance
        met = m.s['meteo']
        ev = evaporated(p, met, g('uw'))
        x = m0 + np.minimum(0., (m0 - p['fc']) * (.5**(dt / p['Tdry']) - 1.))
        y = np.clip(x + (met['RH'] / 3.6e6 - ev) * dt / p['thick_moist'], p['resw_moist'], p['satd_moist'])
        flooded = TWL > zb
        y = np.where(flooded, p['satd_moist'], y)
        ref = np.minimum(np.maximum(y, swr), p['satd_moist'])
        bad = np.abs(ref - mo) > 1e-9
        if np.any(bad & (np.abs(TWL - zb) > 1e-9)):
            i = tuple(np.argwhere(bad)[0])
            raise Viol('the moisture of a %s cell goes from %.6g to %.6g instead of %.6g %s' % (
                'flooded' if flooded[i] else 'dry', m0[i], mo[i], ref[i], at), 'balance')
        dried += bool(np.any(mo < m0 - 1e-6))
        wetted += bool(np.any(flooded))
        rose += bool(np.any((swr > y) & ~flooded))
        if met['RH'] > 0:
            tally.kind('rain')
        tally.state(drive.digest(m))
    tally.runs += 1
    tally.simtime += m.t
    tally.kind('dried', dried)
    tally.kind('wetted', wetted)
    tally.kind('capillary rise', rose)
    if dried and wetted and rose:
        tally.key = [skey(s), case['hist'], s['scan']]


execute = guarded(case_fn)


def _extra(case):
    hh = case['hist']
    for i in range(len(hh)):
        n = hh[:i] + hh[i + 1:]
        if any(h[0] == 'step' for h in n):
            yield dict(case, hist=n)


shrink = shrinker(_extra)
