"""Shear: the law of the wall over the chosen roughness, steered by relief."""
import copy
import os

import numpy as np
from scipy.interpolate import RegularGridInterpolator
from scipy.special import kv

from .common import *

LEVEL = 'exploration'
RUNS = (2400, 60000)
RULE = ('one case = one seeded model whose wind blows, veers and calms while the simulator reshapes the bed between steps; in every step '
        'the undisturbed shear velocity is compared with the law of the wall, and the shear over relief with an independent model (profiles) '
        'or with twins of the same model over a raised, halved, even or unseparated bed or in another wind (areas); non-trivial when relief '
        'changed the shear in at least two windy steps; distinct by scenario structure and history')
ASSUMPTIONS = ['the fixed reference height is that of the configuration', 'twins over areas are compared to the accuracy of the interpolation '
               'between grids, exactly where the grids coincide']

METHODS = ['constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive', 'median_grainsize_adaptive', 'vanrijn_strypsteen']


def relief(s, o):
    """A bed of the given kind."""
    r = np.random.RandomState(o['seed'])
    ny, nx = s['ny'] + 1, s['nx'] + 1
    x, y = np.meshgrid(np.arange(nx) * s['dx'], np.arange(ny) * s['dy'])
    z = np.full((ny, nx), o['z'])
    L = min(np.ptp(x), np.ptp(y) if ny > 1 else 1e9)
    if o['kind'] == 'rough':
        z = z + o['h'] * s['dx'] * r.uniform(-1, 1, z.shape)
    elif o['kind'] == 'hill':
        c = x[0, nx // 2] + r.uniform(-1, 1) * s['dx'], y[ny // 2, 0]
        w = o['w'] * s['dx']
        z = z + o['h'] * w * np.exp(-((x - c[0])**2 + (y - c[1])**2) / w**2 / 2.)
    elif o['kind'] == 'ridge':
        w = o['w'] * s['dx']
        z = z + o['h'] * w * np.exp(-(x - x[0, nx // 2])**2 / w**2 / 2.)
    elif o['kind'] == 'step':
        z = z + o['h'] * s['dx'] * (x < x[0, nx // 2])
    elif o['kind'] == 'dune':
        H = (1.5 + 2.5 * o['h']) * s['dx']
        a = x - x[0, nx // 3]
        z = z + np.maximum(np.where(a < 0, H + .1 * (o['w'] - 1.5) * a, H - .8 * a), 0.)
        z = z[:, ::-1] if o['back'] else z
    return np.round(z, 9)


def gen(rng):
    dim = rng.choice([1, 1, 2])
    s = scenario.gen(rng, dim=dim, steps=8, mbc=999., calm=.15, dtmax=300., allow=['bedcomp', 'graindist2d'], accfac=1.,
                     scheme=rng.choice(['euler_backward', 'euler_backward', 'euler_forward']))
    s['shear'] = rng.random() < .8
    s['ne'] = None
    if dim == 1:
        s['nx'] = rng.randint(10, 40)
        s['alfa'] = rng.choice([0., 0., rnd(rng, -60, 60, 1), rnd(rng, -180, 180, 1)])
    else:
        s['nx'], s['ny'] = rng.randint(8, 16), rng.randint(6, 12)
    s['dx'] = rng.choice([.5, 1., 2.])
    s['dy'] = s['dx'] * (1. if dim == 1 else rng.choice([1., 1., .8, 2.]))
    s['sep'] = bool(s['shear'] and rng.random() < .5)
    s['bed'] = dict(s['bed'], slope=0., noise=0., dune=0.)
    s['extra'] = {'method_roughness': rng.choice(['constant', 'constant'] + METHODS), 'z': rng.choice([10., 10., 2.]),
                  'mu_b': rng.choice([30, 30, 15]), 'c_b': rng.choice([.2, .25]), 'L': rng.choice([100., 30.]), 'l': rng.choice([10., 10., 4.]),
                  'buffer_width': rng.choice([10, 10, 30]), 'kappa': rng.choice([.41, .41, .4]), 'sep_filter_iterations': rng.choice([0, 0, 1, 2])}
    beds = []
    along = None
    if dim == 2 and s['sep'] and rng.random() < .4:
        # a dune in a wind along the grid, now and then from behind
        s['nx'], s['ny'] = rng.randint(16, 26), rng.randint(6, 9)
        s['extra'].update(sep_filter_iterations=0)
        s['dy'] = s['dx']
        along = rng.random() < .5
        w = s['rot'] + (180. if along else 0.)
        w = (270. - w) % 360. if s['conv'] == 'nautical' else w % 360.
        s['wind'] = [[r[0], r[1], w] for r in s['wind']]
    smooth = dim == 2 and s['shear'] and not s['sep'] and rng.random() < .3
    if smooth:
        s['nx'], s['ny'] = rng.randint(14, 18), rng.randint(12, 16)
        s['dy'] = s['dx']
        s['extra'].update(method_roughness='constant')
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(['flat', 'rough', 'hill', 'hill', 'ridge', 'ridge', 'step'] + ['rough'] * (5 if s['sep'] and dim == 1 else 0))
        beds.append({'kind': k, 'seed': rng.randint(0, 10**6), 'z': rng.choice([0., 3., -2., 12.]), 'w': rng.choice([1.5, 2.5, 3.5]),
                     'h': rnd(rng, .02, .2, 3) if k != 'step' and rng.random() < (.4 if s['sep'] else .7) else rnd(rng, .3, 1.5, 2) + .0013})
    hist = []
    for b in beds:
        if along is not None and rng.random() < .8:
            b.update(kind='dune', back=along != (rng.random() < .1), h=rnd(rng, .02, 1., 2))
        if smooth and rng.random() < .8:
            b.update(kind='hill', w=rng.choice([1.5, 2.5]), h=rnd(rng, .02, .15, 3))
        hist.append(['bed', b])
        hist += [['step']] * rng.randint(1, 2)
        if rng.random() < .35:
            # the same sand elsewhere
            hist += [['shift', rng.choice(['mirror', 'roll', 'dune'])], ['step']]
    return {'s': s, 'seed': rng.randint(0, 10**6), 'hist': hist}


def roughness(s, p, mass, uw):
    """Roughness length of each cell."""
    k = s['extra']['method_roughness']
    gs = np.array(s['gs'])
    gd = np.atleast_1d(np.array(s['gd'] if s['gd2'] is None else s['gd2'], float))
    if k == 'constant':
        return s['k']
    if k == 'constant_nikuradse':
        return s['k'] / 30.
    if k == 'mean_grainsize_initial':
        top = gd[0] if gd.ndim == 2 else gd
        return (gs * top).sum() / top.sum() / 30.
    m = mass[:, :, 0, :]
    if np.any(m < 0):   # more than a layer exchanged in a step (C13)
        return None
    f = m / m.sum(axis=-1, keepdims=True)
    if k == 'mean_grainsize_adaptive':
        return (f * gs).sum(axis=-1) / 30.

    def d(x):
        out = np.empty(m.shape[:2])
        for i in np.ndindex(*out.shape):
            c = np.concatenate([[0.], np.cumsum(f[i]) / f[i].sum()])
            out[i] = np.interp(x / 100., c, np.concatenate([[0.], gs]))
        return out
    if k == 'median_grainsize_adaptive':
        return 2. * d(50) / 30.
    if s['gd2'] is None and s['nf'] == 1:
        d50 = gs[0]
        d90 = 2. * d50
    else:
        d50, d90 = d(50), d(90)
        if s['gd2'] is not None and s['nl'] == 1:
            return None
    us = s['extra']['kappa'] * uw / np.log(30. * s['extra']['z'] / d90)
    th = .1 * np.sqrt((2650. - 1.225) / 1.225 * 9.81 * d50)
    T = (us**2 - th**2) / th**2
    return (d90 + 15. * (T + 1.) * d50) / 30.


def profile(z, dx, onward):
    """Relative shear stress along a profile (wind to positive x or not)."""
    if not onward:
        z = z[::-1]
    n = len(z)
    sl = np.zeros(n)
    sl[1:-1] = (z[2:] - z[:-2]) / (2. * dx)
    i = np.arange(n)
    k = i[:, None] - i[None, :]
    w = np.where(k == 0, 0., 1. / np.where(k == 0, 1, k) / np.pi)
    r = np.maximum(1. + 3. * (w @ sl + sl), .1)
    return r if onward else r[::-1]


def twin(case, base, n, **kw):
    s = copy.deepcopy(case['s'])
    s['extra'].update(kw.pop('extra', {}))
    s.update(kw)
    return drive.bmi(scenario.materialise(s, os.path.join(base, 't%d' % n)))


def case_fn(case, d, tally):
    s = case['s']
    x = s['extra']
    m = drive.bmi(scenario.materialise(s, os.path.join(d, 'm')))
    two = s['dim'] == 2
    T = {}
    if s['shear'] and two and not s['sep']:
        T['half'] = twin(case, d, 1)
        w2 = [[r[0], 2. * r[1], r[2]] for r in s['wind']]
        if x['method_roughness'] != 'vanrijn_strypsteen':
            T['windy'] = twin(case, d, 2, wind=w2)
    if s['shear']:
        T['raised'] = twin(case, d, 0)
    if s['sep']:
        T['unseparated'] = twin(case, d, 3, sep=False)
        if two and x['sep_filter_iterations']:
            T['unfiltered'] = twin(case, d, 4, extra={'sep_filter_iterations': 0})
    g = lambda m, k: np.array(dict.__getitem__(m.s, k), copy=True)
    z = scenario.bed_array(s)
    steered = windy = 0
    bed = None
    last = max(n for n, h in enumerate(case['hist']) if h[0] == 'step')
    for n, h in enumerate(case['hist']):
        if h[0] == 'bed':
            bed = h[1]
            z = relief(s, bed).reshape(g(m, 'zb').shape)
            m.set_var('zb', z.copy())
            tally.fault('bed reshaped')
            continue
        if h[0] == 'shift':
            z = g(m, 'zb')
            if h[1] == 'mirror':
                z = z[:, ::-1].copy()
            elif h[1] == 'roll':
                z = np.roll(z, 3, axis=1)
            else:
                i = np.unravel_index(z.argmax(), z.shape)
                k = (i[0], (i[1] + 2) % z.shape[1])
                z[i], z[k] = z[k], z[i]
            m.set_var('zb', z)
            bed = dict(bed, kind='moved')
            tally.fault('sand moved elsewhere')
            continue
        for k, t in T.items():
            zz = g(m, 'zb')
            if k == 'raised':
                zz = zz + 7.25
            elif k == 'half':
                zz = zz.mean() + .5 * (zz - zz.mean())
            t.set_var('zb', zz)
            t.s['mass'][:] = g(m, 'mass')
            t.t = m.t
        zb, mass, t0 = g(m, 'zb'), g(m, 'mass'), m.t
        if n == last:
            T['fresh'] = twin(case, d, 5)
            T['fresh'].set_var('zb', zb.copy())
            T['fresh'].s['mass'][:] = mass
            T['fresh'].t = m.t
        drive.step(m, seed=case['seed'])
        for t in T.values():
            drive.step(t, seed=case['seed'])
        tally.steps += 1
        at = 'in the step at t=%r' % t0
        uw, uws, uwn = g(m, 'uw'), g(m, 'uws'), g(m, 'uwn')
        # law of the wall
        z0 = roughness(s, m.p, mass, uw)
        if z0 is not None:
            f = x['kappa'] / np.log(x['z'] / z0)
            for k, u in (('ustar0', np.hypot(uws, uwn)), ('ustars0', uws), ('ustarn0', uwn)):
                if k not in ('ustar0',) and two:
                    continue
                if not np.allclose(g(m, k), u * f, rtol=1e-7, atol=1e-12):
                    raise Viol('%s is %.6g instead of %.6g of the law of the wall over a roughness of %s m (%s) %s' % (
                        k, g(m, k).flat[0], (u * f).flat[0], np.unique(np.round(z0, 9))[:3], x['method_roughness'], at), 'law of the wall ' + k)
            tally.kind('law of the wall, ' + x['method_roughness'])
        us, s0 = g(m, 'ustar'), g(m, 'ustar0')
        tau, tau0 = g(m, 'tau'), g(m, 'tau0')
        if not (np.allclose(np.hypot(g(m, 'ustars'), g(m, 'ustarn')), us, rtol=1e-9, atol=1e-12) and
                np.allclose(np.hypot(g(m, 'taus'), g(m, 'taun')), tau, rtol=1e-9, atol=1e-12) and
                np.allclose(1.225 * us**2, tau, rtol=1e-9, atol=1e-12)):
            raise Viol('shear velocity and shear stress do not belong together %s' % at, 'consistent')
        if not np.any(uw):
            if np.any(us):
                raise Viol('there is shear without wind %s' % at, 'calm')
            continue
        windy += 1
        r = tau / tau0
        if 'fresh' in T and not (two and s['sep'] and np.any(g(m, 'hsep') > 1e-9)):   # where bubbles begin is decided by rounding in areas
            for k in ('ustar', 'ustars', 'ustarn') + (('zsep',) if s['sep'] else ()):
                q = g(T['fresh'], k)
                if not np.allclose(q, g(m, k), rtol=1e-6, atol=1e-6):
                    raise Viol('%s is %.6g instead of %.6g as in a new model with the same bed and wind, in the cell where they differ most, %s' % (
                        k, g(m, k).flat[np.abs(q - g(m, k)).argmax()], q.flat[np.abs(q - g(m, k)).argmax()], at), 'fresh ' + k)
            tally.kind('compared with a new model')
        if not s['shear']:
            if not np.allclose(r, 1., rtol=1e-9):
                raise Viol('shear differs from the undisturbed one without steering by relief %s' % at, 'unsteered')
            continue
        if np.ptp(r) > .01:
            steered += 1
        flat = np.ptp(zb) < 1e-7
        if flat:
            tally.kind('even bed')
            if not np.allclose(r, 1., rtol=1e-5 + (np.ptp(tau0) / tau0.min() if two else 0.), atol=1e-6 + 20 * np.ptp(zb)):
                raise Viol('an even bed at %.3g m changes the shear stress by a factor of %.5g to %.5g %s' % (
                    zb.mean(), r.min(), r.max(), at), 'even bed')
        if not two:
            s1 = profile(zb[0], s['dx'], g(m, 'uws').sum() >= 0)
            if s['sep']:
                hs = g(m, 'hsep')
                s1 = s1 * np.clip(1. - 10. * hs[0], 0., 1.)
            if not np.allclose(r[0], s1, rtol=1e-6, atol=1e-9):
                i = np.argmax(np.abs(r[0] - s1))
                raise Viol('shear stress changes by a factor of %.6g instead of %.6g in cell %d %s' % (r[0][i], s1[i], i, at), 'profile')
            tally.kind('profiles compared')
        if not two or np.ptp(r) < .3:
            cr = g(m, 'ustars') * uwn - g(m, 'ustarn') * uws
            dot = g(m, 'ustars') * uws + g(m, 'ustarn') * uwn
            if not two and (np.any(np.abs(cr) > 1e-9 * (1. + uw**2)) or np.any(dot < 0)):
                raise Viol('relief turns the shear of the profile %s' % at, 'turned')
        if 'raised' in T and not (two and s['sep'] and np.any(g(m, 'hsep') > 1e-9)):
            a = g(T['raised'], 'tau') / g(T['raised'], 'tau0')
            if not np.allclose(a, r, rtol=1e-6, atol=1e-6):
                raise Viol('raising the bed by 7.25 m changes the shear over it by up to %.4g of %.4g %s' % (np.abs(a - r).max(), np.ptp(r), at), 'raised')
        if 'windy' in T:
            a = g(T['windy'], 'tau') / g(T['windy'], 'tau0')
            if not np.allclose(a, r, rtol=1e-6, atol=1e-6):
                raise Viol('doubling the wind speed changes the relative shear by up to %.4g of %.4g %s' % (np.abs(a - r).max(), np.ptp(r), at), 'windy')
        if 'half' in T:
            tally.kind('areas compared')
            H = T['half']
            full = np.stack([g(m, 'taus') - g(m, 'taus0'), g(m, 'taun') - g(m, 'taun0')]) / tau0
            half = np.stack([g(H, 'taus') - g(H, 'taus0'), g(H, 'taun') - g(H, 'taun0')]) / g(H, 'tau0')
            # steps between cells that calm the wind altogether on the finer computational grid are out of question
            lim = .5 if bed['kind'] in ('hill', 'ridge') else .1
            if np.all(r > .3) and np.abs(full).max() < lim and np.ptp(tau0) < 1e-9 * tau0.min():
                if not np.allclose(half, .5 * full, rtol=1e-5, atol=1e-6):
                    raise Viol('relief of half the height changes the shear by %.5g instead of %.5g of its change %s' % (
                        np.abs(half).max() / max(np.abs(full).max(), 1e-12), .5, at), 'half')
                tally.kind('half the relief')
        if s['sep']:
            hs, zs = g(m, 'hsep'), g(m, 'zsep')
            if not np.allclose(zs, zb + hs, rtol=0, atol=1e-9):
                raise Viol('the separation surface is not its height above the bed %s' % at, 'zsep')
            if np.any(hs < -1e-9):
                raise Viol('the separation surface is %.4g m below the bed %s' % (hs.min(), at), 'separation below bed')
            if not two and not np.allclose(g(T['raised'], 'hsep'), hs, rtol=0, atol=1e-6):
                raise Viol('raising the bed by 7.25 m changes separation bubbles by up to %.4g m %s' % (
                    np.abs(g(T['raised'], 'hsep') - hs).max(), at), 'raised bubble')
            if 'unfiltered' in T:
                q = g(T['unfiltered'], 'hsep').max()
                if hs.max() > 2. * q + .05 or (q > 0) != (hs.max() > 0):
                    raise Viol('the filter turns separation bubbles of up to %.4g m into bubbles of up to %.4g m %s' % (q, hs.max(), at), 'filter')
                if q > 0:
                    tally.kind('filtered bubbles')
            steep = np.degrees(np.arctan(np.sqrt(sum(q**2 for q in slopes(zb, s))))).max()
            u = T['unseparated']
            H, tan = np.ptp(zb), np.tan(np.radians(steep))
            ls = min(max(1.5 * H / x['c_b'] * (1. + tan / x['c_b'] / 4. + (tan / x['c_b'])**2 / 8.), .1), 200.)
            if hs.max() > 1.05 * (H + .15 * tan * ls) + .01:
                raise Viol('there is a separation bubble of %.4g m over relief of %.4g m %s' % (hs.max(), H, at), 'height of bubble')
            if steep < x['mu_b'] * .9:
                if np.any(hs > 1e-9):
                    raise Viol('there is a separation bubble of %.4g m over slopes of up to %.1f degrees %s' % (hs.max(), steep, at), 'separation')
                if not np.allclose(g(u, 'tau'), tau, rtol=1e-9, atol=1e-12):
                    raise Viol('the process of separation changes shear without separation %s' % at, 'separation')
                tally.kind('gentle slopes')
            else:
                tally.kind('steep slopes')
            if two and bed['kind'] == 'dune':
                dune(s, x, m, zb, hs, tally, at)
            if np.any(hs > .01):
                tally.kind('separation bubbles')
                if two and np.any(tau[hs > .3] > .35 * tau0[hs > .3]):
                    k = np.argmax(np.where(hs > .3, tau / tau0, 0.))
                    tally.kind('shear below a bubble')
        tally.state(drive.digest(m))
        if bed['kind'] in ('ridge',) and two and not s['sep']:
            crest(s, m, r, tally, at)
        if bed['kind'] == 'hill' and two and not s['sep'] and x['method_roughness'] == 'constant':
            hill(s, x, bed, m, zb, tally, at)
    tally.runs += 1 + len(T)
    tally.simtime += m.t
    if steered >= 2 or (windy >= 2 and not s['shear']):
        tally.key = [skey(s), case['hist'], x['method_roughness']]


def slopes(z, s):
    out = [np.abs(np.diff(z, axis=1)).max() / s['dx']]
    if z.shape[0] > 1:
        out.append(np.abs(np.diff(z, axis=0)).max() / s['dy'])
    return out


def crest(s, m, r, tally, at):
    """Over a ridge across the wind, shear is highest next to the crest."""
    a = np.degrees(np.arctan2(float(np.asarray(m.s['uwn']).flat[0]), float(np.asarray(m.s['uws']).flat[0])))
    a = (a - s['rot'] + 180.) % 360. - 180.   # from world coordinates to those of the grid
    if min(abs(a), abs(abs(a) - 180.)) > 30.:
        return
    row = r[r.shape[0] // 2]
    c = len(row) // 2
    i = int(np.argmax(row))
    lo = min(row[:c].min(), row[c:].min())
    tally.kind('ridges')
    if not (abs(i - c) <= 3 and row.max() > 1. and lo < 1.):
        raise Viol('the shear over a ridge with its crest in cell %d is highest (%.4g) in cell %d and lowest with %.4g %s' % (
            c, row.max(), i, lo, at), 'crest')
    up = i <= c if abs(a) < 90. else i >= c
    if not up:
        tally.kind('highest shear behind the crest')


def along_wind(s, m):
    """Wind in the directions of the grid."""
    w = complex(float(np.asarray(m.s['uws']).flat[0]), float(np.asarray(m.s['uwn']).flat[0]))
    return w * np.exp(-1j * np.radians(s['rot']))


def dune(s, x, m, zb, hs, tally, at):
    """The bubble behind an even dune leaves its brink along the bed and reaches the ground where Sauermann has it."""
    w = along_wind(s, m)
    if abs(w.imag) > 1e-6 * abs(w) or abs(m.p['dx'] - s['dx']) > 1e-9 or np.ptp(zb, axis=0).max() > 1e-9:
        return
    j = zb.shape[0] // 2
    z, b = zb[j], hs[j]
    if w.real < 0:
        z, b = z[::-1], b[::-1]
    k = int(np.argmax(z))
    if not 4 <= k <= len(z) - 6 or z[k:].min() > z.min() + 1e-6 or np.any(np.diff(z[:k + 1]) < -1e-9):
        return
    dx, c = s['dx'], x['c_b']
    xs = np.arange(len(z)) * dx
    best = [np.abs(b).max()] if np.degrees(np.arctan(-(z[2:] - z[:-2]) / 2. / dx)).max() < x['mu_b'] + 1. else []
    xs = xs - xs[k]
    for off in np.linspace(0., 1., 21):
        # the grid of the computation lies anywhere between the cells
        xc = np.arange(-k - 1, len(z) + 20) * dx + off * dx
        zc = np.interp(xc, xs, z)
        for i in range(k, k + 4):
            H, sl = zc[i] - zc.min(), (zc[i] - zc[i - 3]) / (3. * dx)
            a = sl / c
            ls = min(max(1.5 * H / c * (1. + a / 4. + a * a / 8.), .1), 200.)
            q = (xc - xc[i]) / ls
            f = (2. * H + sl * ls) * q**3 - (3. * H + 2. * sl * ls) * q**2 + sl * ls * q + zc[i]
            f = np.where((q >= 0) & (q <= 1), np.maximum(f - zc, 0.), 0.)
            best.append(np.abs(np.interp(xs, xc, f) - b).max())
    tally.kind('bubble behind a dune')
    if min(best) > .06 * np.ptp(z):
        raise Viol('the separation bubble behind a dune of %.3g m is off by %.3g m %s' % (np.ptp(z), min(best), at), 'shape of bubble')


def hill(s, x, o, m, zb, tally, at):
    """The shear over a smooth hill far from the borders is that of Weng et al. (1991), to the coarseness of its wave numbers."""
    g = lambda k: np.asarray(dict.__getitem__(m.s, k))
    w = along_wind(s, m)
    wd = o['w'] * s['dx']
    X, Y = np.meshgrid(np.arange(s['nx'] + 1) * s['dx'], np.arange(s['ny'] + 1) * s['dy'])
    r = np.random.RandomState(o['seed'])
    cx, cy = X[0, X.shape[1] // 2] + r.uniform(-1, 1) * s['dx'], Y[Y.shape[0] // 2, 0]
    if min(cx, X.max() - cx, cy, Y.max() - cy) < 2.3 * wd or abs(s['dy'] - s['dx']) > 1e-9 or \
            np.abs(zb - relief(s, o)).max() > .05 * o['h'] * wd:   # the wind has moved it
        return
    N, D, z0 = 256, m.p['dx'], m.p['k']
    gx = (np.arange(N) - N // 2) * D
    P, Q = np.meshgrid(gx, gx)
    h = np.fft.fft2(np.fft.ifftshift(o['h'] * wd * np.exp(-(P**2 + Q**2) / wd**2 / 2.)))
    kx, ky = np.meshgrid(*2 * [2. * np.pi * np.fft.fftfreq(N, D)])
    L, l, hm = x['L'] / 4., x['l'], 1.
    for _ in range(5):
        l = 2. * .41**2 * L / np.log(l / z0)
        hm = L / np.sqrt(np.log(hm / z0))
    U = np.log(l / z0) / np.log(hm / z0)
    k = np.hypot(kx, ky)
    with np.errstate(all='ignore'):
        sg = np.sqrt(1j * L * kx * z0 / l)
        tx = h * kx**2 / k * 2. / U**2 * (-1. + (2. * np.log(l / z0) + k**2 / kx**2) * sg * kv(1, 2. * sg) / kv(0, 2. * sg))
        ty = h * kx * ky / k * 2. / U**2 * 2. * np.sqrt(2.) * sg * kv(1, 2. * np.sqrt(2.) * sg)
    e = w / abs(w)
    to = ((X - cx) + 1j * (Y - cy)) / e
    d = np.stack([to.imag, to.real], -1)
    ref = []
    for q in (tx, ty):
        q[~np.isfinite(q)] = 0.
        q = np.fft.fftshift(np.real(np.fft.ifft2(q)))
        ref.append(RegularGridInterpolator((gx, gx), q, bounds_error=False, fill_value=0.)(d))
    got = ((g('taus') - g('taus0')) + 1j * (g('taun') - g('taun0'))) / g('tau0') * np.exp(-1j * np.radians(s['rot'])) / e
    if got.real.min() < -.8 or ref[0].min() < -.6:
        return
    tally.kind('hills compared')
    for n, a, b, f in (('along', got.real, ref[0], .62), ('across', got.imag, ref[1], .5)):
        if np.abs(a - b).max() > f * np.abs(b).max():
            i = np.argmax(np.abs(a - b))
            raise Viol('the shear %s the wind changes by %.4g instead of some %.4g over a hill (up to %.4g) %s' % (
                n, a.flat[i], b.flat[i], np.abs(b).max(), at), 'hill ' + n)


execute = guarded(case_fn)


def _extra(case):
    hh = case['hist']
    for i in range(len(hh)):
        n = hh[:i] + hh[i + 1:]
        if n and n[0][0] == 'bed' and any(h[0] == 'step' for h in n):
            yield dict(case, hist=n)
    if case['s']['extra']['method_roughness'] != 'constant':
        yield dict(case, s=dict(case['s'], extra=dict(case['s']['extra'], method_roughness='constant')))


shrink = shrinker(_extra)
