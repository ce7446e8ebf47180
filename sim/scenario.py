"""Seeded scenario generator: small but complete AeoLiS models.

A scenario is a flat JSON-able dict; `materialise` writes the config file and
the grid / forcing files it refers to.  Nothing here imports aeolis.
"""
import math
import os
import random

import numpy as np


def rnd(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


# ------------------------------------------------------------ generation
def gen_wind(rng, tstop, calm=0.25, gust=0.2, twod=False, base=None):
    """[t, speed, dir] rows covering [0, tstop]; calm spells, gusts, veering."""
    n = rng.randint(2, 6)
    rows = []
    d0 = base if base is not None else rng.choice([270., 270., 250., 300., 225., 90., 45., 0.])
    sp = rng.uniform(7, 14)
    for i in range(n):
        r = rng.random()
        if r < calm:
            u = 0.
        elif r < calm + gust:
            u = rnd(rng, 15, 24, 2)
        else:
            u = rnd(rng, max(3, sp - 3), sp + 3, 2)
        d = d0 if rng.random() < .5 else round((d0 + rng.uniform(-40, 40)) % 360., 1)
        rows.append([round(tstop * i / (n - 1.) * rng.choice([1, 1, 1.3]), 1) if i else 0., u, d])
    rows.sort()
    # strictly increasing times
    out = [rows[0]]
    for r in rows[1:]:
        if r[0] <= out[-1][0]:
            r[0] = out[-1][0] + 10.
        out.append(r)
    if all(r[1] == 0. for r in out):
        out[-1][1] = 11.
    return out


def gen_series(rng, tstop, lo, hi, ncol=1, los=None, his=None):
    n = rng.randint(2, 6)
    rows = []
    t = 0.
    for i in range(n):
        row = [round(t, 1)]
        if los is None:
            row += [rnd(rng, lo, hi) for _ in range(ncol)]
        else:
            row += [rnd(rng, a, b) for a, b in zip(los, his)]
        rows.append(row)
        t += rng.uniform(.1, .5) * max(tstop, 60.)
    return rows


def gen(rng, dim=None, procs=None, scheme=None, solver=None, calm=0.25,
        steps=None, accfac=None, allow=(), nf=None, mbc=None, dt=None, dtmax=None):
    """A random scenario.  `allow`: optional feature groups this property wants.

    Feature groups: tide wave runup moist gw mix wetreset avalanche veg fence
    ne shear sep bedcomp graindist2d mask salt
    """
    allow = set(allow)

    def on(k, p=.5):
        return k in allow and rng.random() < p

    s = {}
    s['dim'] = dim or rng.choice([1, 1, 1, 2])
    if s['dim'] == 1:
        s['nx'] = rng.randint(8, 24)
        s['ny'] = 0
    else:
        s['nx'] = rng.randint(6, 12)
        s['ny'] = rng.randint(3, 6)
    s['dx'] = rng.choice([.5, 1., 2., 5.])
    s['dy'] = s['dx'] if s['dim'] == 1 or rng.random() < .5 else s['dx'] * rng.choice([.5, .8, 2.])
    s['rot'] = 0. if s['dim'] == 1 or rng.random() < .5 else rng.choice([rnd(rng, -30, 30, 1), rnd(rng, -180, 180, 1), 90., 180.])
    s['alfa'] = 0. if rng.random() < .6 else rnd(rng, -60, 60, 1)
    s['bed'] = {'seed': rng.randint(0, 10**6), 'slope': rnd(rng, 0., .08, 4),
                'z0': rnd(rng, -1., 1., 2), 'noise': rng.choice([0., .01, .05]),
                'dune': rng.choice([0., 0., .5, 1.5, 3.]), 'dunew': rng.choice([2, 3, 5])}
    s['nf'] = nf or rng.choice([1, 1, 2, 3])
    s['nl'] = rng.choice([1, 2, 3, 4])
    s['lt'] = rng.choice([.001, .005, .01, .05])
    gs = sorted(rng.sample([.0002, .00025, .0003, .0004, .0005, .0008, .002], s['nf']))
    s['gs'] = gs
    s['gd'] = [rnd(rng, .1, 1., 2) for _ in range(s['nf'])]
    s['gd2'] = None
    s['bedcomp'] = None
    if on('graindist2d', .25) and s['nl'] > 1 and s['nf'] > 1:
        s['gd2'] = [[rnd(rng, .1, 1., 2) for _ in range(s['nf'])] for _ in range(s['nl'])]
    elif on('bedcomp', .2):
        s['bedcomp'] = rng.randint(0, 10**6)
    s['scheme'] = scheme or rng.choice(['euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward'])
    s['solver'] = solver or rng.choice(['trunk', 'trunk', 'trunk', 'steadystate', 'pieter', 'steadystatepieter'])
    dts = [1., 5., 20., 60., 300., 900., 3600.]
    if dtmax:
        dts = [d for d in dts if d <= dtmax]
    s['dt'] = dt or rng.choice(dts)
    if s['scheme'] == 'euler_forward':
        s['dt'] = min(s['dt'], 60.)
    steps = steps or rng.randint(5, 20)
    s['tstart'] = 0.
    s['steps'] = steps
    s['tstop'] = round(s['dt'] * steps, 3)
    if s['scheme'] == 'euler_forward':
        s['tstop'] = round(min(s['dt'], .1 * s['dx']) * steps, 3)
    s['accfac'] = accfac if accfac is not None else rng.choice([1., 1., 1., 2., 10.])
    s['tstop'] = round(s['tstop'] * s['accfac'], 3)
    s['CFL'] = rng.choice([1., .8, .5])
    s['mbc'] = mbc if mbc is not None else (rng.choice([.001, .01, .05]) if rng.random() < .2 else 999.)
    s['out'] = {'times': round(rng.choice([1, 1, 2, 3, 2.5]) * s['dt'] * s['accfac'], 3)}
    s['wind'] = gen_wind(rng, s['tstop'], calm=calm, twod=s['dim'] == 2)
    s['conv'] = rng.choice(['nautical', 'nautical', 'cartesian'])
    s['k'] = rng.choice([.0001, .001, .003])
    s['T'] = rng.choice([1., 1., .5, 3.])
    s['bi'] = rng.choice([1., 1., .5, .05])
    s['mt'] = rng.choice(['bagnold', 'bagnold', 'kawamura', 'lettau', 'dk'])
    s['mg'] = rng.choice(['windspeed', 'windspeed', 'duran', 'constant'])
    if s['solver'] in ('pieter', 'steadystatepieter'):
        s['bc'] = ['constant', 'constant', 'circular']
    else:
        s['bc'] = [rng.choice(['constant', 'flux', 'uniform', 'gradient']),
                   rng.choice(['gradient', 'constant', 'uniform', 'flux']),
                   rng.choice(['circular', 'circular', 'constant'])]
    s['oflux'] = rng.choice([0., 0., .5, 1.])
    s['nflux'] = rng.choice([0., 0., .5])
    s['tide'] = gen_series(rng, s['tstop'], -1., 1.5) if on('tide') else None
    s['wave'] = gen_series(rng, s['tstop'], 0, 0, 2, [.1, 3.], [3., 12.]) if on('wave') else None
    s['runup'] = bool(s['wave'] and s['tide'] and on('runup', .8))
    s['moist'] = None
    s['gw'] = False
    if s['runup'] and on('moist', .7):
        s['moist'] = 'infiltration'
        if 'gw' in allow and s['dt'] >= 60. and s['scheme'] != 'euler_forward' and \
                s['mbc'] == 999. and rng.random() < .5:
            s['moist'] = 'surf_moisture'
            s['gw'] = True
            # groundwater needs a shoreline inside the domain and an explicit
            # time step that is stable for the Boussinesq equation
            s['dx'], s['dy'] = resize(s, rng.choice([2., 5.]))
            s['dt'] = min(s['dt'], 300. if s['dx'] == 2. else 900.)
            s['tstop'] = round(s['dt'] * steps * s['accfac'], 3)
            s['out']['times'] = round(s['dt'] * s['accfac'] * rng.choice([1, 1, 2, 2.5]), 3)
            s['wind'] = gen_wind(rng, s['tstop'], calm=calm, twod=s['dim'] == 2)
            s['bed'] = dict(s['bed'], z0=-2., slope=round(rng.uniform(5.5, 8.) / (s['nx'] * s['dx']), 4), noise=.01, dune=0.)
            s['tide'] = gen_series(rng, s['tstop'], -.6, .6)
            s['wave'] = gen_series(rng, s['tstop'], 0, 0, 2, [.1, 3.], [1., 8.])
            s['scan'] = rng.random() < .5
            s['meteo'] = gen_series(rng, s['tstop'], 0, 0, 5,
                                    [2., 0., 0., 100., 40.], [25., 20., 3., 103., 95.])
    s['mix'] = bool(s['runup'] and on('mix'))
    s['wetreset'] = bool(s['tide'] and on('wetreset'))
    s['ava'] = on('avalanche')
    if s['ava'] and rng.random() < .5:
        s['bed']['dune'] = rng.choice([3., 5., 8.])
        s['bed']['dunew'] = 2
    s['veg'] = None
    if on('veg'):
        s['veg'] = {'seed': rng.randint(0, 10**6), 'type': rng.choice(['orig', 'duranmoore14']),
                    'germ': rng.choice([0., .5, .99]), 'lat': rng.choice([0., .5, .99]),
                    'vver': rng.choice([0., 1., 10.]), 'zmin': rng.choice([-5., 0., .5]),
                    'shear': rng.choice(['raupach', 'okin'])}
    s['ne'] = None
    if on('ne', .4):
        s['ne'] = rnd(rng, .0, .2, 3)
    s['fence'] = None
    if on('fence', .3) and s['dim'] == 1:
        s['fence'] = rng.randint(2, s['nx'] - 3)
    s['shear'] = bool(on('shear'))
    s['sep'] = bool(s['shear'] and on('sep') and s['dim'] == 2)
    s['masks'] = None
    if on('mask', .3):
        s['masks'] = {'seed': rng.randint(0, 10**6),
                      'which': sorted(rng.sample(['tide', 'wave', 'threshold'], rng.randint(1, 2)))}
    s['hot'] = None
    if 'hot' in allow and rng.random() < .3:
        s['hot'] = {'seed': rng.randint(0, 10**6), 'which': sorted(rng.sample(HOT, rng.randint(1, 2)))}
    s['thm'] = bool(s['moist'] and rng.random() < .5)
    s['thslope'] = rng.random() < .15
    s['vars'] = ['zb', 'zs', 'Ct', 'Cu', 'uw', 'udir', 'mass', 'pickup', 'w', 'qs']
    s['types'] = []
    s['restart'] = None
    # cells of different widths: the model only knows these in a single profile
    if 'stretch' in allow and s['dim'] == 1 and not s['shear'] and not s['gw'] and rng.random() < .4:
        s['stretch'] = {'seed': rng.randint(0, 10**6), 'amp': rng.choice([.1, .3, .6])}
    return s


HOT = ['zb', 'moist', 'uth', 'rhoveg', 'mass', 'Hs', 'zs', 'Ct', 'uw']


def hot_array(s, var):
    """Contents of the hotstart file of a variable."""
    r = np.random.RandomState((s['hot']['seed'] + HOT.index(var)) % 2**31)
    ny, nx, nl, nf = s['ny'] + 1, s['nx'] + 1, s['nl'], s['nf']
    if var == 'zb':
        return np.round(bed_array(s) + r.uniform(-.02, .02, (ny, nx)), 6)
    if var == 'mass':
        m = r.uniform(.1, 1., (ny, nx, nl, nf))
        return np.round(m / m.sum(axis=3, keepdims=True) * 2650. * .6 * s['lt'], 6)
    if var in ('uth', 'Ct'):
        return np.round(r.uniform(.1, .35, (ny, nx, nf)) * (1. if var == 'uth' else .01), 6)
    lo, hi = {'moist': (0., .08), 'rhoveg': (0., .4), 'Hs': (0., 2.), 'zs': (-2., .5), 'uw': (0., 14.)}[var]
    return np.round(r.uniform(lo, hi, (ny, nx)), 6)


def resize(s, dx):
    return dx, round(s['dy'] / s['dx'] * dx, 6)


# --------------------------------------------------------- materialising
def bed_array(s):
    b = s['bed']
    nxp, nyp = s['nx'] + 1, s['ny'] + 1
    r = np.random.RandomState(b['seed'])
    x = positions(s)
    z = b['z0'] + b['slope'] * x
    if b['dune']:
        c = x[int(nxp * .6)]
        z = z + b['dune'] * np.exp(-((x - c) / (b['dunew'] * s['dx']))**2)
    z = np.repeat(z[None, :], nyp, axis=0)
    z = z + b['noise'] * r.uniform(-1, 1, z.shape)
    return np.round(z, 6)


def positions(s):
    """Positions of the cells along the profile."""
    nxp = s['nx'] + 1
    x = np.arange(nxp) * s['dx']
    if s.get('stretch'):
        r = np.random.RandomState(s['stretch']['seed'])
        w = s['dx'] * (1. + s['stretch']['amp'] * r.uniform(-1., 1., nxp - 1))
        x = np.round(np.concatenate([[0.], np.cumsum(w)]), 4)
    return x


def grid_arrays(s):
    nyp = s['ny'] + 1
    X, Y = np.meshgrid(positions(s), np.arange(nyp) * s['dy'])
    if s['rot']:
        a = math.radians(s['rot'])
        X, Y = X * math.cos(a) - Y * math.sin(a), X * math.sin(a) + Y * math.cos(a)
    return X, Y


def fmtv(v):
    if v is None:
        return ''
    if isinstance(v, bool):
        return 'T' if v else 'F'
    if isinstance(v, (list, tuple)):
        return ' '.join(fmtv(x) for x in v)
    if isinstance(v, int):
        return '%d' % v
    if isinstance(v, float):
        t = '%.10f' % v
        return t.rstrip('0') + ('0' if t.rstrip('0').endswith('.') else '')
    return str(v)


def config(s):
    c = {}
    c['xgrid_file'] = 'x.grd'
    c['bed_file'] = 'z.grd'
    c['ny'] = s['ny']
    c['nx'] = s['nx']
    c['dx'] = s['dx']
    c['dy'] = s['dy']
    if s['dim'] == 2:
        c['ygrid_file'] = 'y.grd'
    c['alfa'] = s['alfa']
    c['wind_file'] = 'wind.txt'
    c['wind_convention'] = s['conv']
    c['nlayers'] = s['nl']
    c['layer_thickness'] = s['lt']
    c['grain_size'] = s['gs']
    c['grain_dist'] = s['gd'] if s['gd2'] is None else 'gd.txt'
    if s['bedcomp'] is not None:
        c['bedcomp_file'] = 'bedcomp.txt'
    c['scheme'] = s['scheme']
    c['solver'] = s['solver']
    c['dt'] = s['dt']
    c['tstart'] = s['tstart']
    c['tstop'] = s['tstop']
    c['accfac'] = s['accfac']
    c['CFL'] = s['CFL']
    c['max_bedlevel_change'] = s['mbc']
    c['output_times'] = s['out']['times']
    c['output_vars'] = s['vars']
    if s['types']:
        c['output_types'] = s['types']
    if s.get('output_file'):
        c['output_file'] = s['output_file']
    if s['restart']:
        c['restart'] = s['restart']
    c['k'] = s['k']
    c['T'] = s['T']
    c['bi'] = s['bi']
    c['method_transport'] = s['mt']
    c['method_grainspeed'] = s['mg']
    c['boundary_offshore'], c['boundary_onshore'], c['boundary_lateral'] = s['bc']
    c['offshore_flux'] = s['oflux']
    c['onshore_flux'] = s['nflux']
    c['process_avalanche'] = s['ava']
    c['max_iter_ava'] = 200
    c['process_mixtoplayer'] = s['mix']
    c['process_wet_bed_reset'] = s['wetreset']
    c['process_shear'] = s['shear']
    c['process_separation'] = s['sep']
    c['th_bedslope'] = s['thslope']
    c['max_iter'] = s.get('max_iter', 100)
    if s['tide']:
        c['process_tide'] = True
        c['tide_file'] = 'tide.txt'
    if s['wave']:
        c['process_wave'] = True
        c['wave_file'] = 'wave.txt'
    c['process_runup'] = s['runup']
    if s['moist']:
        c['process_moist'] = True
        c['method_moist_process'] = s['moist']
        c['th_moisture'] = s['thm']
    if s['gw']:
        c['process_groundwater'] = True
        c['process_scanning'] = s.get('scan', False)
        c['process_meteo'] = True
        c['meteo_file'] = 'meteo.txt'
        c['in_gw'] = 0
    if s['veg']:
        v = s['veg']
        c['process_vegetation'] = True
        c['veg_file'] = 'veg.grd'
        c['veggrowth_type'] = v['type']
        c['germinate'] = v['germ']
        c['lateral'] = v['lat']
        c['V_ver'] = v['vver']
        c['veg_min_elevation'] = v['zmin']
        c['vegshear_type'] = v['shear']
        c['avg_time'] = 86400.
    if s['ne'] is not None:
        c['th_nelayer'] = True
        c['ne_file'] = 'ne.grd'
    if s['fence'] is not None:
        c['process_fences'] = True
        c['fence_file'] = 'fence.grd'
    if s['masks']:
        for w in s['masks']['which']:
            c[w + '_mask'] = w + '_mask.txt'
    c.update(s.get('extra', {}))
    return c


def materialise(s, d):
    """Writes the scenario into directory d; returns the config path."""
    os.makedirs(d, exist_ok=True)

    def sv(n, a):
        np.savetxt(os.path.join(d, n), a, fmt='%.13f' if n in ('x.grd', 'y.grd') else '%.8f')
    z = bed_array(s)
    X, Y = grid_arrays(s)
    if s['dim'] == 1:
        sv('x.grd', X[0])
        sv('z.grd', z[0])
    else:
        sv('x.grd', X)
        sv('y.grd', Y)
        sv('z.grd', z)
    sv('wind.txt', np.array(s['wind'], dtype=float))
    if s['tide']:
        sv('tide.txt', np.array(s['tide'], dtype=float))
    if s['wave']:
        sv('wave.txt', np.array(s['wave'], dtype=float))
    if s.get('meteo'):
        sv('meteo.txt', np.array(s['meteo'], dtype=float))
    if s['gd2'] is not None:
        sv('gd.txt', np.array(s['gd2'], dtype=float))
    if s['bedcomp'] is not None:
        r = np.random.RandomState(s['bedcomp'])
        m = r.uniform(.1, 1., (z.size, s['nl'], s['nf']))
        m = m / m.sum(axis=2, keepdims=True) * 2650. * .6 * s['lt']
        sv('bedcomp.txt', m.reshape((-1, s['nl'] * s['nf'])))
    if s['veg']:
        r = np.random.RandomState(s['veg']['seed'])
        v = r.uniform(0, .6, z.shape) * (r.uniform(0, 1, z.shape) < s['veg'].get('cover', .4))
        if s['veg'].get('uniform') is not None:
            v = np.full(z.shape, s['veg']['uniform'])
        sv('veg.grd', v if s['dim'] == 2 else v[0])
    if s['ne'] is not None:
        sv('ne.grd', (z - s['ne']) if s['dim'] == 2 else (z - s['ne'])[0])
    if s['fence'] is not None:
        f = np.zeros(z.shape)
        for j0, j1, i, h in ([[0, z.shape[0], s['fence'], 1.]] if isinstance(s['fence'], int) else s['fence']):
            f[j0:j1 + 1, i] = h
        sv('fence.grd', f if s['dim'] == 2 else f[0])
    if s['masks']:
        r = np.random.RandomState(s['masks']['seed'])
        for w in s['masks']['which']:
            m = np.round(r.uniform(.5, 1., z.shape), 3)
            sv(w + '_mask.txt', m if s['dim'] == 2 else m[0])
    for v in (s.get('hot') or {}).get('which', []):
        sv(v + '.hotstart', hot_array(s, v).reshape((-1, hot_array(s, v).shape[-1])))
    p = os.path.join(d, 'aeolis.txt')
    with open(p, 'w') as fp:
        for k, v in config(s).items():
            fp.write('%s = %s\n' % (k, fmtv(v)))
    return p
