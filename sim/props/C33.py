"""What is switched off, or has nothing to act on, leaves no trace."""
import os

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (2500, 80000)
RULE = ('one case = one seeded scenario run twice side by side: with other parameters, files and states for everything its configuration switches '
        'off or does not select (unused), with processes added that have nothing to act on (neutral), or with one of the main switches off (switch); '
        'time steps are shortened and the bed is moved by the simulator, in both alike; non-trivial when sediment moved; distinct by scenario '
        'structure, kind and what was changed')
ASSUMPTIONS = ['a non-erodible layer limits avalanches and dune erosion whether or not it raises the threshold (th_nelayer)']

NEUTRAL = ['avalanche', 'veg', 'fence', 'erosion', 'masks', 'ne', 'bedslope', 'moisture', 'mix', 'wave', 'separation', 'salt', 'shear']
SWITCH = ['process_bedupdate', 'process_transport', 'process_wind', 'process_threshold', 'th_grainsize']
# sand is put, states of what does not run are changed by others: name -> states that show it
VEGSTATES = ['rhoveg', 'hveg', 'germinate', 'lateral', 'vegfac', 'dhveg', 'drhoveg', 'vegetated']


def unused(rng, s):
    """Parameters (with other values) that do not matter for a scenario, files, and the states that only depend on these."""
    c = scenario.config(s)
    p, f, st = {}, {}, []

    def par(**k):
        p.update({a: rng.choice(b) for a, b in k.items()})

    def arr(lo, hi):
        return ['grid', rng.randint(0, 10**6), lo, hi]

    def ser(lo, hi):
        return ['series', scenario.gen_series(rng, s['tstop'], 0, 0, len(lo), lo, hi)]
    if not s['ava']:
        par(theta_dyn=[5., 20.], theta_stat=[6., 45.], max_iter_ava=[1, 7])
        st += ['theta_stat', 'theta_dyn']
    if not s['tide']:
        f['tide_file'] = ser([-1.], [3.])
        if not s['masks']:
            f['tide_mask'] = arr(.5, 2.)
    if not s['wave']:
        f['wave_file'] = ser([.1, 2.], [3., 12.])
        par(gamma=[.1, .9], xi=[.1, .9])
        if not s['masks']:
            f['wave_mask'] = arr(.5, 2.)
    if not s['runup']:
        f['runup_mask'] = arr(.5, 2.)
        par(beach_slope=[.01, .3])
    par(Cs=[.001, .1], dune_toe_elevation=[-5., 0., 9.])
    if not s['mix']:
        par(facDOD=[.01, .9])
    if not s['wetreset']:
        par(Tbedreset=[10., 1e7])
    if not s['moist']:
        par(Tdry=[10., 1e6], method_moist_process=['surf_moisture', 'infiltration'])
    if s['moist'] != 'surf_moisture':
        par(fc=[.01, .4], thick_moist=[.0001, .1], satw_moist=[.1, .6], satd_moist=[.1, .6], resd_moist=[0., .1], nw_moist=[1.5, 9.], nd_moist=[1.5, 9.],
            mw_moist=[.1, .9], md_moist=[.1, .9], alfaw_moist=[.001, .2], alfad_moist=[.001, .2], process_scanning=[True, False], cpair=[1e-4, 1.])
        if not s['thm']:
            par(resw_moist=[0., .1])
        f['meteo_file'] = ser([-5., 0., 0., 95., 10.], [40., 30., 20., 105., 100.])
    elif not s.get('scan'):
        pass
    if not s['thm']:
        par(method_moist_threshold=['hotta', 'chepil', 'saleh_fryrear', 'gregory_darwish', 'cornelis', 'dong_2002'], w1_5=[.001, .3])
    if not s['gw']:
        par(K_gw=[1e-6, .1], ne_gw=[.1, .9], D_gw=[1., 99.], tfac_gw=[1, 99], Cl_gw=[0., 9.], in_gw=[-9., 9.], GW_stat=[-9., 9.],
            boundary_gw=['no_flow', 'static'], process_seepage_face=[True, False])
        f['gw_mask'] = arr(.1, 3.)
    elif s.get('extra', {}).get('boundary_gw', 'no_flow') == 'no_flow':
        par(GW_stat=[-9., 9.])
    v = s['veg']
    if not v:
        par(hveg_max=[.1, 3.], dzb_opt=[-1., 2.], V_ver=[1., 20.], V_lat=[1., 9.], germinate=[.3, .9], lateral=[.3, .9], veg_gamma=[.1, 9.], veg_sigma=[.1, 3.],
            gamma_vegshear=[1., 50.], vegshear_type=['raupach', 'okin'], veggrowth_type=['orig', 'duranmoore14'], veg_min_elevation=[-9., 9.],
            avg_time=[60., 1e7], dzb_interval=[60, 1000], okin_c1_veg=[.1, .9], okin_initialred_veg=[0., .9])
        f['veg_file'] = arr(0., 1.)
        st += VEGSTATES + ['dzbavg']
    else:
        okin = v['shear'] == 'okin' and s['dim'] == 1
        if okin:
            par(gamma_vegshear=[1., 50.], veg_sigma=[.1, 3.])
        else:
            par(okin_c1_veg=[.1, .9], okin_initialred_veg=[0., .9])
        if v['type'] == 'orig':
            par(rhoveg_max=[.1, .9], t_veg=[.01, 99.], v_gam=[.1, 9.])
        if not v['lat'] and not v['germ']:
            pass
    if s['fence'] is None:
        f['fence_file'] = arr(0., 2.)
        par(okin_c1_fence=[.1, .9], okin_initialred_fence=[0., .9])
    if not s['shear']:
        par(L=[5., 500.], l=[1., 50.], buffer_width=[1, 50], process_separation=[True, False], c_b=[.05, .9], mu_b=[1, 50],
            sep_filter_iterations=[0, 3], zsep_y_filter=[True, False])
    else:
        if s['dim'] == 1:
            par(buffer_width=[1, 50], sep_filter_iterations=[0, 3], zsep_y_filter=[True, False])
        if not s['sep']:
            par(c_b=[.05, .9], mu_b=[1, 50], sep_filter_iterations=[0, 3], zsep_y_filter=[True, False])
    if s['ne'] is None and not s['ava']:
        f['ne_file'] = arr(-1., 5.)
        st += ['zne']
    if s['scheme'] != 'euler_forward':
        par(CFL=[.01, .1])
    elif s['solver'] == 'trunk':
        par(max_iter=[1, 3])
    for k, m in (('bagnold', 'Cb'), ('kawamura', 'Ck'), ('lettau', 'Cl'), ('dk', 'Cdk')):
        if s['mt'] != k:
            par(**{m: [.01, 77.]})
    if s['bc'][0] == 'constant' or s['bc'][0] in ('uniform', 'gradient'):
        if s['solver'] not in ('pieter', 'steadystatepieter'):
            par(offshore_flux=[0., .3, 2.])
    if s['bc'][1] in ('constant', 'uniform', 'gradient') and s['solver'] not in ('pieter', 'steadystatepieter'):
        par(onshore_flux=[0., .3, 2.])
    if 'flux' not in s['bc'][2]:
        par(lateral_flux=[.3, 2.])
    par(Tsalt=[60., 1e8], csalt=[.001, .9], sigma=[.1, 99.], beta=[1., 999.])
    if s['moist'] != 'surf_moisture' and not s['mix']:
        pass
    par(refdate=['1999-12-31 10:00'])
    return p, f, st


def gen(rng):
    kind = rng.choice(['unused'] * 5 + ['neutral'] * 4 + ['switch'] * 2)
    s = scenario.gen(rng, steps=6, allow=[a for a in ALL if a != 'stretch'] if kind != 'unused' else ALL + ['sep'], mbc=rng.choice([999., 999., .01]))
    if s['shear'] and s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 7), min(s['ny'], 3)
    case = {'s': s, 'seed': rng.randint(0, 10**6), 'kind': kind}
    hist = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .8:
            hist.append(['step', -1])
        elif r < .9:
            hist.append(['step', round(s['dt'] * rng.uniform(.1, 1.), 3)])
        else:
            hist.append(['bed', rng.randint(0, 10**6), rng.choice([.01, .05])])
    case['hist'] = hist + [['step', -1]]
    if kind == 'unused':
        p, f, st = unused(rng, s)
        names = sorted(p) + sorted(f)
        pick = names if rng.random() < .6 else rng.sample(names, min(len(names), rng.choice([1, 3, 8])))
        case['p'] = {k: v for k, v in p.items() if k in pick}
        case['f'] = {k: v for k, v in f.items() if k in pick}
        case['skip'] = st
        case['put'] = rng.random() < .4
    elif kind == 'neutral':
        ok = [n for n in NEUTRAL if able(s, n)]
        case['what'] = sorted(rng.sample(ok, min(len(ok), rng.choice([1, 1, 2, 4]))))
    else:
        case['what'] = rng.choice(SWITCH)
    return case


def able(s, n):
    flat = s['bed']['dune'] == 0.
    if n == 'avalanche':
        return not s['ava']
    if n == 'veg':
        return not s['veg']
    if n == 'fence':
        return s['fence'] is None and s['dim'] == 1
    if n == 'erosion':
        return bool(s['wave'] and s['tide'] and not s['ava'])
    if n == 'masks':
        return not s['masks']
    if n == 'ne':
        return s['ne'] is None and not s['ava']
    if n == 'moisture':
        return not s['moist'] and not s['tide']
    if n in ('mix', 'wave'):
        return not s['wave']
    if n == 'separation':
        return s['shear'] and not s['sep'] and flat
    return False


def extras(s, what):
    """Configuration, files and states concerned of processes with nothing to act on."""
    c, f, st = {}, {}, []
    zmin, zmax = -20., 40.
    for n in what:
        if n == 'avalanche':
            c.update(process_avalanche=True, theta_stat=89., theta_dyn=88.)
            st += ['theta_stat', 'theta_dyn', 'gradh', 'slopes']
        elif n == 'veg':
            c.update(process_vegetation=True, germinate=0., lateral=0., vegshear_type='raupach' if s['dim'] == 2 or s['seed_veg'] else 'okin', V_ver=5.)
            f['veg_file'] = ['grid', 0, 0., 0.]
            st += VEGSTATES + ['gradh', 'slopes']
        elif n == 'fence':
            c.update(process_fences=True)
            f['fence_file'] = ['grid', 0, 0., 0.]
            st += ['fence_height', 'fence_base', 'fence', 'fence_height_init', 'fence_top']
        elif n == 'erosion':
            c.update(process_dune_erosion=True, dune_toe_elevation=zmax)
        elif n == 'masks':
            for k in ('tide_mask', 'wave_mask', 'runup_mask', 'threshold_mask', 'gw_mask'):
                f[k] = ['grid', 0, 1., 1.]
            st += list(f)
        elif n == 'ne':
            c.update(th_nelayer=True)
            f['ne_file'] = ['grid', 0, zmin, zmin]
            st += ['zne']
        elif n == 'moisture':
            c.update(th_moisture=True)
        elif n == 'mix':
            c.update(process_mixtoplayer=True)
        elif n == 'wave':
            c.update(process_wave=True)
            f['wave_file'] = ['series', [[0., 0., 5.], [1e7, 0., 5.]]]
            st += ['Tp']
        elif n == 'separation':
            c.update(process_separation=True, mu_b=80)
            st += ['zsep', 'hsep', 'zsepdelta']
    return c, f, st


def build(s, d, c=None, f=None):
    """A model with other parameters and files."""
    s = dict(s, extra=dict(s.get('extra', {}), **(c or {})))
    ff = {}
    shape = (s['ny'] + 1, s['nx'] + 1)
    for k, v in (f or {}).items():
        ff[k] = k + '.txt'
    s['extra'].update(ff)
    cfg = scenario.materialise(s, d)
    for k, v in (f or {}).items():
        if v[0] == 'grid':
            a = np.round(np.random.RandomState(v[1]).uniform(v[2], v[3], shape), 4)
            a = a if s['dim'] == 2 else a[0]
        else:
            a = np.array(v[1], float)
        np.savetxt(os.path.join(d, ff[k]), a, fmt='%.8f')
    return drive.bmi(cfg)


def act(h, s, ms, seed):
    if h[0] == 'bed':
        r = np.random.RandomState(h[1])
        e = h[2] * r.uniform(-1, 1, (s['ny'] + 1, s['nx'] + 1))
        for m in ms:
            m.set_var('zb', np.array(m.get_var('zb')) + e)
        return
    for m in ms:
        drive.step(m, h[1], seed=seed)


RESULTS = ['zb', 'mass', 'Ct', 'Cu', 'Cu0', 'pickup', 'qs', 'qn', 'uth', 'uth0', 'ustar', 'ustars', 'ustarn', 'ustar0', 'tau', 'taus', 'taun', 'u', 'us', 'un', 'uw', 'udir',
           'SWL', 'Hs', 'R', 'moist', 'gw', 'salt', 'w', 'w_air', 'w_bed', 'rhoveg', 'hveg', 'fence_height', 'dzb', 'masstop', 'zne', 'zsep', 'hsep']


def differs(a, b, skip):
    return drive.diff(drive.Snap(a), drive.Snap(b), skip=skip)


def results_differ(a, b, skip, rtol):
    """First result that differs by more than rounding."""
    if abs(a.t - b.t) > rtol * a.t:
        return 'time %r != %r' % (a.t, b.t)
    for k in RESULTS:
        if k in skip or k not in a.s or k not in b.s or rtol and k in ('w_air', 'w_bed'):
            continue
        x, y = np.asarray(a.s[k], float), np.asarray(b.s[k], float)
        fin = np.isfinite(x)
        if rtol and k in ('ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun'):
            # a floor keeps the shear velocity in reach of vegetation and fences above .01 m/s
            x, y = (np.where(np.abs(v) < (.0101 if k[0] == 'u' else 1.3e-4), 0., v) for v in (x, y))
        if x.shape != y.shape or np.any(fin != np.isfinite(y)) or not np.allclose(x[fin], y[fin], rtol=rtol, atol=rtol * (1e-3 + np.abs(x[fin]).max(initial=0.)) if rtol else 0.):
            with np.errstate(all='ignore'):
                return 'variable %s differs at t=%r (max abs difference %.6g)' % (k, a.t, np.nanmax(np.abs(x - y)) if x.shape == y.shape else np.nan)


def case_fn(case, d, tally):
    s = dict(case['s'], seed_veg=case['seed'] % 2)
    kind = case['kind']
    z0 = None
    moved = 0.
    if kind == 'switch':
        return switch(case, s, d, tally)
    a = build(s, os.path.join(d, 'a'))
    if kind == 'unused':
        b = build(s, os.path.join(d, 'b'), case['p'], case['f'])
        skip = case['skip'] + list(case['f'])
        name = ', '.join(sorted(case['p']) + sorted(case['f']))
        name = name if len(name) < 80 else '%d parameters and files' % (len(case['p']) + len(case['f']))
    else:
        c, f, skip = extras(s, case['what'])
        rtol = 1e-7 if {'veg', 'fence', 'separation'} & set(case['what']) else 0.
        b = build(s, os.path.join(d, 'b'), c, f)
        name = ', '.join(case['what'])
    skip = set(skip)
    for h in case['hist']:
        m0 = np.array(a.s['mass'])
        if kind == 'unused' and case['put'] and not s['veg']:
            r = np.random.RandomState(case['seed'])
            for k in ('rhoveg', 'hveg'):
                b.set_var(k, r.uniform(0, 1, a.s['zb'].shape))
            tally.fault('unused states changed')
        if h[0] == 'bed':
            tally.fault('bed moved')
        act(h, s, (a, b), case['seed'])
        e = differs(a, b, skip) if kind == 'unused' else results_differ(a, b, skip, rtol)
        if e:
            raise Viol(('%s, which should not matter, matters: %s' if kind == 'unused' else 'with nothing to act on, %s leaves a trace: %s') % (name, e), 'trace')
        tally.steps += h[0] == 'step'
        moved = max(moved, np.abs(np.array(a.s['mass']) - m0).max())
    tally.simtime += a.t
    tally.runs += 2
    tally.kind(kind)
    for k in case.get('what', []):
        tally.kind(k)
    tally.state(drive.digest(a))
    if moved > 0:
        tally.key = [skey(s), kind, sorted(case.get('p', {})), sorted(case.get('f', {})), case.get('what'), len(case['hist'])]


def switch(case, s, d, tally):
    k = case['what']
    s = dict(s, ava=False, extra=dict(s.get('extra', {})))
    if k in ('process_threshold', 'th_grainsize') and s['extra'].get('method_grainspeed', 'duran') == 'duran':
        # the speed of grains by Duran is not defined where grains move without any threshold
        s['extra']['method_grainspeed'] = 'windspeed'
    a = build(s, os.path.join(d, 'a'))
    b = build(s, os.path.join(d, 'b'), {k: False})
    g = lambda m, v: np.array(dict.__getitem__(m.s, v), copy=True)
    moved = 0.
    for h in case['hist']:
        z, m, c = g(b, 'zb'), g(b, 'mass'), g(b, 'Ct')
        t = b.t
        first = t == 0.
        act(h, s, (a, b), case['seed'])
        if h[0] == 'bed':
            tally.fault('bed moved')
            continue
        at = 'in the step at t=%r' % t
        moved = max(moved, np.abs(g(a, 'pickup')).max())
        if k in ('process_bedupdate', 'process_transport', 'process_wind') and not s['wetreset'] and np.any(g(b, 'zb') != z):
            raise Viol('the bed moves by up to %.3g m %s although %s is off' % (np.abs(g(b, 'zb') - z).max(), at, k), k)
        if k == 'process_bedupdate' and first and a.t == b.t:
            e = differs(a, b, {'zb', 'zs', 'dzb', 'dzbyear', 'dzbavg', 'dzbveg'} | set(VEGSTATES))
            if e and not s['wetreset']:
                raise Viol('without updates of the bed something else changed too %s: %s' % (at, e), k)
        if k == 'process_transport' and np.any(g(b, 'Cu') != 0.):
            raise Viol('a concentration of up to %.3g kg/m2 could be carried %s although transport is off' % (g(b, 'Cu').max(), at), k)
        if k in ('process_transport', 'process_wind'):
            if np.any(g(b, 'Ct') != 0.) or np.any(g(b, 'pickup') != 0.):
                raise Viol('sediment is picked up %s although %s is off' % (at, k), k)
            if not s['mix'] and np.abs(g(b, 'mass') - m).max() > 1e-9 * np.abs(m).max():
                raise Viol('sediment in the bed changes %s although %s is off' % (at, k), k)
        if k == 'process_wind' and (np.any(g(b, 'uw') != 0.) or not s['veg'] and s['fence'] is None and np.any(g(b, 'ustar') != 0.)):
            raise Viol('wind blows %s although it is off' % at, k)
        if k == 'process_threshold' and s['ne'] is None and np.any(g(b, 'uth') != 0.):
            raise Viol('a threshold of up to %.3g m/s %s although thresholds are off' % (g(b, 'uth').max(), at), k)
        if k == 'th_grainsize' and s['ne'] is None and not s['thm'] and not s['tide'] and np.any(g(b, 'uth') != 0.):
            raise Viol('a threshold of up to %.3g m/s %s although no process sets any' % (g(b, 'uth').max(), at), k)
        if k in ('process_threshold', 'th_grainsize') and first and np.any(g(b, 'uth') > g(a, 'uth')):
            raise Viol('the threshold is higher %s without %s' % (at, k), k)
        tally.steps += 1
    tally.simtime += b.t
    tally.runs += 2
    tally.kind(k)
    tally.state(drive.digest(b))
    if moved > 0:
        tally.key = [skey(s), k, len(case['hist'])]


execute = guarded(case_fn)


def _extra(case):
    hh = case['hist']
    for i in range(len(hh)):
        n = hh[:i] + hh[i + 1:]
        if any(h[0] == 'step' for h in n):
            yield dict(case, hist=n)
    for k in ('p', 'f'):
        q = case.get(k) or {}
        names = sorted(q)
        if len(names) > 1:
            h = len(names) // 2
            yield dict(case, **{k: {n: q[n] for n in names[:h]}})
            yield dict(case, **{k: {n: q[n] for n in names[h:]}})
        if names:
            for n in names:
                yield dict(case, **{k: {m: q[m] for m in names if m != n}})
    if case['kind'] == 'neutral' and len(case['what']) > 1:
        for n in case['what']:
            yield dict(case, what=[w for w in case['what'] if w != n])


def shrink(case, *a):
    # a reduced scenario may switch off what the changed parameters belong to; only the history and the changes are reduced
    for c in _extra(case):
        yield c
