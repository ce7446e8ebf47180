"""Input that cannot be read or understood is refused."""
import os

import numpy as np

from .common import *

LEVEL = 'fault_enumeration'
RUNS = (1500, 60000)
RULE = ('one case = one seeded scenario that runs well, after which one of its inputs is damaged (file missing, empty, unreadable, torn, with a word in it, of another size; disk error '
        'while reading, once or always; unknown name of a method; text where a number or switch belongs) and which is run again in the same directory and, repaired, a third time; '
        'non-trivial when the damaged input was refused; distinct by scenario structure, input and damage')
ASSUMPTIONS = ['damage that leaves a readable input of the right size (digits lost, whole records lost from the end of a series) cannot be detected by any reader']

METHODS = ['scheme', 'solver', 'wind_convention', 'method_transport', 'method_grainspeed', 'method_roughness', 'boundary_offshore', 'boundary_onshore', 'boundary_lateral',
           'method_moist_process', 'method_moist_threshold', 'boundary_gw', 'vegshear_type', 'veggrowth_type']
NAMES = {'method_roughness': 'constant', 'method_moist_threshold': 'belly_johnson', 'boundary_gw': 'no_flow', 'wind_convention': 'nautical'}
SWITCHES = ['process_wind', 'process_transport', 'process_bedupdate', 'process_threshold', 'th_grainsize', 'th_bedslope', 'th_moisture', 'th_salt', 'th_sheltering', 'th_nelayer',
            'process_avalanche', 'process_shear', 'process_tide', 'process_wave', 'process_runup', 'process_moist', 'process_mixtoplayer', 'process_wet_bed_reset', 'process_meteo',
            'process_salt', 'process_groundwater', 'process_scanning', 'process_separation', 'process_vegetation', 'process_fences', 'process_dune_erosion', 'process_seepage_face']
NUMBERS = ['dt', 'tstop', 'tstart', 'ny', 'nlayers', 'layer_thickness', 'rhog', 'rhoa', 'porosity', 'g', 'kappa', 'z', 'k', 'accfac', 'T', 'output_times', 'grain_size', 'grain_dist', 'max_bedlevel_change']
WORDS = ['abc', '1.o', '10s', '1;5', '--', '1e', '0.1m']
SERIES = ('wind_file', 'tide_file', 'wave_file', 'meteo_file')


def inputs(s):
    """Files of a scenario: parameter -> kind."""
    out = {}
    for k, v in scenario.config(s).items():
        if k.endswith('_file') and k != 'output_file' or k.endswith('_mask'):
            out[k] = 'series' if k in SERIES else 'table' if k == 'bedcomp_file' else 'grid'
    if s['gd2'] is not None:
        out['grain_dist'] = 'table'
    return out


def used(s):
    """Methods that matter in a scenario from its first step on."""
    out = ['scheme', 'solver', 'wind_convention', 'method_transport', 'method_grainspeed', 'method_roughness', 'boundary_offshore', 'boundary_onshore', 'boundary_lateral']
    if s['moist']:
        out.append('method_moist_process')
    if s['moist'] and s['thm']:
        out.append('method_moist_threshold')
    if s['gw']:
        out.append('boundary_gw')
    if s['veg']:
        out += ['vegshear_type', 'veggrowth_type']
    return out


def gen(rng):
    s = scenario.gen(rng, steps=rng.randint(2, 5), allow=ALL, mbc=rng.choice([999., 999., .05]))
    s['wind'] = [[t, max(u, 8.), a] for t, u, a in s['wind']]
    if s['shear'] and s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 7), min(s['ny'], 3)
    kind = rng.choice(['file'] * 5 + ['name'] * 3 + ['switch', 'number', 'disk'])
    case = {'s': s, 'seed': rng.randint(0, 10**6), 'kind': kind, 'pick': rng.random(), 'at': rng.random()}
    c = scenario.config(s)
    if kind in ('file', 'disk'):
        f = inputs(s)
        case['what'] = rng.choice(sorted(f))
        how = ['missing', 'empty', 'garbage', 'word']
        if f[case['what']] == 'grid':
            how += ['row more', 'row fewer', 'column more', 'column fewer', 'torn']
        if f[case['what']] == 'series':
            how += ['torn', 'columns fewer']
        case['how'] = rng.choice(how if kind == 'file' else ['EIO', 'EIO once', 'EACCES'])
    elif kind == 'name':
        case['what'] = rng.choice(used(s))
        v = c.get(case['what'], NAMES.get(case['what']))
        case['how'] = rng.choice(['xyz', v + 'x', v[:-1], v[1:], v + '_' + v, v.replace('o', '0') if 'o' in v else v + '1'])
    elif kind == 'switch':
        case['what'] = rng.choice(SWITCHES)
        case['how'] = rng.choice(['False', 'false', 'FALSE', 'off', 'no', 'f', 't', 'True', 'TRUE', 'on', 'yes', 'Tr', 'FT'])
    else:
        case['what'] = rng.choice([k for k in NUMBERS if not (k == 'grain_dist' and (s['gd2'] is not None or s['bedcomp'] is not None))])
        case['how'] = rng.choice(WORDS)
    return case


def damage(path, how, at):
    """Damages a file; tells what was done."""
    with open(path) as fp:
        rows = [r for r in fp.read().split('\n') if r.strip()]
    i = min(int(at * len(rows)), len(rows) - 1)
    one = len(rows[0].split()) == 1
    if how == 'missing':
        os.remove(path)
        return
    if how == 'empty':
        rows = []
    elif how == 'garbage':
        rows = ['?? !! x'] * len(rows)
    elif how == 'word':
        q = rows[i].split()
        j = int(at * 977) % len(q)
        # a letter in place of a digit as often as another word
        q[j] = (['x1', '1..', '--', '1.0e', '12;'] + [q[j].replace('0', 'O', 1) if '0' in q[j] else 'l' + q[j][1:]] * 5)[int(at * 7919) % 10]
        rows[i] = ' '.join(q)
    elif how == 'row more' or how == 'column more' and one:
        rows.insert(i, rows[i])
    elif how == 'row fewer' or how == 'column fewer' and one:
        rows.pop(i)
    elif how == 'column more':
        rows = [r + ' ' + r.split()[-1] for r in rows]
    elif how in ('column fewer', 'columns fewer'):
        rows = [' '.join(r.split()[:-1]) for r in rows]
    elif how == 'torn':
        q = rows[-1].split()
        rows[-1] = ' '.join(q[:max(1, int(at * len(q)))]) if len(q) > 1 else ''
        rows = [r for r in rows if r]
    with open(path, 'w') as fp:
        fp.write('\n'.join(rows) + ('\n' if how != 'torn' else ''))


def case_fn(case, d, tally):
    s, kind, what, how = case['s'], case['kind'], case['what'], case['how']
    cfg = scenario.materialise(s, d)
    o = drive.run(cfg, seed=case['seed'], budget=200)
    if o.kind != 'ok':
        return          # judged by other properties
    good, good1 = drive.digest(o.model), drive.digest(o.model, skip=[what])
    tally.simtime += o.model.t
    tally.steps += o.steps
    nc = os.path.join(d, 'aeolis.nc')
    with open(nc, 'rb') as fp:
        results = fp.read()
    with open(cfg) as fp:
        text = fp.read()
    c = scenario.config(s)
    fired = [0]
    real = np.loadtxt
    keep = None
    if kind == 'file':
        path = os.path.join(d, c[what])
        with open(path) as fp:
            keep = fp.read()
        damage(path, how, case['at'])
    elif kind == 'disk':
        def loadtxt(f, *a, **k):
            if os.path.basename(str(f)) == c[what] and (how != 'EIO once' or not fired[0]):
                fired[0] += 1
                e = OSError(13 if how == 'EACCES' else 5, 'injected', str(f))
                e.deliberate = True
                raise e
            return real(f, *a, **k)
        np.loadtxt = loadtxt
    else:
        rows = [r for r in text.split('\n') if r.split('=')[0].strip() != what]
        with open(cfg, 'w') as fp:
            fp.write('\n'.join(rows) + '\n%s = %s\n' % (what, how))
    try:
        b = drive.run(cfg, seed=case['seed'], budget=200)
    finally:
        np.loadtxt = real
    at = {'file': '%s of %s' % (how, what), 'disk': '%s while reading %s' % (how, what)}.get(kind, '%s = %s' % (what, how))
    tally.runs += 3
    tally.kind(kind)
    sig = '%s %s %s' % (kind, what, how if kind in ('file', 'disk') else '')
    if kind == 'disk' and not fired[0]:
        return
    if b.kind == 'ok' and how == 'EIO once':
        # the file could be read after all
        if drive.digest(b.model, skip=[what]) != good1:
            raise Viol('a run differs after %s' % at, sig)
        tally.fault('EIO once, read again')
    elif b.kind != 'exception':
        raise Viol('%s is not refused: the run ends with %s after %d steps' % (at, b.kind, b.steps), sig)
    else:
        # boundaries are set by the solvers, some of which first run in the second step
        if b.steps > 1 + what.startswith('boundary'):
            raise Viol('%s is only refused after %d steps (%s)' % (at, b.steps - 1, b), sig)
        if kind == 'disk' and not isinstance(b.exc, OSError):
            raise Viol('%s does not show up as such but ends in %s' % (at, b), sig)
        if kind in ('name', 'switch') or kind == 'number' and not what.startswith('grain'):
            if not isinstance(b.exc, ValueError) or how not in str(b.exc):
                raise Viol('%s is not refused as unknown but ends in %s' % (at, b), sig)
        if not b.steps and what != 'grain_size':
            tally.fault('refused before the first step')
            with open(nc, 'rb') as fp:
                if fp.read() != results:
                    raise Viol('%s is refused before the first step, but the earlier results are overwritten' % at, sig + ' results')
        else:
            tally.fault('refused in the first step')
        tally.fault(how if kind in ('file', 'disk') else kind)
    if not b.cwd_kept:
        raise Viol('the working directory is another one after %s' % at, 'cwd')
    # nothing of the refused run stays behind
    if keep is not None:
        with open(path, 'w') as fp:
            fp.write(keep)
    with open(cfg, 'w') as fp:
        fp.write(text)
    o = drive.run(cfg, seed=case['seed'], budget=200)
    if o.kind != 'ok' or drive.digest(o.model) != good:
        raise Viol('after %s was refused, the same run with good input %s' % (at, 'differs' if o.kind == 'ok' else 'ends with %s' % o), 'residue')
    tally.simtime += o.model.t
    tally.steps += o.steps
    tally.state(good)
    tally.note(str(b))
    tally.key = [skey(s), kind, what, how]


execute = guarded(case_fn)


def shrink(case, *a):
    # what is damaged has to stay in use
    for n in shrink_scenario(case['s']):
        if case['kind'] in ('file', 'disk') and case['what'] not in inputs(n) or case['kind'] == 'name' and case['what'] not in used(n):
            continue
        yield dict(case, s=n)
