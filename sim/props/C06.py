"""Same inputs, same results: whatever the clock, directory and process history."""
import copy
import json
import os
import subprocess
import sys

import numpy as np

from .common import *
from .C03 import outfile

LEVEL = 'exploration'
RUNS = (320, 12000)
RULE = ('one case = one seeded scenario run twice with the same random seed: once in a fresh simulated world and once in '
        'a perturbed one (clock start, ticks and jumps; working directory; relative path to the configuration; files left '
        'over from an earlier run; other models run before in the same process; in some cases a new interpreter with '
        'another hash seed); non-trivial when at least two steps were compared and the second world differs; distinct by '
        'scenario structure and perturbation')
ASSUMPTIONS = ['random numbers of a step are a function of seed and model time, in both runs']


def gen(rng):
    s = scenario.gen(rng, steps=rng.randint(3, 10), allow=ALL if rng.random() < .4 else PHYS + ['veg'],
                     mbc=None if rng.random() < .7 else .005)
    if s['shear'] and s['dim'] == 2:
        s['nx'], s['ny'] = 6, 3
        s['tstop'] = round(s['tstop'] * .4, 3)
    if s['mbc'] != 999. and s['gw']:
        s['mbc'] = 999.
    jumps = [[rng.randint(0, 60), rng.choice([-1e6, -3600., -1., 1., 61., 3600., 86400., 1e7])]
             for _ in range(rng.randint(0, 6))]
    clk = {'start': rng.choice([0., 1., 1.6e9, 9.5e8, 2.2e9]), 'tick': rng.choice([0., 1e-6, .5, 70., -.5]), 'jumps': jumps}
    prior = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        prior.append(rng.choice(['similar', 'similar', 'other', 'failed', 'same']))
    return {'s': s, 'seed': rng.randint(0, 10**6), 'clock': clk, 'prior': prior, 'pseed': rng.randint(0, 10**6),
            'cwd': rng.choice(['home', 'model', 'parent', 'elsewhere']), 'rel': rng.random() < .5,
            'stale': rng.random() < .5, 'process': rng.random() < .04, 'hash': rng.randint(1, 1000),
            'restart': rng.random() < .3}


def variant(s, pseed, kind):
    """Another model, alike or not, run before in the same process."""
    import random
    rng = random.Random(pseed)
    if kind == 'same':
        return copy.deepcopy(s)
    if kind == 'other':
        v = scenario.gen(rng, steps=3, allow=PHYS + ['veg'], dim=1)
        return v
    v = copy.deepcopy(s)
    v['bed'] = dict(s['bed'], seed=rng.randint(0, 10**6), noise=.05)
    v['alfa'] = round(rng.uniform(-60, 60), 1)
    v['wind'] = [[r[0], r[1] * .8 + 3., (r[2] + 35.) % 360.] for r in s['wind']]
    v['T'] = s['T'] * 1.5
    v['k'] = s['k'] * 2.
    v['gs'] = [g * 1.1 for g in s['gs']]
    v['tstop'] = round(s['tstop'] * .5, 3)
    if s['veg']:
        v['veg'] = dict(s['veg'], seed=rng.randint(0, 10**6))
    return v


def one(cfg, case, out, cwd=None, path=None):
    snaps = []
    o = drive.run(path or cfg, on_step=lambda m, i: snaps.append(drive.Snap(m)), seed=case['seed'], budget=80, cwd=cwd)
    if o.kind == 'ok':
        snaps.append(drive.Snap(o.model))
    return o, snaps


def main_child(argv):
    """A new interpreter: prints digests of a run."""
    case = json.load(open(argv[0]))
    cfg = argv[1]
    o, snaps = one(cfg, case, None)
    print(json.dumps([str(o), [x.digest() for x in snaps]]))


def case_fn(case, d, tally):
    s = copy.deepcopy(case['s'])
    if case['restart']:
        s['restart'] = max(1., s['dt'] * s['accfac'])
    # both models live under the same name in different places
    cfg = scenario.materialise(s, os.path.join(d, 'a', 'm'))
    np.random.seed(1)
    with World(os.path.dirname(cfg)):
        o, ref = one(cfg, case, None)
    if o.kind == 'budget':
        return
    exc_viol(o, 'first run')
    tally.runs += 1
    tally.steps += o.steps
    tally.simtime += ref[-1].t - ref[0].t
    nca = drive.read_nc(outfile(cfg, s))

    for i, kind in enumerate(case['prior']):
        v = variant(s, case['pseed'] + i, kind)
        c = scenario.materialise(v, os.path.join(d, 'p%d' % i, 'm'))
        if kind == 'failed':
            n = [0]

            def bad(m, i):
                if i == 1:
                    raise drive.Stop()
            drive.run(c, on_step=bad, seed=3)
        else:
            drive.run(c, seed=3, budget=6)
        tally.kind('prior model: ' + kind)
    dirb = os.path.join(d, 'b', 'deep', 'm')
    cfgb = scenario.materialise(s, dirb)
    if case['stale']:
        for n in os.listdir(os.path.dirname(cfg)):
            if n.endswith('.nc') or '.r0' in n or n.endswith('.log'):
                with seams.REAL['open'](os.path.join(os.path.dirname(cfg), n), 'rb') as a:
                    with seams.REAL['open'](os.path.join(dirb, n), 'wb') as b:
                        b.write(a.read())
        tally.kind('stale files')
    cwd = {'home': None, 'model': dirb, 'parent': os.path.dirname(dirb), 'elsewhere': os.path.join(d, 'p')}[case['cwd']]
    if cwd:
        os.makedirs(cwd, exist_ok=True)
    path = os.path.relpath(cfgb, cwd or os.getcwd()) if case['rel'] else cfgb
    np.random.seed(99)
    with World(dirb, clock=case['clock']) as w:
        o, got = one(cfgb, case, None, cwd=cwd, path=path)
    exc_viol(o, 'second run')
    if not o.cwd_kept:
        raise Viol('the run leaves the process in another working directory', 'cwd')
    tally.runs += 1
    tally.fault('clock jump', len([1 for j, _ in case['clock']['jumps'] if j < w.reads]))
    if case['clock']['tick'] < 0:
        tally.fault('clock running backwards')
    if case['clock']['tick'] == 0.:
        tally.fault('clock standing still')
    compare(ref, got, 'second run', tally)
    ncb = drive.read_nc(outfile(cfgb, s))
    if sorted(nca) != sorted(ncb):
        raise Viol('output files have different variables', 'records')
    for k in nca:
        if k != 'crs' and not np.array_equal(nca[k], ncb[k], equal_nan=True):
            raise Viol('output records of %s differ between two runs' % k, 'records')
    if len(ref) > 2:
        tally.key = [skey(s), case['prior'], case['cwd'], case['rel'], case['stale'], case['clock']['jumps'][:2]]
    if case['process']:
        cj = os.path.join(d, 'case.json')
        with open(cj, 'w') as fp:
            json.dump(case, fp)
        cfgc = scenario.materialise(s, os.path.join(d, 'c', 'm'))
        env = dict(os.environ, PYTHONHASHSEED=str(case['hash']), TZ='Pacific/Auckland')
        r = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r)\nfrom sim import core\ncore._base = %r\n'
                            'core.load()\nfrom sim.props import C06\nC06.main_child(%r)'
                            % (os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                               os.path.join(d, 'scr'), [cj, cfgc])],
                           env=env, capture_output=True, text=True, cwd=d)
        if r.returncode or not r.stdout.strip():
            raise RuntimeError('child interpreter: ' + r.stderr[-1000:])
        msg, digs = json.loads(r.stdout.strip().splitlines()[-1])
        if digs != [x.digest() for x in ref]:
            raise Viol('a run in a new interpreter with another hash seed and time zone differs (%s)' % msg, 'process')
        tally.kind('new interpreter')


def compare(ref, got, what, tally):
    for a, b in zip(ref, got):
        e = drive.diff(a, b)
        if e:
            raise Viol('%s differs from the first one: %s' % (what, e), 'state')
        if a.count != b.count:
            raise Viol('%s: counters %r instead of %r' % (what, b.count, a.count), 'counters')
        tally.state(b.digest())
    if len(ref) != len(got):
        raise Viol('%s takes %d time steps instead of %d' % (what, len(got) - 1, len(ref) - 1), 'steps')


execute = guarded(case_fn)


def _extra(case):
    for k, v in (('prior', []), ('stale', False), ('process', False), ('rel', False), ('cwd', 'home'), ('restart', False)):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case['prior']:
        yield dict(case, prior=case['prior'][1:])
    if case['clock']['jumps']:
        yield dict(case, clock=dict(case['clock'], jumps=[]))


shrink = shrinker(_extra)
