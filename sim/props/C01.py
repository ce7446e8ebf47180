"""Restart equivalence: crash anywhere, continue from any restart file."""
import glob
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (300, 12000)
RULE = ('one case = one seeded scenario, run once uninterrupted and once crashed at a seeded step (half of the '
        'crashes kill the process, half abandon the model object), then resumed from a seeded choice of the restart '
        'files written so far, possibly crashed and resumed again; non-trivial when at least one time step was '
        'compared after a resume; distinct by scenario structure, crash steps and chosen restart file')
ASSUMPTIONS = ['the resumed run uses the same configuration and input files as the interrupted one',
               'random numbers of a step are a function of seed and model time, in both runs',
               'a process crash loses everything not handed to the operating system']


def gen(rng):
    s = scenario.gen(rng, steps=rng.randint(6, 16), allow=(ALL if rng.random() < .35 else PHYS + ['veg']) + ['hot'],
                     mbc=None if rng.random() < .5 else rng.choice([.0005, .002, .02]))
    if s['shear'] and s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 7), 3
        s['tstop'] = round(s['tstop'] * .5, 3)
    if s['mbc'] != 999.:
        s['gw'] = False
        if s['moist'] == 'surf_moisture':
            s['moist'] = 'infiltration'
    eff = min(s['dt'], .1 * s['dx']) if s['scheme'] == 'euler_forward' else s['dt']
    s['restart'] = round(eff * s['accfac'] * rng.choice([1., 1., 2., 3.]), 3)
    s['restart'] = max(s['restart'], 1.)
    return {'s': s, 'seed': rng.randint(0, 10**6), 'crash': rng.random(), 'hard': rng.random() < .5,
            'pick': rng.random(), 'again': rng.random() if rng.random() < .5 else None, 'pick2': rng.random(),
            'abs': rng.random() < .5}


def record(cfg, d, case, tally, restartfile=None, crash_at=None, hard=False):
    """Runs and returns (outcome, [(t, digest)...], snapshots)."""
    def go():
        snaps = []

        def on(m, i):
            if crash_at is not None and i == crash_at:
                raise drive.Stop()
            snaps.append(drive.Snap(m))
        o = drive.run(cfg, on_step=on, restartfile=restartfile, seed=case['seed'], budget=120)
        if o.kind == 'ok':
            snaps.append(drive.Snap(o.model))
        exc = None if o.exc is None else (type(o.exc).__name__, o.msg, o.where)
        return o.kind, exc, snaps
    if not hard:
        r = go()
    else:
        def child():
            x = go()
            return x
        code, r = drive.in_child(child)
        if r is None:
            raise RuntimeError('child died with %r' % code)
    tally.runs += 1
    return r


def fail(kind, exc, what):
    if kind == 'exception':
        raise Viol('%s: unexpected %s: %s [%s]' % ((what,) + exc), 'exception %s %s' % (exc[0], exc[2]))


def rfiles(d):
    return sorted(glob.glob(os.path.join(d, '*.r[0-9]*')))


def compare(ref, got, what, tally):
    """got must be a suffix of ref."""
    ts = [x.t for x in ref]
    if not got:
        raise Viol('%s: resumed run recorded no state' % what, 'no state')
    if got[0].t not in ts:
        raise Viol('%s: resumed at t=%r, a time the uninterrupted run never had' % (what, got[0].t), 'time')
    i0 = ts.index(got[0].t)
    for j, g in enumerate(got):
        if i0 + j >= len(ref):
            raise Viol('%s: resumed run goes on beyond the uninterrupted one (t=%r)' % (what, g.t), 'longer')
        r = ref[i0 + j]
        e = drive.diff(r, g)
        if e:
            raise Viol('%s: %d steps after the restart: %s' % (what, j, e), 'state')
        if r.count != g.count:
            raise Viol('%s: counters %r instead of %r' % (what, g.count, r.count), 'counters')
        tally.state(g.digest())
        tally.kind('resumed state compared')
    return i0, len(got)


def run_case(case, d, tally):
    s = case['s']
    a = os.path.join(d, 'm')
    # both runs live in directories of the same name, one after the other
    cfg = scenario.materialise(s, os.path.join(d, 'a', 'm'))
    kind, exc, ref = record(cfg, os.path.dirname(cfg), case, tally)
    if kind == 'budget':
        return                      # many tiny steps: legitimate, nothing to compare
    fail(kind, exc, 'uninterrupted run')
    tally.simtime += ref[-1].t - ref[0].t
    tally.steps += len(ref) - 1
    files_ref = [os.path.basename(f) for f in rfiles(os.path.dirname(cfg))]
    if len(ref) < 3:
        return
    crash = 2 + int(case['crash'] * (len(ref) - 2))
    cfgb = scenario.materialise(s, os.path.join(d, 'b', 'm'))
    dirb = os.path.dirname(cfgb)
    kind, exc, got = record(cfgb, dirb, case, tally, crash_at=crash, hard=case['hard'])
    fail(kind, exc, 'run before the crash')
    tally.fault('process crash' if case['hard'] else 'model abandoned')
    for r, g in zip(ref, got):
        e = drive.diff(r, g)
        if e:
            raise Viol('repeated run: ' + e, 'repeat')
    fs = rfiles(dirb)
    # a restart file must exist once the interval has elapsed
    due = [x.t for x in ref[1:min(crash, len(ref))]]
    want = expected_dumps([x.t for x in ref[:crash + 1] if x.t <= got[-1].t], s['restart'])
    have = sorted(int(os.path.basename(f).rsplit('.r', 1)[1]) for f in fs)
    if not set(int(t) for t in want) <= set(have):
        raise Viol('restart files at %r, expected at least %r' % (have, want), 'missing file')
    if not fs:
        return
    pick = case['pick']
    for rnd in range(2 if case['again'] is not None else 1):
        f = fs[int((pick if rnd == 0 else case['pick2']) * len(fs))]
        path = f if case['abs'] else os.path.basename(f)
        c2 = None
        remaining = len([x for x in ref if x.t > int(os.path.basename(f).rsplit('.r', 1)[1])])
        if rnd == 0 and case['again'] is not None and remaining > 2:
            c2 = 1 + int(case['again'] * (remaining - 1))
        kind, exc, got = record(cfgb, dirb, case, tally, restartfile=path, crash_at=c2, hard=case['hard'] and rnd == 0)
        fail(kind, exc, 'run resumed from ' + os.path.basename(f))
        i0, ng = compare(ref, got, 'resumed from ' + os.path.basename(f), tally)
        if int(ref[i0].t) != int(os.path.basename(f).rsplit('.r', 1)[1]):
            raise Viol('%s continues at t=%r' % (os.path.basename(f), ref[i0].t), 'stamp')
        if kind == 'ok':
            if i0 + ng != len(ref):
                raise Viol('resumed run ended at t=%r, the uninterrupted one at t=%r' % (got[-1].t, ref[-1].t), 'short')
            have = [os.path.basename(x) for x in rfiles(dirb)]
            if not set(files_ref) <= set(have):
                raise Viol('restart files %r missing after the resumed run' % sorted(set(files_ref) - set(have)),
                           'missing file later')
        tally.key = [skey(s), crash, os.path.basename(f), rnd]
        fs = rfiles(dirb)
        if c2 is None:
            break
        tally.fault('crash of a resumed run')
    # records of the last resumed run equal those of the uninterrupted run
    if kind == 'ok':
        x = drive.read_nc(os.path.join(d, 'a', 'm', 'aeolis.nc'))
        y = drive.read_nc(os.path.join(d, 'b', 'm', 'aeolis.nc'))
        tx = list(x['time'])
        for j, t in enumerate(y['time']):
            if t in tx:
                i = tx.index(t)
                for v in s['vars']:
                    if not np.array_equal(x[v][i], y[v][j], equal_nan=True):
                        raise Viol('record of %s at t=%r differs after a restart' % (v, t), 'record')


def expected_dumps(times, interval):
    out, last = [], 0.
    for i, t in enumerate(times):
        if i == 0 and t == 0.:
            continue
        if t - last >= interval:
            out.append(t)
            last = t
    return out


execute = guarded(run_case)


def _extra(case):
    if case['again'] is not None:
        yield dict(case, again=None)
    if case['hard']:
        yield dict(case, hard=False)


shrink = shrinker(_extra)
