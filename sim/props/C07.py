"""Model instances in one process do not influence each other."""
import copy
import os
import random
import sys
import threading

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (640, 24000)
RULE = ('one case = two or three seeded models, each stepped alone first and then interleaved by a seeded scheduler: at '
        'time steps, nested in the callback of a running model, or preempted inside a time step at seeded function '
        'calls (threads that hand over one baton); non-trivial when at least two models made a step after the first '
        'switch; distinct by scenario structures, mode and schedule')
ASSUMPTIONS = ['models that draw random numbers are interleaved at time steps only, with the generator seeded per step',
               'each model is initialised from its own working directory']


def small(rng, allow, dim=None):
    s = scenario.gen(rng, steps=rng.randint(3, 7), allow=allow, dim=dim)
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 7), min(s['ny'], 4)
    return s


def gen(rng):
    mode = rng.choice(['steps', 'steps', 'preempt', 'preempt', 'nested'])
    allow = PHYS + ['hot'] + (['veg'] if mode != 'preempt' else []) + (['shear'] if rng.random() < .3 else [])
    a = small(rng, allow)
    models = [a]
    for _ in range(rng.choice([1, 1, 2]) if mode == 'steps' else 1):
        r = rng.random()
        if r < .6:
            # alike, so that anything cached under a shape or a name is shared
            b = copy.deepcopy(a)
            b['bed'] = dict(a['bed'], seed=rng.randint(0, 10**6), noise=.04)
            b['alfa'] = round(rng.uniform(-60, 60), 1)
            b['wind'] = [[x[0], round(x[1] * .8 + 3., 2), round((x[2] + 50.) % 360., 1)] for x in a['wind']]
            b['T'] = a['T'] * 1.5
            b['gs'] = [round(g * 1.2, 6) for g in a['gs']]
            b['k'] = a['k'] * 2
            if rng.random() < .3:
                b['accfac'] = a['accfac'] * 2.
        else:
            b = small(rng, allow)
        models.append(b)
    return {'models': models, 'mode': mode, 'seed': rng.randint(0, 10**6), 'sched': rng.randint(0, 10**6),
            'switch': rng.choice([.01, .05, .3]), 'late': rng.random() < .5, 'runner': [rng.random() < .4 for _ in models],
            'reads': rng.random() < .5, 's': a}


def runs(case, k):
    # hotstart files are read by the runner only
    return bool(case['runner'][k] or k == 0 and case['mode'] == 'nested' and case['models'][k].get('hot'))


def init(cfg, case, k):
    np.random.seed(case['seed'] % 1000)
    return drive.bmi(cfg, runner=runs(case, k))


def steps_of(s):
    return min(s['steps'], 8)


def solo(cfgs, case):
    out = []
    for k, cfg in enumerate(cfgs):
        m = init(cfg, case, k)
        snaps = [drive.Snap(m)]
        for i in range(steps_of(case['models'][k])):
            drive.step(m, seed=case['seed'])
            snaps.append(drive.Snap(m))
        out.append(snaps)
    return out


def check(ref, m, k, i, how, tally):
    e = drive.diff(ref[k][i], drive.Snap(m))
    if e:
        raise Viol('model %d after %d steps, %s with another model: %s' % (k, i, how, e), how)
    tally.state(ref[k][i].digest())
    tally.kind('state compared')


def baton(jobs, rng, p, tally):
    """Runs jobs in threads of which only one moves at a time; at calls of
    functions of the code under test the baton may pass to another thread."""
    n = len(jobs)
    cond = threading.Condition()
    st = {'turn': 0, 'alive': set(range(n)), 'switches': 0, 'err': [None] * n}

    def pick(me):
        others = [x for x in sorted(st['alive']) if x != me]
        return rng.choice(others) if others else me

    def wait(me):
        while st['turn'] != me:
            cond.wait()

    def tracer(me):
        def tr(frame, event, arg):
            if event == 'call' and os.sep + 'aeolis' + os.sep in frame.f_code.co_filename and rng.random() < p:
                with cond:
                    nxt = pick(me)
                    if nxt != me:
                        st['switches'] += 1
                        st['turn'] = nxt
                        cond.notify_all()
                        wait(me)
            return None
        return tr

    def body(me):
        with cond:
            wait(me)
        sys.settrace(tracer(me))
        try:
            jobs[me]()
        except BaseException as e:
            st['err'][me] = e
        finally:
            sys.settrace(None)
            with cond:
                st['alive'].discard(me)
                st['turn'] = pick(me)
                cond.notify_all()
    ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    tally.kind('preemptive switch', st['switches'])
    for e in st['err']:
        if e is not None:
            raise e
    return st['switches']


def case_fn(case, d, tally):
    rng = random.Random(case['sched'])
    cfgs = [scenario.materialise(s, os.path.join(d, 'm%d' % i)) for i, s in enumerate(case['models'])]
    ref = solo(cfgs, case)
    n = len(cfgs)
    tot = [steps_of(s) for s in case['models']]
    tally.runs += 2 * n
    tally.steps += 2 * sum(tot)
    tally.simtime += sum(r[-1].t - r[0].t for r in ref)
    ms = [None] * n
    if case['mode'] == 'steps':
        done = [0] * n
        sched = []
        if not case['late']:
            for k in range(n):
                ms[k] = init(cfgs[k], case, k)
        while any(done[k] < tot[k] for k in range(n)):
            k = rng.choice([k for k in range(n) if done[k] < tot[k]])
            if ms[k] is None:
                ms[k] = init(cfgs[k], case, k)
                check(ref, ms[k], k, 0, 'interleaved', tally)
            if case['reads']:
                j = rng.randrange(n)
                if ms[j] is not None:
                    for v in ('zb', 'Ct', 'udir'):
                        ms[j].get_var(v)
            drive.step(ms[k], seed=case['seed'])
            done[k] += 1
            sched.append(k)
            check(ref, ms[k], k, done[k], 'interleaved', tally)
            # the model that did not move has not changed
            j = rng.randrange(n)
            if ms[j] is not None and j != k:
                check(ref, ms[j], j, done[j], 'interleaved', tally)
        tally.key = ['steps', [skey(s) for s in case['models']], sched]
    elif case['mode'] == 'nested':
        inner = init(cfgs[1], case, 1)
        cnt = [0]
        when = [rng.random() < .7 for _ in range(tot[0] + 1)]

        def on(m, i):
            if i <= tot[0]:
                check_run(case, ref, m, i, tally)
            if i < len(when) and when[i] and cnt[0] < tot[1]:
                st = np.random.get_state()
                drive.step(inner, seed=case['seed'])
                cnt[0] += 1
                check(ref, inner, 1, cnt[0], 'nested', tally)
                np.random.set_state(st)
            if i >= tot[0]:
                raise drive.Stop()
        np.random.seed(case['seed'] % 1000)
        o = drive.run(cfgs[0], on_step=on, seed=case['seed'])
        exc_viol(o, 'model 0, nested')
        tally.key = ['nested', [skey(s) for s in case['models']], when] if cnt[0] else None
    else:
        for k in range(n):
            ms[k] = init(cfgs[k], case, k)
        with core.Quiet():
            def job(k):
                def f():
                    for i in range(tot[k]):
                        ms[k].update()
                        e = drive.diff(ref[k][i + 1], drive.Snap(ms[k]))
                        if e:
                            raise Viol('model %d after %d steps, preempted by another model: %s' % (k, i + 1, e), 'preempted')
                return f
            sw = baton([job(k) for k in range(n)], rng, case['switch'], tally)
        for k in range(n):
            check(ref, ms[k], k, tot[k], 'preempted', tally)
        if sw:
            tally.key = ['preempt', [skey(s) for s in case['models']], case['sched'], sw]


def check_run(case, ref, m, i, tally):
    """State of the running outer model against its reference.  `q` is
    maintained by the runner only."""
    skip = () if runs(case, 0) else ('q',)
    e = drive.diff(ref[0][i], drive.Snap(m), skip=skip)
    if e:
        raise Viol('model 0 after %d steps of a run in whose callback another model makes steps: %s' % (i, e), 'nested')


execute = guarded(case_fn)


def shrink(case):
    if len(case['models']) > 2:
        yield dict(case, models=case['models'][:2], runner=case['runner'][:2])
    if case['reads']:
        yield dict(case, reads=False)
    for i, s in enumerate(case['models']):
        for c in shrink_scenario(s):
            ms = list(case['models'])
            ms[i] = c
            yield dict(case, models=ms, s=ms[0])
