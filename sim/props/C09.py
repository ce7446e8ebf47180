"""Callbacks: once per step, effective, transparent to failures."""
import copy
import functools
import os
import random

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (780, 30000)
RULE = ('one case = one seeded scenario and a seeded sequence of interventions applied by a callback in one of six forms '
        '(function, bound method, partial, callable object, script named on the call, script named in the '
        'configuration), compared step by step with a model stepped by hand under the same interventions; a seeded '
        'fraction of the callbacks fails at a seeded step; non-trivial when an intervention or failure took place; '
        'distinct by scenario structure, form and interventions')
ASSUMPTIONS = ['callbacks are deterministic functions of the model']
STUB = ['clock (simulated)', 'failing callbacks (injected by the simulator)']


class CallbackError(Exception):
    deliberate = True


class Abort(BaseException):
    pass


def gen(rng):
    s = scenario.gen(rng, steps=rng.randint(3, 9), allow=PHYS, mbc=999., dim=rng.choice([1, 1, 1, 2]),
                     calm=rng.choice([.1, .6]))
    s['gw'] = False
    if s['moist'] == 'surf_moisture':
        s['moist'] = 'infiltration'
    edits = []
    for _ in range(rng.randint(0, 5)):
        var = rng.choice(['zb', 'zb', 'mass', 'Ct', 'moist', 'dt', 'tstop', 'k', 'T', 'zb cell', 'uth', 'index'])
        edits.append([rng.randint(0, 8), var, rnd(rng, .1, 1.)])
    return {'s': s, 'form': rng.choice(['function', 'method', 'partial', 'object', 'script', 'script', 'config', 'config']),
            'edits': edits, 'fail': rng.randint(0, 6) if rng.random() < .4 else None,
            'exc': rng.choice(['error', 'error', 'value', 'io', 'abort', 'interrupt', 'exit']),
            'cwd': rng.choice(['home', 'model', 'elsewhere']), 'read': rng.random() < .5, 'again': rng.random() < .5,
            'badname': rng.random() < .15}


SCRIPT = '''
import numpy as np
edits = %(edits)r
fail = %(fail)r
accfac = %(acc)r
marker = %(marker)r

class CallbackError(Exception):
    deliberate = True

class Abort(BaseException):
    pass

kinds = dict(error=CallbackError, value=ValueError, io=IOError, abort=Abort, interrupt=KeyboardInterrupt, exit=SystemExit)

def apply(model, i):
    for j, var, x in edits:
        if j != i:
            continue
        if var == 'zb cell':
            zb = model.get_var('zb').copy()
            zb[..., int(x * 7)] += .01 * x
            model.set_var('zb', zb)
        elif var == 'index':
            for n in range(model.get_var_count()):
                if model.get_var_name(n) == 'zb':
                    model.set_var_index(n, model.get_var('zb') + .003)
        elif var == 'zb':
            model.set_var('zb', model.get_var('zb') + .01 * x)
        elif var == 'mass':
            model.set_var('mass', model.get_var('mass') * (.5 + .5 * x))
        elif var == 'Ct':
            model.set_var('Ct', model.get_var('Ct') * accfac * x)
        elif var == 'moist':
            model.set_var('moist', model.get_var('moist') * 0. + .1 * x)
        elif var == 'uth':
            model.set_var('uth', model.get_var('uth') * x)
        elif var == 'dt':
            model.set_var('dt', model.get_var('dt') * (.5 + .5 * x))
        elif var == 'tstop':
            model.set_var('tstop', model.get_var('tstop') * (.6 + x))
        else:
            model.set_var(var, model.get_var(var) * (.5 + x))

def helper():
    return marker

def update(model):
    i = len(model.seen)
    assert helper() == marker
    model.seen.append((model.t, marker))
    if %(read)r:
        for v in ('zb', 'Ct', 'mass', 'zb_avg', 'tstop', 'nonsense'):
            model.get_var(v)
    if fail is not None and i == fail:
        model.exc = kinds[%(exc)r]('planned')
        raise model.exc
    apply(model, i)
'''


def source(case, marker, fail):
    return SCRIPT % {'edits': case['edits'], 'fail': fail, 'acc': case['s']['accfac'], 'marker': marker,
                     'read': case['read'], 'exc': case['exc']}


def load(src):
    ns = {'__name__': 'harness_callback'}
    exec(compile(src, os.path.join(os.sep, 'callback.py'), 'exec'), ns)
    return ns


class Methods:
    def __init__(self, f):
        self.f = f

    def method(self, model):
        return self.f(model)

    def __call__(self, model):
        return self.f(model)


def runit(cfg, cb, snaps, cwd, seen):
    """One run; returns (model, exception object or None, cwd kept)."""
    home = os.getcwd()
    if cwd:
        os.chdir(cwd)
    before = os.getcwd()
    exc = None
    m = None
    np.random.seed(5)
    try:
        with core.Quiet():
            m = drive.make(cfg)
            m.seen = seen
            m.exc = None
            upd = m.update

            def update(*a, **k):
                # what the step starts from and what it leaves behind
                snaps.append(drive.Snap(m))
                if len(snaps) > 80:
                    raise drive.Budget()
                upd(*a, **k)
            m.update = update
            try:
                m.run(callback=cb)
            except drive.Budget:
                exc = 'budget'
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                exc = e
            except BaseException as e:
                if type(e).__name__ != 'Abort':
                    raise
                exc = e
        if exc is None:
            snaps.append(drive.Snap(m))
        return m, exc, os.getcwd() == before
    finally:
        os.chdir(home)
        core.reset_logging()


def byhand(cfg, ns, n=80):
    """The same model stepped by hand under the same interventions."""
    np.random.seed(5)
    with drive.cd(os.path.dirname(cfg)), core.Quiet():
        m = drive.make(cfg)
        m.initialize()
        m.seen = []
        snaps = []
        while m.t <= m.get_end_time() and len(snaps) < n:
            ns['apply'](m, len(snaps))
            snaps.append(drive.Snap(m))
            m.update()
        snaps.append(drive.Snap(m))
    return snaps


def case_fn(case, d, tally):
    s = case['s']
    fail = case['fail']
    form = case['form']
    src = source(case, 'first', fail)
    ns = load(src)
    ref = byhand(scenario.materialise(s, os.path.join(d, 'r', 'm')), ns)
    if len(ref) > 78:
        return
    sb = copy.deepcopy(s)
    if form == 'config':
        sb.setdefault('extra', {})['callback'] = 'sub/cb.py:update'
    cfg = scenario.materialise(sb, os.path.join(d, 'b', 'm'))
    root = os.path.dirname(cfg)
    os.makedirs(os.path.join(root, 'sub'))
    with seams.REAL['open'](os.path.join(root, 'sub', 'cb.py'), 'w') as fp:
        fp.write(src)
    cwd = {'home': None, 'model': root, 'elsewhere': d}[case['cwd']]
    cb = {'function': ns['update'], 'method': Methods(ns['update']).method, 'object': Methods(ns['update']),
          'partial': functools.partial(ns['update']), 'script': 'sub/cb.py:update', 'config': None}[form]
    if form in ('script', 'config') and case['again']:
        # another run with a script of the same names just before
        other = os.path.join(d, 'o', 'm')
        so = copy.deepcopy(s)
        so['tstop'] = round(so['tstop'] * .3, 3)
        co = scenario.materialise(so, other)
        with seams.REAL['open'](os.path.join(other, 'cb.py'), 'w') as fp:
            fp.write(source(dict(case, edits=[]), 'second', None) + '\n\ndef ghost(model):\n    pass\n')
        m, exc, kept = runit(co, 'cb.py:update', [], None, [])
        if isinstance(exc, Exception):
            raise Viol('run with another callback script fails: %r' % exc, 'other')
    if form in ('script', 'config') and case['badname']:
        if form == 'config':
            sc = copy.deepcopy(sb)
            sc['extra']['callback'] = 'sub/cb.py:ghost'
            c = scenario.materialise(sc, os.path.join(d, 'g', 'm'))
            os.makedirs(os.path.join(d, 'g', 'm', 'sub'))
            with seams.REAL['open'](os.path.join(d, 'g', 'm', 'sub', 'cb.py'), 'w') as fp:
                fp.write(src)
            m, exc, kept = runit(c, None, [], cwd, [])
        else:
            m, exc, kept = runit(cfg, 'sub/cb.py:ghost', [], cwd, [])
        if not isinstance(exc, Exception):
            raise Viol('a callback that does not exist is ignored', 'ghost')
        m, exc, kept = runit(cfg, 'sub/none.py:update', [], cwd, [])
        if not isinstance(exc, Exception) or not kept:
            raise Viol('a callback script that does not exist is ignored', 'ghost')
        tally.kind('unknown callback')
    for attempt in range(2):
        snaps, seen = [], []
        m, exc, kept = runit(cfg, cb, snaps, cwd, seen)
        tally.runs += 1
        if exc == 'budget':
            return
        if not kept:
            raise Viol('the run leaves the process in another working directory (%s)' % ('failed' if exc else 'completed'), 'cwd')
        fails = fail is not None and fail < len(ref) - 1 and attempt == 0
        if fails:
            if exc is None:
                raise Viol('the exception raised by the callback in step %d is swallowed' % fail, 'swallowed')
            if exc is not m.exc:
                raise Viol('the callback raised %r, the run %r' % (m.exc, exc), 'other exception')
            tally.fault('callback raises ' + case['exc'])
        elif exc is not None:
            if isinstance(exc, AssertionError):
                raise Viol('the callback sees the globals of another script', 'globals')
            raise Viol('run with a callback given as %s: unexpected %s: %s' % (form, type(exc).__name__, exc),
                       'exception %s' % type(exc).__name__)
        want = [r.t for r in ref[:-1]]
        if fails:
            want = want[:fail + 1]
        got = [t for t, _ in seen]
        if got != want:
            raise Viol('the callback is called at %r, steps start at %r' % (got[:20], want[:20]), 'calls')
        for i, (a, b) in enumerate(zip(ref, snaps)):
            e = drive.diff(a, b)
            if e:
                raise Viol('step %d after interventions %r by a callback given as %s: %s' % (
                    i, [x for x in case['edits'] if x[0] <= i], form, e), 'effect')
            tally.state(a.digest())
        if len(snaps) != (fail if fails else len(ref)):
            raise Viol('%d steps instead of %d' % (len(snaps), fail if fails else len(ref)), 'steps')
        tally.steps += len(snaps)
        tally.simtime += snaps[-1].t if snaps else 0.
        tally.kind('callback form ' + form)
        if not fails:
            break
        # the same model runs again once the callback does not fail
        fail = None
        src = source(case, 'third', None)
        ns = load(src)
        with seams.REAL['open'](os.path.join(root, 'sub', 'cb2.py'), 'w') as fp:
            fp.write(src)
        if form == 'config':
            sb['extra']['callback'] = 'sub/cb2.py:update'
            cfg = scenario.materialise(sb, root)
        cb = {'function': ns['update'], 'method': Methods(ns['update']).method, 'object': Methods(ns['update']),
              'partial': functools.partial(ns['update']), 'script': 'sub/cb2.py:update', 'config': None}[form]
    used = [e for e in case['edits'] if e[0] < len(ref) - 1]
    if used or case['fail'] is not None:
        tally.key = [skey(s), form, case['edits'], case['fail'], case['exc']]


execute = guarded(case_fn)


def _extra(case):
    for k, v in (('again', False), ('badname', False), ('fail', None), ('read', False), ('cwd', 'home'), ('form', 'function')):
        if case[k] != v:
            yield dict(case, **{k: v})
    for i in range(len(case['edits'])):
        yield dict(case, edits=case['edits'][:i] + case['edits'][i + 1:])


shrink = shrinker(_extra)
