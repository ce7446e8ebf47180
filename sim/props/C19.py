"""Variables fixed by hotstart files or through the interface."""
import copy
import os

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (1200, 40000)
RULE = ('one case = one seeded scenario in which a seeded set of variables is fixed, by hotstart files or through the model state at a seeded step, and which is then '
        'driven through a seeded history of steps, fast-forwards, writes to fixed and free variables, releases, kills with restart, and output; after each of '
        'them every fixed variable is compared bit for bit with the value it was fixed at; or a forcing is fixed at a value and compared with a model whose series '
        'hold that value; or a hotstart file is damaged, unknown or unreadable; non-trivial when a variable that changes otherwise was held over at least two '
        'steps; distinct by scenario structure, variables and history')
ASSUMPTIONS = ['a truncated hotstart file is one from which at least one number is missing',
               'fixed variables are grids of the model state']

CAND = ['zb', 'zs', 'moist', 'uth', 'rhoveg', 'hveg', 'mass', 'Hs', 'Ct', 'uw', 'udir', 'ustar', 'Cu', 'pickup', 'w', 'SWL', 'TWL', 'us', 'u', 'thlyr', 'qs', 'gw', 'dzb', 'ne', 'uws', 'ustars', 'tau', 'zb0']


def gen(rng):
    s = scenario.gen(rng, steps=rng.randint(4, 10), allow=(PHYS + ['veg']), scheme=rng.choice(['euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward']))
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 8), min(s['ny'], 4)
    mode = rng.choice(['files', 'files', 'state', 'state', 'forcing', 'damage'])
    case = {'s': s, 'seed': rng.randint(0, 10**6), 'mode': mode, 'vars': sorted(rng.sample(CAND, rng.choice([1, 1, 2, 4])))}
    if mode in ('files', 'damage'):
        s['hot'] = {'seed': rng.randint(0, 10**6), 'which': sorted(rng.sample(scenario.HOT, rng.choice([1, 1, 2, 3])))}
        case['unknown'] = rng.random() < .3
    if mode == 'forcing':
        case['vars'] = [rng.choice(['uw', 'uw', 'SWL', 'Tp'])]
        s['masks'] = None
        if case['vars'] != ['uw']:
            t = s['tstop']
            s['tide'] = s['tide'] or scenario.gen_series(rng, t, -1., 1.)
            s['wave'] = s['wave'] or scenario.gen_series(rng, t, 0, 0, 2, [.1, 3.], [3., 12.])
        case['value'] = {'uw': rng.choice([0., 8.5, 13., 21.]), 'SWL': round(rng.uniform(-1, 1), 2), 'Hs': round(rng.uniform(0, 3), 2), 'Tp': round(rng.uniform(3, 12), 2)}[case['vars'][0]]
    hist = []
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < .6:
            hist.append(['step'])
        elif r < .7:
            hist.append(['dt', round(s['dt'] * rng.uniform(.2, 1.), 3)])
        elif r < .78 and not s['gw']:
            hist.append(['forward', round(s['dt'] * rng.uniform(.5, 4.), 2)])
        elif r < .9:
            hist.append(['write', rng.randint(0, 10**6)])
        else:
            hist.append(['release'])
    case['hist'] = hist + [['step'], ['step']]
    case['damage'] = [rng.choice(['torn', 'torn', 'unreadable', 'empty', 'words']), rng.random()]
    case['start'] = rng.randint(0, 3)
    return case


def raw(m, k):
    return np.array(dict.__getitem__(m.s, k), copy=True)


def held(m, fixed, when):
    for k, v in fixed.items():
        for how, x in (('state', dict.__getitem__(m.s, k)), ('value read', m.s[k])):
            if not np.array_equal(np.asarray(x), v, equal_nan=True):
                e = np.nanmax(np.abs(np.asarray(x, float) - v)) if np.shape(x) == v.shape else np.nan
                raise Viol('the fixed variable %s changed by up to %.4g (%s) %s' % (k, e, how, when), 'held ' + k)


def case_fn(case, d, tally):
    if case['mode'] == 'damage':
        return damage(case, d, tally)
    if case['mode'] == 'forcing':
        return forcing(case, d, tally)
    s = case['s']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    root = os.path.dirname(cfg)
    free = None
    if case['mode'] == 'files':
        if case['unknown']:
            with seams.REAL['open'](os.path.join(root, 'nosuchvariable.hotstart'), 'w') as fp:
                fp.write('1 2 3\n')
        m = drive.bmi(cfg, runner=True)
        fixed = {k: scenario.hot_array(s, k) for k in s['hot']['which']}
        for k, v in fixed.items():
            a = raw(m, k)
            if a.shape != v.shape or not np.allclose(a, v, rtol=0, atol=1.1e-8):
                raise Viol('%s is not the content of its hotstart file' % k, 'loaded')
            fixed[k] = a
        if 'nosuchvariable' in m.s:
            raise Viol('a hotstart file of an unknown variable created it', 'unknown')
    else:
        m = drive.bmi(cfg, runner=True)
        for _ in range(case['start']):
            drive.step(m, seed=case['seed'])
        fixed = {}
        for k in case['vars']:
            if k in m.s and isinstance(m.s[k], np.ndarray):
                m.s.set_immutable(k)
                fixed[k] = raw(m, k)
    # what would change otherwise
    with drive.cd(os.path.dirname(cfg)):
        free = drive.bmi(cfg, runner=False)
    a0 = {k: raw(free, k) for k in fixed}
    changes = set()
    n = 0
    for h in case['hist']:
        if h[0] == 'write':
            r = np.random.RandomState(h[1])
            for k in sorted(fixed):
                m.set_var(k, fixed[k] + r.uniform(-1, 1, fixed[k].shape))
                # the value handed out is not the state itself
                x = m.get_var(k)
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = -7.
                m.s.update({k: np.zeros(fixed[k].shape)})
            tally.kind('write to a fixed variable')
        elif h[0] == 'release':
            if not fixed:
                continue
            k = sorted(fixed)[0]
            m.s.set_mutable(k)
            v = fixed.pop(k)
            m.set_var(k, v * 1.)
            if not np.array_equal(raw(m, k), v, equal_nan=True):
                raise Viol('a value written to the released variable %s does not read back' % k, 'release')
            if m.s[k] is not dict.__getitem__(m.s, k):
                raise Viol('the released variable %s is still handed out as copy' % k, 'release')
            tally.kind('released')
        else:
            dt = {'step': lambda: -1, 'dt': lambda: h[1], 'forward': lambda: -max(1.5, h[1])}[h[0]]()
            try:
                drive.step(m, dt, seed=case['seed'])
            except Exception as e:
                if not drive.in_aeolis(e):
                    raise
                raise Viol('a step with %s fixed fails: %s: %s [%s]' % (', '.join(sorted(fixed)), type(e).__name__, str(e)[:150], drive.where(e)), 'fails ' + drive.where(e))
            drive.step(free, dt, seed=case['seed'])
            tally.steps += 2
            n += 1
            for k in fixed:
                if not np.array_equal(raw(free, k), a0[k], equal_nan=True):
                    changes.add(k)
        held(m, fixed, 'after %s at t=%r' % (h[0], m.t))
        tally.state(drive.digest(m))
        tally.kind('held', len(fixed))
    tally.runs += 2
    tally.simtime += m.t
    if n >= 2 and changes:
        tally.key = [skey(s), case['mode'], sorted(changes), case['hist']]


def forcing(case, d, tally):
    """A forcing fixed at a value acts like a series of that value."""
    s = case['s']
    k, v = case['vars'][0], case['value']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    t = copy.deepcopy(s)
    if k == 'uw':
        for r in t['wind']:
            r[1] = v
    elif k == 'SWL':
        t['tide'] = [[r[0], v] for r in t['tide']]
    else:
        for r in t['wave']:
            r[1 if k == 'Hs' else 2] = v
    m = drive.bmi(cfg)
    w = drive.bmi(scenario.materialise(t, os.path.join(d, 'w')))
    m.set_var(k, np.full(np.shape(m.s[k]), v))
    m.s.set_immutable(k)
    n = 0
    for h in case['hist']:
        if h[0] not in ('step', 'dt'):
            continue
        dt = -1 if h[0] == 'step' else h[1]
        drive.step(m, dt, seed=case['seed'])
        drive.step(w, dt, seed=case['seed'])
        tally.steps += 2
        n += 1
        e = drive.diff(drive.Snap(w), drive.Snap(m), skip=(k,) + (('SWL',) if False else ()), rtol=1e-9, atol=1e-12)
        if e:
            raise Viol('%s fixed at %g acts differently from a series of that value: %s' % (k, v, e), 'forcing ' + k)
        held(m, {k: np.full(np.shape(m.s[k]), v)}, 'at t=%r' % m.t)
        tally.kind('forcing compared')
    tally.state(drive.digest(m))
    tally.runs += 2
    tally.simtime += m.t * 2
    if n >= 2:
        tally.key = [skey(s), 'forcing', k, v]


def damage(case, d, tally):
    """A damaged hotstart file is refused, not ignored."""
    s = case['s']
    kind, x = case['damage']
    cfg = scenario.materialise(s, os.path.join(d, 'm'))
    root = os.path.dirname(cfg)
    k = s['hot']['which'][0]
    f = os.path.join(root, k + '.hotstart')
    with seams.REAL['open'](f, 'rb') as fp:
        b = fp.read()
    size = scenario.hot_array(s, k).size
    if kind == 'torn':
        b = b[:int(x * len(b))]
        if len(b.split()) == size:
            return
    elif kind == 'empty':
        b = b''
    elif kind == 'words':
        b = b[:len(b) // 2] + b' x ' + b[len(b) // 2:]
    if size == 1:
        return
    with seams.REAL['open'](f, 'wb') as fp:
        fp.write(b)
    steps = []
    with World(root) as w:
        real = w.disk_op

        def dop(op, path, n, detail=''):
            if kind == 'unreadable' and op == 'open_r' and str(path).endswith(k + '.hotstart'):
                return {'do': 'EIO'}
            return real(op, path, n, detail)
        w.disk_op = dop
        o = drive.run(cfg, on_step=lambda m, i: steps.append(m.t), seed=case['seed'])
    tally.runs += 1
    tally.fault('hotstart file ' + kind)
    if o.kind != 'exception':
        raise Viol('the hotstart file of %s is %s, yet the model runs %d steps' % (k, kind, len(steps)), 'damaged accepted')
    if steps:
        raise Viol('a damaged hotstart file is reported after %d steps' % len(steps), 'late')
    tally.kind('refused')
    tally.key = [skey(s), kind, k, x]


execute = guarded(case_fn)


def _extra(case):
    h = case['hist']
    for i in range(len(h)):
        if len(h) > 1:
            yield dict(case, hist=h[:i] + h[i + 1:])
    if len(case['vars']) > 1 and case['mode'] == 'state':
        for k in case['vars']:
            yield dict(case, vars=[k])
    hot = case['s'].get('hot')
    if hot and len(hot['which']) > 1:
        for k in hot['which']:
            yield dict(case, s=dict(case['s'], hot=dict(hot, which=[k])))


shrink = shrinker(_extra)
