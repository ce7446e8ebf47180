"""The command line: the same runs, honest exit status, complete examples."""
import filecmp
import glob
import logging
import os
import random
import sys

import numpy as np

from .common import *

LEVEL = 'fault_enumeration'
RUNS = (500, 24000)
RULE = ('one case = one seeded command line (run with seeded scenario, working directory, path notation, callback and restart options; run of something that cannot run; '
        'examples into a seeded destination; deprecated commands), in most cases with one seeded disk error or a kill of the process at one of its disk operations; the same run is '
        'made through the library under the same faults and exit status, files and working directory are compared; non-trivial when a run made at least two steps, a fault fired or the command '
        'was refused; distinct by scenario structure, command line and fault')
ASSUMPTIONS = ['paths of callbacks and restart files are absolute or relative to the model directory',
               'an exception that leaves the command ends the process with a nonzero status, as the Python interpreter does']
STUB = ['clock (simulated)', 'disk errors and kills (injected by the simulator)', 'process start (the entry point is called in a forked process with its own argument vector)']


def gen(rng):
    kind = rng.choice(['run'] * 8 + ['refused'] * 3 + ['examples'] + ['deprecated'])
    s = scenario.gen(rng, steps=rng.randint(2, 6), allow=PHYS + ['veg'], mbc=999.)
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 8), min(s['ny'], 4)
    if rng.random() < .5:
        eff = min(s['dt'], .1 * s['dx']) if s['scheme'] == 'euler_forward' else s['dt']
        s['restart'] = max(1., round(eff * s['accfac'] * rng.choice([1., 2.]), 3))
    case = {'kind': kind, 's': s, 'seed': rng.randint(0, 10**6), 'cwd': rng.choice(['model', 'above', 'elsewhere']), 'rel': rng.random() < .5,
            'callback': rng.choice([None, None, 'script', 'script', 'config', 'both']), 'resume': rng.choice([None, None, 'rel', 'abs']),
            'opts': rng.choice([[], [], ['--debug'], ['--verbose', '10']]), 'late': rng.random() < .3,
            'fault': None}
    if rng.random() < .6:
        case['fault'] = {'op': rng.random(), 'keep': rng.choice([0., rng.random()]), 'do': rng.choice(['crash', 'crash', 'EIO', 'ENOSPC', 'EACCES', 'EROFS'])}
    if kind == 'refused':
        case['why'] = rng.choice(['no config', 'no argument', 'config is a directory', 'no callback file', 'no callback function', 'callback without colon', 'callback raises',
                                  'callback exits', 'no restart', 'torn restart', 'no wind', 'bad scheme', 'unknown option', 'no command', 'bad bed', 'log unwritable'])
    if kind == 'examples':
        case['dest'] = rng.choice(['new', 'new', 'new/er', 'existing', 'again', 'half'])
    if kind == 'deprecated':
        case['which'] = rng.choice(['aeolis file', 'aeolis-wind file'])
    return case


CB = '''
import numpy as np
seen = []
def go(model):
    np.random.seed((int(model.get_current_time() * 1000.) + %d) %% 2**31)
    seen.append(1)
    zb = model.get_var('zb').copy()
    zb += .001 * %d
    model.set_var('zb', zb)
def bad(model):
    seen.append(1)
    if len(seen) > 2:
        raise RuntimeError('deliberate')
def leave(model):
    raise SystemExit(0)
def nothing(model):
    np.random.seed((int(model.get_current_time() * 1000.) + %d) %% 2**31)
'''


def command(argv, cwd):
    """Calls the installed entry point as a process of its own would."""
    import aeolis.console as C
    old, hook, home = sys.argv, sys.excepthook, os.getcwd()
    entry = {'aeolis': C.start_aeolis_app, 'aeolis-wind': C.start_aeolis_wind_app}[argv[0]]
    exc = None
    os.chdir(cwd)
    cwd = os.getcwd()
    try:
        with core.Quiet():
            sys.argv = list(argv)
            try:
                entry()
                status = 0
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Exception as e:
                status, exc = 1, '%s: %s [%s]' % (type(e).__name__, str(e)[:200], drive.where(e))
        kept = os.getcwd() == cwd
    finally:
        sys.argv, sys.excepthook = old, hook
        os.chdir(home)
        core.reset_logging()
    return {'status': status, 'exc': exc, 'cwd': kept}


def library(cfg, cwd, callback, restart):
    import aeolis.model as M
    home = os.getcwd()
    os.chdir(cwd)
    cwd = os.getcwd()
    try:
        with core.Quiet():
            try:
                m = M.AeoLiSRunner(configfile=cfg)
                m.run(callback=callback, restartfile=restart)
                out = {'status': 0, 'exc': None, 'count': m.get_count('time')}
            except SystemExit as e:
                out = {'status': e.code or 0, 'exc': None}
            except Exception as e:
                out = {'status': 1, 'exc': '%s: %s [%s]' % (type(e).__name__, str(e)[:200], drive.where(e))}
        out['cwd'] = os.getcwd() == cwd
    finally:
        os.chdir(home)
        core.reset_logging()
    return out


def files(root):
    out = {}
    for b, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(('.pyc', '.log')):
                p = os.path.join(b, f)
                with seams.REAL['open'](p, 'rb') as fp:
                    out[os.path.relpath(p, root)] = fp.read()
    return out


def compare(a, b, what):
    """Two model directories hold the same files."""
    A, B = files(a), files(b)
    if set(A) != set(B):
        d = sorted(set(A) ^ set(B))[0]
        raise Viol('%s is written by %s only %s' % (d, 'the library' if d in A else 'the command line', what), 'files')
    for f in sorted(A):
        if f.endswith('.nc'):
            try:
                x = drive.read_nc(os.path.join(a, f))
            except Exception:
                x = None
            try:
                y = drive.read_nc(os.path.join(b, f))
            except Exception:
                y = None
            if (x is None) != (y is None) or x is None:
                if (x is None) != (y is None):
                    raise Viol('%s can be read on one side only %s' % (f, what), 'nc')
                continue
            if set(x) != set(y):
                raise Viol('variables of %s differ %s' % (f, what), 'nc')
            for k in x:
                if x[k] is not None and (x[k].shape != y[k].shape or not np.array_equal(x[k], y[k], equal_nan=True)):
                    raise Viol('%s of %s differs between command line and library %s' % (k, f, what), 'nc')
        elif f.endswith('.txt') and A[f] != B[f] and b'%% Date' in A[f]:
            continue
        elif A[f].replace(a.encode(), b'') != B[f].replace(b.encode(), b''):
            raise Viol('%s differs between command line and library %s' % (f, what), 'content')


def prep(case, d, name):
    s = dict(case['s'])
    ex = dict(s.get('extra') or {})
    if case['callback'] in ('config', 'both') and case['kind'] == 'run':
        ex['callback'] = 'cb.py:go' if case['callback'] == 'config' else 'cb.py:bad'
    s['extra'] = ex
    root = os.path.join(d, name, 'area', 'm')
    cfg = scenario.materialise(s, root)
    os.makedirs(os.path.join(d, name, 'other'), exist_ok=True)
    with seams.REAL['open'](os.path.join(root, 'cb.py'), 'w') as fp:
        fp.write(CB % (case['seed'], case['seed'] % 7, case['seed']))
    return cfg, root


def place(case, d, name, cfg, root):
    cwd = {'model': root, 'above': os.path.dirname(root), 'elsewhere': os.path.join(d, name, 'other')}[case['cwd']]
    return cwd, (os.path.relpath(cfg, cwd) if case['rel'] else cfg)


def side(case, d, name, use_cli, restart, faults):
    """Runs one side in a forked process (a kill ends it)."""
    cfg, root = prep(case, d, name)
    if restart:
        with seams.REAL['open'](os.path.join(root, 'old.r0000000001'), 'wb') as fp:
            fp.write(restart)
    cwd, path = place(case, d, name, cfg, root)
    cb = {None: None, 'script': 'cb.py:go', 'config': None, 'both': 'cb.py:go'}[case['callback']] or (None if case['callback'] == 'config' else 'cb.py:nothing')
    rs = None
    if restart:
        rs = 'old.r0000000001' if case['resume'] == 'rel' else os.path.join(root, 'old.r0000000001')

    def go():
        np.random.seed(case['seed'])
        with World(root, faults) as w:
            if use_cli:
                argv = ['aeolis', 'run', path] + case['opts']
                o = [['--callback', cb] if cb else [], ['--restart', rs] if rs else []]
                for x in (o[::-1] if case['late'] else o):
                    argv += x
                r = command(argv, cwd)
            else:
                r = library(path, cwd, cb, rs)
        return dict(r, ops=[x[0] for x in w.ops], sizes=[x[3] for x in w.ops], fired=len(w.fired), clock=w.now)
    code, r = drive.in_child(go)
    if r is None:
        if code != 77:
            raise RuntimeError('child ended with %r' % code)
        r = {'status': 'killed', 'exc': None, 'cwd': True, 'ops': [], 'fired': 1}
    return r, root


def run_case(case, d, tally):
    restart = None
    if case['resume']:
        # a restart file of an earlier, longer run
        s = dict(case['s'], restart=1.)
        cfg, root = prep(dict(case, s=s, callback=None), d, 'early')
        drive.run(cfg, seed=case['seed'])
        left = sorted(glob.glob(os.path.join(root, '*.r??????????')))
        left = [x for x in left if int(x.rsplit('.r', 1)[1]) > 0]
        if left:
            with seams.REAL['open'](left[len(left) // 2], 'rb') as fp:
                restart = fp.read()
    a, ra = side(case, d, 'a', False, restart, [])
    b, rb = side(case, d, 'b', True, restart, [])
    tally.runs += 2
    check(case, a, b, ra, rb, 'without faults')
    if a['status'] != 0:
        raise Viol('fault-free run fails: %s' % a['exc'], 'fails')
    tally.kind('run compared')
    tally.steps += 2 * a.get('count', 0)
    if a.get('count', 0) >= 2:
        tally.key = [skey(case['s']), case['cwd'], case['rel'], case['callback'], case['resume'], case['opts'], None]
    tally.note(a['ops'], a['status'])
    tally.state(core.h(repr(a['ops'])))
    f = case['fault']
    if not f or not a['ops']:
        return
    op = int(f['op'] * len(a['ops']))
    kind = a['ops'][op]
    plan = [{'op': op, 'do': f['do'], 'keep': int(f['keep'] * a['sizes'][op]) if kind == 'write' else 0}]
    a, ra = side(case, d, 'af', False, restart, plan)
    b, rb = side(case, d, 'bf', True, restart, plan)
    tally.runs += 2
    if not a['fired']:
        return
    check(case, a, b, ra, rb, 'after %s at %s' % (f['do'], kind))
    tally.fault('%s at %s' % (f['do'], kind))
    tally.state(core.h(repr((a['ops'], a['status'], f['do']))))
    tally.key = [skey(case['s']), case['cwd'], case['rel'], case['callback'], case['resume'], case['opts'], [op, kind, f['do']]]


def check(case, a, b, ra, rb, what):
    if (a['status'] == 'killed') != (b['status'] == 'killed'):
        raise Viol('library and command line do not make the same disk operations %s' % what, 'ops')
    if (a['status'] == 0) != (b['status'] == 0):
        raise Viol('the command ends with status %r while the library run %s %s' % (
            b['status'], 'completes' if a['status'] == 0 else 'fails (%s)' % a['exc'], what) + (' (%s)' % b['exc'] if b['exc'] else ''), 'status')
    if not b['cwd']:
        raise Viol('the working directory is not restored by the command %s' % what, 'cwd')
    compare(ra, rb, what)


def refused_case(case, d, tally):
    why = case['why']
    cfg, root = prep(case, d, 'a')
    cwd, path = place(case, d, 'a', cfg, root)
    argv = ['aeolis', 'run', path]
    fault = []
    started = False
    if why == 'no config':
        argv[2] = os.path.join(os.path.dirname(path), 'absent.txt')
    elif why == 'no argument':
        argv = argv[:2]
    elif why == 'config is a directory':
        argv[2] = os.path.dirname(path) or '.'
    elif why == 'no callback file':
        argv += ['--callback', 'nocb.py:go']
    elif why == 'no callback function':
        argv += ['--callback', 'cb.py:ghost']
    elif why == 'callback without colon':
        argv += ['--callback', 'cb.py']
    elif why == 'callback raises':
        argv += ['--callback', 'cb.py:bad']
        case = dict(case, s=dict(case['s'], steps=9))
        started = True
    elif why == 'callback exits':
        argv += ['--callback', 'cb.py:leave']
        started = True
    elif why == 'no restart':
        argv += ['--restart', 'absent.r0000000007']
        started = True
    elif why == 'torn restart':
        with seams.REAL['open'](os.path.join(root, 'torn.r0000000007'), 'wb') as fp:
            fp.write(b'\x80\x04\x95')
        argv += ['--restart', 'torn.r0000000007']
        started = True
    elif why == 'no wind':
        os.remove(os.path.join(root, 'wind.txt'))
        started = True
    elif why == 'bad scheme':
        edit(cfg, 'scheme', 'euler_sideward')
        started = True
    elif why == 'unknown option':
        argv += ['--fast']
    elif why == 'no command':
        argv = ['aeolis', 'fly']
    elif why == 'bad bed':
        with seams.REAL['open'](os.path.join(root, 'z.grd'), 'w') as fp:
            fp.write('1 2 three\n')
    elif why == 'log unwritable':
        os.remove(os.path.join(root, 'aeolis.log')) if os.path.exists(os.path.join(root, 'aeolis.log')) else None
        os.makedirs(os.path.splitext(cfg)[0] + '.log')
    before = files(root)
    uw = max(w[1] for w in case['s']['wind'])

    def go():
        np.random.seed(case['seed'])
        with World(root):
            r = command(argv, cwd)
            r['lib'] = library(argv[2], cwd, *[argv[argv.index(x) + 1] if x in argv else None for x in ('--callback', '--restart')]) \
                if why == 'callback raises' else None
        return r
    code, r = drive.in_child(go)
    tally.runs += 1
    if r is None:
        raise RuntimeError('child ended with %r' % code)
    if why == 'callback raises' and r['lib']['status'] == 0:
        if r['status'] != 0:
            raise Viol('the command ends with status %r while the library run completes' % r['status'], 'status')
        return
    if why == 'callback exits':
        if r['status'] != 0:
            raise Viol('a callback that ends the run with status 0 ends the command with %r (%s)' % (r['status'], r['exc']), 'exit')
    elif r['status'] == 0 and not (why == 'bad scheme' and uw == 0):
        raise Viol('the command succeeds though it cannot run (%s): %s' % (why, ' '.join(argv[1:])[:200]), 'accepted ' + why)
    if not r['cwd']:
        raise Viol('the working directory is not restored after a refused command (%s)' % why, 'cwd')
    after = files(root)
    for f in before:
        if before[f] != after.get(f):
            raise Viol('%s %s by a refused command (%s)' % (f, 'is changed' if f in after else 'is removed', why), 'changed')
    if not started:
        new = sorted(set(after) - set(before))
        if any(f.endswith('.nc') for f in new):
            raise Viol('a refused command (%s) writes %s' % (why, new[0]), 'writes')
    tally.kind('refused: ' + why)
    tally.fault(why)
    tally.note(why, r['status'])
    tally.key = [skey(case['s']), case['cwd'], case['rel'], why]


def edit(cfg, key, val):
    with seams.REAL['open'](cfg) as fp:
        t = fp.read().splitlines(True)
    t = [x for x in t if x.split('=')[0].strip() != key] + ['%s = %s\n' % (key, val)]
    with seams.REAL['open'](cfg, 'w') as fp:
        fp.writelines(t)


def trees(a, b):
    """First difference between two directory trees."""
    def ls(r):
        out = {}
        for base, ds, fs in os.walk(r):
            for f in fs:
                p = os.path.join(base, f)
                out[os.path.relpath(p, r)] = p
        return out
    A, B = ls(a), ls(b)
    if set(A) != set(B):
        return sorted(set(A) ^ set(B))[0]
    for f in sorted(A):
        if not filecmp.cmp(A[f], B[f], shallow=False):
            return f
    return None


def examples_case(case, d, tally):
    import aeolis
    src = os.path.join(os.path.dirname(aeolis.__file__), 'examples')
    want = {'Parabolic_dune': os.path.join(src, '2D', 'Parabolic_dune'), 'sandengine_small_grids': os.path.join(src, 'sandengine_small_grids')}
    home = os.path.join(d, 'home')
    os.makedirs(home)
    dest = {'new': 'fresh', 'new/er': 'fresh/er', 'existing': 'there', 'again': 'there', 'half': 'there'}[case['dest']]
    full = os.path.join(home, dest)
    mine = {}
    if case['dest'] == 'existing':
        os.makedirs(full)
        mine[os.path.join(full, 'notes.txt')] = b'mine'
    elif case['dest'] in ('again', 'half'):
        for k in (sorted(want) if case['dest'] == 'again' else [sorted(want)[case['seed'] % 2]]):
            os.makedirs(os.path.join(full, 'aeolis-examples', k))
            mine[os.path.join(full, 'aeolis-examples', k, 'aeolis.txt')] = b'nx = 7\n'
    for f, x in mine.items():
        with seams.REAL['open'](f, 'wb') as fp:
            fp.write(x)
    argv = ['aeolis', 'examples', dest if case['rel'] else full]

    def go(plan):
        def f():
            with World(home, plan) as w:
                r = command(argv, home)
            return dict(r, ops=[x[0] for x in w.ops], fired=len(w.fired))
        return drive.in_child(f)
    plan = []
    if case['fault']:
        plan = [{'op': int(case['fault']['op'] * 20), 'do': case['fault']['do'], 'keep': int(case['fault']['keep'] * 2000)}]
    code, r = go(plan)
    tally.runs += 1
    for f, x in mine.items():
        if not os.path.exists(f):
            raise Viol('%s is removed by copying the examples' % os.path.relpath(f, home), 'examples removed')
        with seams.REAL['open'](f, 'rb') as fp:
            if fp.read() != x:
                raise Viol('%s is overwritten by copying the examples' % os.path.relpath(f, home), 'examples overwrite')
    for k in want:
        if trees(want[k], want[k]):
            raise RuntimeError(k)
    if r is None:
        if code != 77:
            raise RuntimeError('child ended with %r' % code)
        tally.fault('kill while copying examples')
        tally.key = ['examples', case['dest'], case['rel'], plan[0]['op'], 'crash']
        return
    if not r['cwd']:
        raise Viol('the working directory is not restored by copying the examples', 'cwd')
    if r['fired']:
        tally.fault('%s while copying examples' % plan[0]['do'])
        tally.key = ['examples', case['dest'], case['rel'], plan[0]['op'], plan[0]['do']]
        if r['status'] == 0:
            raise Viol('%s while copying the examples is not reported' % plan[0]['do'], 'examples silent')
        return
    if case['dest'] in ('again', 'half'):
        if r['status'] == 0:
            raise Viol('copying the examples succeeds though a destination exists', 'examples exists')
    else:
        if r['status'] != 0:
            raise Viol('copying the examples fails: %s' % r['exc'], 'examples fail')
        for k in want:
            e = trees(want[k], os.path.join(full, 'aeolis-examples', k))
            if e:
                raise Viol('%s of example %s is missing or not the original' % (e, k), 'examples differ')
        tally.kind('examples complete')
    tally.key = ['examples', case['dest'], case['rel'], None]


def deprecated_case(case, d, tally):
    cfg, root = prep(case, d, 'a')
    cwd, path = place(case, d, 'a', cfg, root)
    before = files(root)
    argv = ['aeolis', path] if case['which'] == 'aeolis file' else ['aeolis-wind', os.path.join(os.path.dirname(path), 'w.txt')]

    def go():
        with World(root):
            return command(argv, cwd)
    code, r = drive.in_child(go)
    tally.runs += 1
    if r['status'] == 0:
        raise Viol('the withdrawn command "%s" reports success' % case['which'], 'deprecated')
    if files(root) != before:
        raise Viol('the withdrawn command "%s" writes files' % case['which'], 'deprecated')
    tally.kind('withdrawn command')
    tally.key = ['deprecated', case['which'], case['cwd'], case['rel'], skey(case['s'])]


def case_fn(case, d, tally):
    {'run': run_case, 'refused': refused_case, 'examples': examples_case, 'deprecated': deprecated_case}[case['kind']](case, d, tally)


execute = guarded(case_fn)


def _extra(case):
    if case['fault']:
        yield dict(case, fault=None)
    for k, v in (('callback', None), ('resume', None), ('opts', []), ('cwd', 'model'), ('rel', False), ('late', False)):
        if case[k] != v:
            yield dict(case, **{k: v})


shrink = shrinker(_extra)
