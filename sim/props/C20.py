"""Saving the model configuration: exact, recoverable, reported."""
import copy
import os
import random
import re

import numpy as np

from .common import *

LEVEL = 'fault_enumeration'
RUNS = (2000, 60000)
RULE = ('one case = one seeded scenario whose parameters and input series are changed by a seeded sequence of set_params calls and saved (directly, or by '
        'running the model), under a simulated clock; in some cases one seeded operation of one save fails (I/O error, full disk with a torn write, no '
        'permission, too many open files) or kills the process, after which saving is tried again; every earlier version of every file is looked for, '
        'and the saved configuration is read back by a fresh model and run against the model that saved it; non-trivial when the save was complete and read back '
        'after a change, or a fault fired; in some cases the configuration is also written by hand in other notations and read; distinct by scenario structure, changes and fault')
ASSUMPTIONS = ['values are of the types the configuration file knows (numbers, flags, words, lists of these, arrays of numbers)',
               'a failed save may leave the newest version incomplete; it never takes an earlier one with it',
               'bytes handed to the operating system survive a process crash; power loss is not simulated']

NUM = {'k': (1e-5, .01), 'T': (.3, 3.), 'bi': (.05, 1.), 'Cb': (.5, 3.), 'z': (2., 20.), 'rhoa': (1., 1.4), 'porosity': (.3, .5),
       'Aa': (.05, .12), 'kappa': (.38, .42), 'v': (1e-6, 1e-4), 'max_error': (1e-9, 1e-5), 'CFL': (.3, 1.), 'Ck': (1., 4.), 'rhog': (2000., 3000.),
       'alfa': (-170., 170.), 'accfac': (1., 7.), 'offshore_flux': (0., 1.)}


def gen(rng):
    # faults of 'steps' are counted within the saves
    s = scenario.gen(rng, steps=rng.randint(2, 5), allow=['tide', 'wave', 'runup', 'moist', 'mask', 'ne', 'bedcomp', 'graindist2d', 'veg', 'avalanche', 'fence'])
    if s['dim'] == 2:
        s['nx'], s['ny'] = min(s['nx'], 7), min(s['ny'], 4)
    saves = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ch = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < .5:
                k = rng.choice(sorted(NUM))
                lo, hi = NUM[k]
                v = rng.choice([rng.uniform(lo, hi), max(lo, round(rng.uniform(lo, hi), 3)), lo, hi, lo * (1 + 2e-16)])
                if rng.random() < .2:
                    v = {'np': v}
                ch.append([k, v])
            elif r < .6:
                ch.append(['max_iter', rng.choice([50, 100, 1000])])
            elif r < .7:
                ch.append([rng.choice(['th_bedslope', 'process_bedupdate', 'th_grainsize']), rng.random() < .5])
            elif r < .8:
                ch.append(['method_transport', rng.choice(['bagnold', 'kawamura', 'lettau', 'dk'])])
            elif r < .85:
                ch.append(['output_vars', rng.choice([['zb'], ['zb', 'Ct_avg'], ['uw', 'mass', 'qs_sum', 'Ct_max']])])
            elif r < .9:
                ch.append(['external_vars', rng.choice([[], None, ['extra_a'], ['extra_a', 'b2']])])
            else:
                ch.append([rng.choice(['wind_file', 'bed_file', 'tide_file', 'ne_file', 'bedcomp_file', 'xgrid_file', 'tide_mask', 'threshold_mask', 'grain_dist']), {'scale': rng.uniform(.9, 1.1)}])
        saves.append(ch)
    fault = None
    if rng.random() < .6:
        fault = {'save': rng.randrange(len(saves)), 'op': rng.random(), 'keep': rng.choice([0., rng.random()]),
                 'do': rng.choice(['crash', 'crash', 'EIO', 'ENOSPC', 'ENOSPC', 'EACCES', 'EMFILE'])}
    return {'s': s, 'seed': rng.randint(0, 10**6), 'saves': saves, 'fault': fault, 'how': rng.choice(['write', 'write', 'run']),
            'from': rng.choice(['inside', 'outside']), 'name': rng.choice([None, None, None, 'other.txt', 'sub.v2/case 1.cfg']),
            'tidy': rng.randint(0, 10**6) if rng.random() < .4 else None,
            'notation': rng.randint(0, 10**6) if rng.random() < .3 else None,
            'relative': rng.random() < .5, 'full': rng.random() < .03, 'jump': rng.choice([0., -1e6, 1e7])}


def value(m, k, v, d):
    if k == 'grain_dist':
        a = np.atleast_1d(m.p[k])
        return (np.loadtxt(os.path.join(d, str(a[0]))) if a.dtype.kind == 'U' else a) * v['scale']
    if isinstance(v, dict) and 'np' in v:
        return np.float64(v['np'])
    if isinstance(v, dict):
        a = m.p.get(k)
        if isinstance(a, str):
            a = np.loadtxt(os.path.join(d, a))
        return None if not isinstance(a, np.ndarray) else np.asarray(a) * (np.array([1.] + [v['scale']] * (a.shape[1] - 1)) if k in ('wind_file', 'tide_file') else v['scale'])
    return copy.copy(v)


def listing(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(('.log', '.nc', '.py')) or re.search(r'\.r\d{10}$', f):
                continue
            with seams.REAL['open'](os.path.join(b, f), 'rb') as fp:
                out[os.path.relpath(os.path.join(b, f), d)] = fp.read()
    return out


def recoverable(versions, now, when):
    """Each version of each file exists under its name or as backup."""
    for f in sorted(versions):
        have = [v for g, v in now.items() if g == f or re.fullmatch(re.escape(f) + r'~\d{3}', g)]
        for v in versions[f]:
            if v not in have:
                raise Viol('a version of %s (%d bytes) exists neither as itself nor as backup %s' % (f, len(v), when), 'lost')


def same(a, b):
    """Equal for every use the model makes of a parameter."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        e = lambda v: v is None or (np.ndim(v) > 0 and np.size(v) == 0)
        if e(a) or e(b):
            return e(a) and e(b)
        a, b = np.asarray(a), np.asarray(b)
        if a.ndim <= 1 and b.ndim <= 1:
            a, b = np.atleast_1d(a), np.atleast_1d(b)
        return a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and a == b or (isinstance(a, (bool, np.bool_)) == isinstance(b, (bool, np.bool_)) and a == b)


def compare(p, q, parsed, when):
    for k in sorted(p):
        if k.startswith('_'):
            continue
        if k not in q:
            raise Viol('parameter %s is missing %s' % (k, when), 'missing ' + k)
        # grids and series are given as arrays and read from the files they were saved to
        x = parsed[k] if isinstance(p[k], np.ndarray) and p[k].dtype.kind != 'U' else q[k]
        if not same(p[k], x):
            raise Viol('parameter %s is %s instead of %s %s' % (k, str(x)[:60].replace('\n', ' '), str(p[k])[:60].replace('\n', ' '), when), 'value ' + k)


def number(rng, tok):
    """Another way to write a number, of the same value and type."""
    if re.fullmatch(r'-?[0-9]+', tok):
        return rng.choice([tok, tok if tok[0] == '-' else '+' + tok, tok if tok[0] == '-' else '0' + tok])
    v = float(tok)
    c = [tok, repr(v), '%.17e' % v, '%.17E' % v, '%.20f' % v, '%.17g' % v] + (['+' + repr(v)] if tok[0] != '-' else [])
    r = repr(v)
    if 'e' not in r:
        c += [r.rstrip('0'), r.lstrip('0') if tok[0] != '-' else r.replace('-0.', '-.'), r + '00', r + 'e0', r + 'E+00', r.rstrip('0') + 'e-00']
    else:
        c += [r.replace('e-0', 'e-'), r.upper()]
    c = [x for x in c if re.search('[0-9]', x) and not re.fullmatch(r'[+-]?[0-9]+', x) and float(x) == v]
    return rng.choice(c)


def notation(case, d, tally):
    """A configuration means the same in whichever way it is written by hand."""
    rng = random.Random(case['notation'])
    cfg = place(case, d)
    with seams.REAL['open'](cfg, 'r') as fp:
        lines = [l.strip().split(' = ') for l in fp if ' = ' in l]
    for k in sorted(NUM):
        if k not in [l[0] for l in lines]:
            lines.append([k, repr(rng.uniform(*NUM[k]))])
    lines.append(['extra_list', ' '.join(repr(rng.uniform(-1, 1)) for _ in range(3))])
    with seams.REAL['open'](cfg, 'w') as fp:
        fp.write(''.join('%s = %s\n' % tuple(l) for l in lines))
    eol = rng.choice(['\n', '\n', '\r\n'])
    out = []
    for k, v in rng.sample(lines, len(lines)):
        toks = v.split(' ')
        toks = [number(rng, t) if re.fullmatch(r'-?[0-9.]+(e-?[0-9]+)?', t) else t for t in toks]
        v = toks[0]
        for t in toks[1:]:
            v += rng.choice([' ', ' ', '  ', '    ', ' \t']) + t
        out.append(rng.choice(['', '', ' ', '\t']) + k + rng.choice([' = ', '=', '   =  ', ' =', '\t=\t']) + v
                   + rng.choice(['', '', '', '  ', ' % a remark', '% k = 5', '\t% 1e5 %']))
        if rng.random() < .15:
            out.append(rng.choice(['', '% remark', '  % T = 99.', 'a line that is no setting', '%' + k + ' = 1']))
    with seams.REAL['open'](os.path.join(d, 'hand.txt'), 'w', newline='') as fp:
        fp.write(eol.join(out) + rng.choice([eol, '', eol * 3]))
    import aeolis.inout
    with drive.cd(d), core.Quiet():
        p, q = (call('reading a configuration', aeolis.inout.read_configfile, f) for f in ('aeolis.txt', 'hand.txt'))
    for k in sorted(set(p) | set(q)):
        if k == 'output_file' and 'output_file' not in [l[0] for l in lines]:
            continue
        if k not in p or k not in q or not (same(p[k], q[k]) and (isinstance(p[k], np.ndarray) or type(p[k]) is type(q[k]))):
            raise Viol('%s is %r in a configuration written as %r, otherwise %r' % (
                k, q.get(k), [l for l in out if l.strip().startswith(k)][:1], p.get(k)), 'notation')
    tally.kind('notations read', len(lines))


def place(case, d):
    cfg = scenario.materialise(case['s'], d)
    return cfg


def start(case, cfg):
    """A model whose parameters are those of cfg; tells the file it saves to."""
    d = os.path.dirname(cfg)
    with drive.cd(d), core.Quiet():
        m = drive.make('aeolis.txt' if case['relative'] else cfg)
        if case['name']:
            os.makedirs(os.path.join(d, os.path.dirname(case['name'])), exist_ok=True)
            n = case['name']
            if os.sep in n:
                # input files are named relative to the configuration
                for f in os.listdir(d):
                    if f.endswith(('.grd', '.txt')) and f != 'aeolis.txt':
                        with seams.REAL['open'](os.path.join(d, f), 'rb') as fp:
                            b = fp.read()
                        with seams.REAL['open'](os.path.join(d, os.path.dirname(n), f), 'wb') as fp:
                            fp.write(b)
            m.set_configfile(n if case['relative'] and os.sep not in n else os.path.join(d, n))
            return m, os.path.join(d, n)
    return m, cfg


def save(case, m, target, how, seed, on_step=None):
    """Saves by writing the configuration or by a run."""
    d = os.path.dirname(target)
    if how == 'write':
        with drive.cd(d), core.Quiet():
            m.write_params()
        return None
    cwd = d if case['from'] == 'inside' or (case['relative'] and case['name']) else os.path.dirname(os.path.dirname(d))
    return drive.run(target, on_step=on_step, seed=seed, model=m, cwd=cwd)


def case_fn(case, d, tally):
    s = case['s']
    fault = case['fault']
    if case['notation'] is not None:
        notation(case, os.path.join(d, 'hand'), tally)
    # ---- fault-free pass: operations of the save that is to fail
    plan = None
    if fault:
        plan = attempt(case, os.path.join(d, 'plan'), None, tally, judge=False)
        if plan is None:
            return
        ops = plan[fault['save']]
        cand = [i for i, o in enumerate(ops) if o[0] != 'open_r']
        if not cand:
            return
        i = cand[int(fault['op'] * len(cand))]
        if fault['op'] < .5:
            # every file is opened, copied and closed once but written often
            c2 = [j for j in cand if ops[j][0] != 'write']
            i = c2[int(fault['op'] * 2 * len(c2))]
        f = {'op': i, 'do': fault['do'], 'keep': int(fault['keep'] * ops[i][3])}
        if ops[i][0] == 'copyfile' and fault['keep']:
            f['keep'] = 1 + int(fault['keep'] * 100)
        attempt(case, os.path.join(d, 'm'), f, tally, judge=True, hit=ops[i])
    else:
        attempt(case, os.path.join(d, 'm'), None, tally, judge=True)


def attempt(case, base, f, tally, judge, hit=None):
    s = case['s']
    cfg = place(case, os.path.join(base, 'm'))
    d = os.path.dirname(cfg)
    m, target = start(case, cfg)
    versions = {}
    plans = []
    fired = False
    clock = {'start': 1.6e9, 'tick': .01, 'jumps': [[2, case['jump']]]}
    sub = os.path.dirname(case['name'] or '')
    for n, ch in enumerate(case['saves']):
        kw = {}
        for k, v in ch:
            x = value(m, k, v, os.path.dirname(target))
            if x is not None or k == 'external_vars':
                kw[k] = x
        if not kw:
            kw = {'k': .00123 + n}
        m.set_params(**kw)
        p0 = copy.deepcopy(m.p)
        if case.get('tidy') is not None and n:
            tidy(case, d, n, versions, tally)
        now = listing(d)
        for g, b in now.items():
            if not re.search(r'~\d{3}$', g):
                versions.setdefault(g, [])
                if b not in versions[g]:
                    versions[g].append(b)
        backups = {g: b for g, b in now.items() if re.search(r'~\d{3}$', g)}
        if case['full'] and judge and n == 0 and os.path.exists(target):
            full(case, m, target, now, tally)
            backups = {g: b for g, b in listing(d).items() if re.search(r'~\d{3}$', g)}
        how = case['how'] if n == len(case['saves']) - 1 else 'write'
        snaps = []
        mine = f if f is not None and case['fault']['save'] == n else None
        on = (lambda mm, i: snaps.append(drive.Snap(mm)))

        def go(how=how):
            with World(d, [mine] if mine else [], clock) as w:
                try:
                    o = save(case, m, target, how, case['seed'], on)
                    e = None if o is None or o.exc is None else o.exc
                    if o is not None and o.kind == 'budget':
                        return 'budget', None, len(w.fired), w.ops
                    if e is None:
                        return 'ok', None, len(w.fired), w.ops
                except Exception as x:
                    if not isinstance(x, seams.InjectedError) and not drive.in_aeolis(x):
                        raise
                    e = x
                return 'exception', (type(e).__name__, str(e)[:200], drive.where(e), isinstance(e, seams.InjectedError)), len(w.fired), w.ops
        if mine:
            # operations of a run after the save are not part of the plan
            how = 'write' if case['how'] == 'write' else how
            if mine['do'] == 'crash':
                code, r = drive.in_child(go)
                if code != 77:
                    if r is None:
                        raise RuntimeError('child ended with %r' % code)
                    return None
                fired = True
            else:
                kind, e, nf, ops = go()
                if nf:
                    fired = True
                    if kind != 'exception':
                        raise Viol('%s at %s of %s is not reported' % (mine['do'], hit[0], hit[1]), 'silent')
            if fired:
                tally.fault('%s at %s%s' % (mine['do'], hit[0], ' (torn)' if mine['keep'] else ''))
                tally.key = [skey(s), len(case['saves']), n, mine['op'], mine['do'], mine['keep'], [c[0] for c in ch]]
                now = listing(d)
                when = 'after %s at %s of %s' % (mine['do'], hit[0], hit[1])
                recoverable(versions, now, when)
                keep(backups, now, when)
                tally.kind('recovered')
                # try again, with the model at hand or with a fresh one
                if mine['do'] == 'crash':
                    m, target = start(case, place2(case, cfg, now))
                    m.p.update(copy.deepcopy(p0))
                m.set_params(**kw)
                mine = None
                for g, b in now.items():
                    # also what the fault left behind is backed up
                    pass
                kind, e, nf, ops = go('write')
                how = 'write'
                if kind != 'ok':
                    raise Viol('saving again %s fails: %s: %s [%s]' % ((when,) + e[:3]), 'again')
                backups = {g: b for g, b in now.items() if re.search(r'~\d{3}$', g)}
        else:
            kind, e, nf, ops = go()
            if kind == 'exception':
                raise Viol('saving the configuration%s: unexpected %s: %s [%s]' % ((' and running' if how == 'run' else '',) + e[:3]), 'exception %s %s' % (e[0], e[2]))
            if kind == 'budget':
                return None
        plans.append(ops)
        tally.runs += 1
        if not judge:
            continue
        now = listing(d)
        when = 'after saving'
        recoverable(versions, now, when)
        keep(backups, now, when)
        # read back
        with drive.cd(os.path.dirname(target)), core.Quiet():
            q = call('reading the saved configuration', drive.make, target).p
            import aeolis.inout
            parsed = call('reading the saved configuration', aeolis.inout.read_configfile, target)
        compare(p0, q, parsed, 'after saving and reading the configuration')
        tally.kind('configuration read back')
        tally.note(n, sorted(now))
        if how == 'run':
            got = []
            o = drive.run(target, on_step=lambda mm, i: got.append(drive.Snap(mm)), seed=case['seed'])
            exc_viol(o, 'run of the saved configuration')
            if len(got) != len(snaps):
                raise Viol('the saved configuration runs %d steps, the model that saved it %d' % (len(got), len(snaps)), 'run length')
            for a, b in zip(snaps, got):
                e = drive.diff(a, b)
                if e:
                    raise Viol('the saved configuration runs differently from the model that saved it: ' + e, 'run')
            tally.kind('run compared')
            tally.steps += 2 * len(got)
            if got:
                tally.state(got[-1].digest())
                tally.simtime += got[-1].t * 2
    if judge and not fired and case['fault'] is None:
        tally.key = [skey(s), case['saves'], case['name']]
    if not judge:
        # the save is what happens before the first output operation
        return [[o for o in ops] if True else None for ops in [cut(x) for x in plans]]
    return plans


def cut(ops):
    """Operations until the model starts reading its configuration."""
    out = []
    for o in ops:
        if o[0].startswith('nc_'):
            break
        out.append(o)
    return out


def tidy(case, d, n, versions, tally):
    """The user removes an older backup of each file."""
    rs = random.Random(case['tidy'] + n)
    old = {}
    for g, b in sorted(listing(d).items()):
        if re.search(r'~\d{3}$', g):
            old.setdefault(g[:-4], []).append((g, b))
    for f in sorted(old):
        g, b = rs.choice(old[f])
        os.remove(os.path.join(d, g))
        if b in versions.get(f, []):
            versions[f].remove(b)
        tally.fault('backup removed by the user')


def keep(backups, now, when):
    for g, b in backups.items():
        if now.get(g) != b:
            raise Viol('the backup %s is %s %s' % (g, 'overwritten' if g in now else 'gone', when), 'backup')


def place2(case, cfg, now):
    """After a crash the configuration may be torn: the user restores it
    from its backup, here into the original file only."""
    d = os.path.dirname(cfg)
    # the parameters are taken from the crashed model, only a readable file is needed
    with seams.REAL['open'](cfg, 'rb') as fp:
        b = fp.read()
    best = [v for g, v in now.items() if re.fullmatch(r'aeolis\.txt~\d{3}', g)]
    return cfg


def full(case, m, target, now, tally):
    """All backup names are taken: refused, nothing is lost."""
    d = os.path.dirname(target)
    made = []
    for i in range(1, 1000):
        g = '%s~%03d' % (target, i)
        if not os.path.exists(g):
            with seams.REAL['open'](g, 'w') as fp:
                fp.write('%d' % i)
            made.append(g)
    before = listing(d)
    try:
        with drive.cd(d), core.Quiet():
            m.write_params()
    except Exception:
        pass
    else:
        raise Viol('saving succeeds though no backup can be made', 'full')
    after = listing(d)
    for g, b in before.items():
        if after.get(g) != b:
            raise Viol('%s changes when no backup can be made' % g, 'full')
    tally.fault('no backup name left')
    for g in made:
        os.remove(g)
    m.changed = True


execute = guarded(case_fn)


def _extra(case):
    if len(case['saves']) > 1:
        for i in range(len(case['saves'])):
            ss = case['saves'][:i] + case['saves'][i + 1:]
            f = case['fault']
            if f:
                f = dict(f, save=min(f['save'], len(ss) - 1))
            yield dict(case, saves=ss, fault=f)
    for i, c in enumerate(case['saves']):
        for j in range(len(c)):
            if len(c) > 1:
                yield dict(case, saves=case['saves'][:i] + [c[:j] + c[j + 1:]] + case['saves'][i + 1:])
    if case['notation'] is not None:
        yield dict(case, notation=None)
        yield dict(case, fault=None, saves=case['saves'][:1])
    if case['name']:
        yield dict(case, name=None)
    if case['how'] == 'run':
        yield dict(case, how='write')


shrink = shrinker(_extra)
