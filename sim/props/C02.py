"""Restart files under disk errors, torn writes and crashes."""
import glob
import os
import re

import numpy as np

from .common import *

LEVEL = 'fault_enumeration'
RUNS = (480, 16000)
RULE = ('one case = one seeded scenario whose disk operations on restart files are recorded in a fault-free run and '
        'which is then run again with one seeded fault (I/O error, full disk with a torn write, or crash of the '
        'process) at one of these operations, followed by reads of every file left behind, of truncated copies and of '
        'missing paths; non-trivial when the fault fired; distinct by scenario structure, operation, fault and torn length')
ASSUMPTIONS = ['a truncated file is the damage a torn or short write leaves; bit rot inside a complete file is not covered',
               'bytes handed to the operating system survive a process crash; power loss is not simulated']

RX = re.compile(r'\.r\d+')


def gen(rng):
    s = scenario.gen(rng, dim=rng.choice([1, 1, 1, 2]), steps=rng.randint(4, 9), allow=PHYS + ['veg'], mbc=999.)
    eff = min(s['dt'], .1 * s['dx']) if s['scheme'] == 'euler_forward' else s['dt']
    s['restart'] = max(1., round(eff * s['accfac'] * rng.choice([1., 1., 2.]), 3))
    if rng.random() < .3:
        s['output_file'] = rng.choice(['out.nc', 'res.v1.nc', 'sub/out.nc'])
    return {'s': s, 'seed': rng.randint(0, 10**6), 'op': rng.random(), 'do': rng.choice(['EIO', 'ENOSPC', 'ENOSPC', 'crash', 'crash', 'EACCES']),
            'keep': rng.random() if rng.random() < .6 else 0., 'forever': rng.random() < .3, 'pick': rng.random(),
            'cut': rng.random(), 'readfault': rng.random() < .5}


def rfiles(root):
    out = []
    for b, _, fs in os.walk(root):
        out += [os.path.join(b, f) for f in fs if re.search(r'\.r\d{10}$', f)]
    return sorted(out)


def stamp(f):
    return int(f.rsplit('.r', 1)[1])


def prep(case, d):
    cfg = scenario.materialise(case['s'], d)
    of = case['s'].get('output_file')
    if of and os.sep in of:
        os.makedirs(os.path.join(d, os.path.dirname(of)), exist_ok=True)
    return cfg


def resume_first(cfg, f, seed):
    """State at the first step of a run resumed from f, or the exception."""
    got = []

    def on(m, i):
        got.append(drive.Snap(m))
        raise drive.Stop()
    o = drive.run(cfg, on_step=on, restartfile=f, seed=seed)
    return o, (got[0] if got else (drive.Snap(o.model) if o.kind == 'ok' else None))


def case_fn(case, d, tally):
    s = case['s']
    cfg = prep(case, os.path.join(d, 'a', 'm'))
    root = os.path.dirname(cfg)
    ref = []
    with World(root) as w:
        o = drive.run(cfg, on_step=lambda m, i: ref.append(drive.Snap(m)), seed=case['seed'])
    if o.kind == 'budget':
        return
    exc_viol(o, 'fault-free run')
    ref.append(drive.Snap(o.model))
    tally.runs += 1
    tally.simtime += ref[-1].t - ref[0].t
    tally.steps += len(ref) - 1
    byt = {}
    for r in ref:
        byt.setdefault(int(r.t), []).append(r)
    cand = [i for i, op in enumerate(w.ops) if RX.search(op[1])]
    files = rfiles(root)
    if any(stamp(f) not in byt for f in files):
        raise Viol('restart file named after a time the run never had: %r' % [os.path.basename(f) for f in files], 'name')
    if not cand:
        if len(ref) > 3 and ref[-1].t - ref[0].t >= 2 * s['restart'] + s['dt'] * s['accfac']:
            raise Viol('no restart file is written in %g s with an interval of %g s' % (ref[-1].t, s['restart']), 'none')
        return

    # ---- one fault at one of the operations on restart files
    op = cand[int(case['op'] * len(cand))]
    kind, name, _, n = w.ops[op]
    f = {'op': op, 'do': case['do'], 'keep': int(case['keep'] * n) if kind == 'write' else 0,
         'n': 10**9 if case['forever'] and case['do'] != 'crash' else 1}
    cfgb = prep(case, os.path.join(d, 'b', 'm'))
    rootb = os.path.dirname(cfgb)
    last = []

    def go():
        with World(rootb, [f]) as wb:
            o = drive.run(cfgb, on_step=lambda m, i: last.append(m.t), seed=case['seed'])
        exc = None if o.exc is None else (type(o.exc).__name__, o.msg, o.where)
        return o.kind, exc, list(last), len(wb.fired), o.cwd_kept
    if case['do'] == 'crash':
        code, r = drive.in_child(go)
        if code != 77:
            if r is None:
                raise RuntimeError('child ended with %r' % code)
            return
    else:
        r = go()
        if not r[3]:
            return
        if r[0] != 'exception':
            raise Viol('%s on %s of restart file %s is not reported: the run ends as %r'
                       % (case['do'], kind, name, r[0]), 'silent')
        if not r[4]:
            raise Viol('working directory is not restored after a failed restart file', 'cwd')
    tally.runs += 1
    tally.fault('%s at %s%s' % (case['do'], kind, ' (torn)' if f['keep'] else ''))
    tally.key = [skey(s), op, kind, case['do'], f['keep'], f['n']]
    hit = RX.search(name).group(0)

    # ---- every file left behind is either refused or complete
    left = rfiles(rootb)
    done = [x for x in files if stamp(x) < int(hit[2:])]
    have = {os.path.relpath(x, rootb) for x in left}
    for x in done:
        if os.path.relpath(x, root) not in have:
            raise Viol('restart file %s, written before the fault, is gone' % os.path.basename(x), 'lost')
    for x in left:
        o, g = resume_first(cfgb, x, case['seed'])
        tally.runs += 1
        if o.kind == 'exception' or g is None:
            if stamp(x) != int(hit[2:]):
                raise Viol('restart file %s, written before the fault, cannot be loaded: %s' % (os.path.basename(x), o), 'damaged')
            if o.kind != 'exception':
                raise Viol('damaged restart file is ignored', 'ignored')
            tally.kind('damaged file refused')
            continue
        e = None
        for r in byt[stamp(x)]:
            e = drive.diff(r, g)
            if e is None:
                break
        if e:
            raise Viol('restart file %s left after %s at %s (%d of %d bytes) resumes from a wrong state: %s'
                       % (os.path.basename(x), case['do'], kind, f['keep'], n, e), 'wrong state')
        tally.state(g.digest())
        tally.kind('complete file loaded')

    # ---- truncated copy of a complete file, missing file, read error
    good = [x for x in files]
    src = good[int(case['pick'] * len(good))]
    with seams.REAL['open'](src, 'rb') as fp:
        data = fp.read()
    bad = os.path.join(rootb, 'torn.r%010d' % stamp(src))
    cut = int(case['cut'] * len(data))
    with seams.REAL['open'](bad, 'wb') as fp:
        fp.write(data[:cut])
    o, g = resume_first(cfgb, bad, case['seed'])
    tally.fault('truncated file')
    if o.kind != 'exception':
        raise Viol('restart file truncated to %d of %d bytes is accepted' % (cut, len(data)), 'truncated accepted')
    o, g = resume_first(cfgb, os.path.join(rootb, 'absent.r0000000001'), case['seed'])
    if o.kind != 'exception':
        raise Viol('missing restart file is accepted', 'missing accepted')
    if not isinstance(o.exc, OSError):
        raise Viol('missing restart file is reported as %s' % o, 'missing type')
    # a refused file leaves an initialised model as it was
    m = drive.bmi(cfgb, runner=True)
    drive.step(m, seed=case['seed'])
    before = drive.Snap(m)
    for path in (bad, os.path.join(rootb, 'absent.r0000000001')):
        with core.Quiet():
            try:
                ok = m.load_restartfile(path)
            except Exception:
                ok = None
        if ok:
            raise Viol('load of damaged restart file reports success', 'truncated accepted')
        e = drive.diff(before, drive.Snap(m))
        if e:
            raise Viol('refused restart file changed the model state: ' + e, 'partial load')
    if case['readfault']:
        # the path is given, the file exists, the disk fails to open it
        with World(d) as w2:
            w2.armed = False
            seen = []

            def on(m, i):
                seen.append(m.t)
                raise drive.Stop()
            real = w2.disk_op

            def dop(kind, path, n, detail=''):
                if kind == 'open_r' and os.path.basename(str(path)) == os.path.basename(src):
                    tally.fault('EIO at open of a restart file')
                    return {'do': 'EIO'}
                return None
            w2.disk_op = dop
            o = drive.run(cfgb, on_step=on, restartfile=src, seed=case['seed'])
        if o.kind != 'exception':
            raise Viol('unreadable restart file is ignored, the run continues at t=%r' % seen, 'read error ignored')


execute = guarded(case_fn)


def _extra(case):
    if case['forever']:
        yield dict(case, forever=False)
    if case['keep']:
        yield dict(case, keep=0.)
    if case['s'].get('output_file'):
        import copy
        c = copy.deepcopy(case)
        c['s']['output_file'] = None
        yield c


shrink = shrinker(_extra)
