"""The search driver: seeded cases -> forked workers -> verdict, evidence.

  check.py <ID>                     VERIF_SEED, VERIF_TIER (quick|thorough)
  check.py <ID> --replay FILE       re-executes one recorded case
  check.py <ID> --digests N [--workers K]   determinism self-test helper
"""
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time as _time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(1, HERE)

from sim import core, seams                     # noqa: E402

CPU_LIMIT = 90          # seconds of CPU time for a single case


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


def case_rng(pid, seed, i):
    h = hashlib.sha256(('%s/%s/%d' % (pid, seed, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'little'))


def execute(mod, case, name):
    """Runs one case in a scratch directory of its own."""
    d = os.path.join(core.scratch_base(), name)
    core.rmtree(d)
    os.makedirs(d)
    home = os.getcwd()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            r = mod.execute(case, d)
        except Hang:
            r = {'violation': 'a single case used more than %d s of CPU time: no progress' % CPU_LIMIT,
                 'sig': 'hang'}
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    finally:
        seams.set_world(None)
        core.reset_logging()
        os.chdir(home)
        core.rmtree(d)
    r.setdefault('violation', None)
    return r


def warm():
    """Compiles the jitted kernels once, before the workers are forked."""
    from sim import scenario, drive
    base = os.path.join(core.scratch_base(), 'warm')
    for i, over in enumerate((dict(), dict(gw=1))):
        rng = random.Random(5)
        s = scenario.gen(rng, dim=1, scheme='euler_backward', solver='trunk', calm=0.,
                         steps=2, dt=600., allow=('tide', 'wave', 'runup', 'moist', 'gw'))
        s['nx'] = 10
        s['wind'] = [[0., 12., 270.], [1e4, 12., 270.]]
        if over:
            s['tide'] = [[0., .5], [1e4, .8]]
            s['wave'] = [[0., .5, 6.], [1e4, .5, 6.]]
            s['runup'] = True
            s['moist'] = 'surf_moisture'
            s['gw'] = True
            s['meteo'] = [[0., 10., 5., 0., 101., 70.], [1e4, 10., 5., 0., 101., 70.]]
        else:
            s['moist'] = None
            s['gw'] = False
        d = os.path.join(base, str(i))
        cfg = scenario.materialise(s, d)
        drive.run(cfg)
        core.rmtree(d)
    core.rmtree(base)


def worker(mod, pid, seed, idx, wfd, deadline):
    out = os.fdopen(wfd, 'wb', buffering=0)
    for i in idx:
        if deadline and seams.REAL['time']() > deadline:
            break
        t = seams.REAL['monotonic']()
        try:
            rng = case_rng(pid, seed, i)
            case = mod.gen(rng)
            r = execute(mod, case, 'w%d' % os.getpid())
            r['i'] = i
            if r['violation']:
                r['case'] = case
        except BaseException as e:      # harness error
            r = {'i': i, 'violation': None, 'harness': ''.join(
                traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
        r['wall'] = seams.REAL['monotonic']() - t
        data = json.dumps(r).encode() + b'\n'
        while data:
            data = data[os.write(out.fileno(), data):]
    out.close()


def search(mod, pid, seed, n, workers, deadline=None, stop_on=1):
    """Cases 0..n-1 dealt round-robin over forked workers."""
    kids = {}
    for w in range(workers):
        r, wfd = os.pipe()
        pidc = os.fork()
        if pidc == 0:
            code = 0
            try:
                os.close(r)
                for fd in kids:
                    os.close(fd)
                worker(mod, pid, seed, range(w, n, workers), wfd, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wfd)
        kids[r] = (pidc, bytearray())
    results = []
    bad = 0
    live = dict(kids)
    dead_workers = []
    while live:
        rd, _, _ = select.select(list(live), [], [], 5.)
        for fd in rd:
            data = os.read(fd, 1 << 16)
            pidc, buf = live[fd]
            if not data:
                os.close(fd)
                _, st = os.waitpid(pidc, 0)
                if os.waitstatus_to_exitcode(st) not in (0, -signal.SIGKILL):
                    dead_workers.append(st)
                elif os.waitstatus_to_exitcode(st) != 0 and not bad:
                    dead_workers.append(st)
                del live[fd]
                continue
            buf += data
            while b'\n' in buf:
                k = buf.index(b'\n')
                line = bytes(buf[:k])
                del buf[:k + 1]
                res = json.loads(line)
                results.append(res)
                if res['violation'] and not known(pid, res):
                    bad += 1
        if bad >= stop_on:
            # let the earliest-index violation win: stop the rest
            for fd, (pidc, _) in list(live.items()):
                try:
                    os.kill(pidc, signal.SIGKILL)
                except ProcessLookupError:
                    pass
    results.sort(key=lambda r: r['i'])
    return results, dead_workers


# ---------------------------------------------------------- known findings
_known = None


def known(pid, res):
    global _known
    if _known is None:
        try:
            with seams.REAL['open'](os.path.join(ROOT, 'known_findings.json')) as fp:
                _known = json.load(fp).get('findings', [])
        except FileNotFoundError:
            _known = []
    for k in _known:
        if k['property'] == pid and k['sig'] == res.get('sig'):
            return k
    return None


# ------------------------------------------------------------ minimisation
def minimise(mod, case, res, tries=60, secs=90):
    if not hasattr(mod, 'shrink'):
        return case, res, 0
    t0 = seams.REAL['monotonic']()
    n = 0
    progress = True
    while progress and n < tries and seams.REAL['monotonic']() - t0 < secs:
        progress = False
        for c in mod.shrink(case):
            if n >= tries or seams.REAL['monotonic']() - t0 > secs:
                break
            n += 1
            try:
                r = isolated(mod, c)
            except Exception:
                continue
            if r and r['violation'] and r.get('sig') == res.get('sig'):
                case, res = c, r
                progress = True
                break
    return case, res, n


def isolated(mod, case):
    """Executes a case in a forked child, so that nothing leaks."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = execute(mod, case, 'm%d' % os.getpid())
            except BaseException as e:
                res = {'violation': None, 'harness': repr(e)}
            with os.fdopen(w, 'wb') as fp:
                fp.write(json.dumps(res).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


# -------------------------------------------------------------------- main
def jit(on):
    """The numba kernels are interpreted in the quick tier: the same source,
    without 20 s of compilation."""
    if not on:
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    return on


def load(pid):
    core.load()
    return importlib.import_module('sim.props.' + pid)


def cleanup():
    core.rmtree(core.scratch_base())


def replay(pid, path):
    with open(path) as fp:
        rec = json.load(fp)
    jit(rec.get('jit', False))
    mod = load(pid)
    r = execute(mod, rec['case'], 'replay')
    if r['violation']:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  ' + r['violation'])
        same = r['violation'] == rec['violation']
        print('  reproduced %s' % ('exactly' if same else 'with a different message: recorded %s' % rec['violation']))
        return 1
    print('replay of %s: no violation (recorded: %s)' % (path, rec['violation']))
    return 0


def selfcheck():
    """The framework loads, and a seeded case repeats exactly."""
    jit(False)
    mod = load('C06')
    a = [execute(mod, mod.gen(case_rng('C06', 1, i)), 'self').get('digest') for i in (0, 1)]
    b = [execute(mod, mod.gen(case_rng('C06', 1, i)), 'self').get('digest') for i in (0, 1)]
    print('selfcheck', a, b)
    return 0 if a == b else 1


def main():
    pid = sys.argv[1]
    if pid == '--selfcheck':
        return selfcheck()
    args = sys.argv[2:]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    if '--quick' in args:
        tier = 'quick'
    if '--replay' in args:
        return replay(pid, args[args.index('--replay') + 1])
    t0 = seams.REAL['monotonic']()
    usejit = jit(tier == 'thorough' or '--jit' in args)
    mod = load(pid)
    if usejit:
        warm()
    twarm = seams.REAL['monotonic']() - t0
    workers = min(8, os.cpu_count() or 1)
    if '--workers' in args:
        workers = int(args[args.index('--workers') + 1])
    n = mod.RUNS[0] if tier == 'quick' else mod.RUNS[1]
    if '--n' in args:
        n = int(args[args.index('--n') + 1])
    secs = (300 if tier == 'quick' else 3600)
    if '--secs' in args:
        secs = int(args[args.index('--secs') + 1])
    deadline = seams.REAL['time']() + secs
    t1 = seams.REAL['monotonic']()
    results, dead = search(mod, pid, seed, n, workers, deadline)
    wall_search = seams.REAL['monotonic']() - t1
    if '--digests' in args:
        for r in results:
            print(r['i'], r.get('digest'), r['violation'])
        return 0

    harness = [r for r in results if r.get('harness')]
    viol = [r for r in results if r['violation'] and not known(pid, r)]
    kn = [(known(pid, r), r) for r in results if r['violation'] and known(pid, r)]

    code = 0
    vrec = []
    seen = set()
    for k, r in kn:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        r = viol[0]
        case, res, tries = minimise(mod, r['case'], r)
        rdir = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-seed%d-%d.json' % (pid, seed, r['i']))
        with open(path, 'w') as fp:
            json.dump({'property': pid, 'seed': seed, 'index': r['i'], 'violation': res['violation'],
                       'sig': res.get('sig'), 'jit': usejit, 'case': case, 'original_case': r['case'],
                       'original_violation': r['violation'], 'minimise_executions': tries}, fp, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s' % res['violation'])
        vrec.append({'what': res['violation'][:300], 'replay': path})
        code = 1
    if harness or dead:
        for r in harness[:3]:
            sys.stderr.write('HARNESS ERROR in case %d:\n%s\n' % (r['i'], r['harness']))
        for d in dead[:3]:
            sys.stderr.write('worker died: status %r\n' % (d,))
        if not code:
            code = 2
    evidence(mod, pid, tier, seed, results, viol, vrec, wall_search, twarm,
             seams.REAL['monotonic']() - t0, workers)
    if not code:
        print('OK property=%s runs=%d wall=%.1fs' % (pid, len(results), seams.REAL['monotonic']() - t0))
    return code


def evidence(mod, pid, tier, seed, results, viol, vrec, wall_search, twarm, wall, workers):
    faults, states, kinds = {}, set(), {}
    simt = 0.
    evals = 0
    runs = 0
    steps = 0
    nontriv = set()
    for r in results:
        for k, v in (r.get('faults') or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in (r.get('kinds') or {}).items():
            kinds[k] = kinds.get(k, 0) + v
        states.update(r.get('states') or [])
        x = r.get('simtime', 0.)
        simt += x if x == x else 0.
        steps += r.get('steps', 0)
        evals += 1
        runs += r.get('runs', 1)
        if r.get('key') is not None:
            nontriv.add(json.dumps(r['key']))
    h = max(wall_search, 1e-9) / 3600.
    samples = [r.get('sample') for r in results if r.get('sample')][:5]
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': len(nontriv),
        'rule': mod.RULE,
        'samples': samples,
        'simulated_runs': runs,
        'runs_per_hour': round(runs / h),
        'seeds_per_hour': round(len(results) / h),
        'model_time_steps': steps,
        'simulated_time_s': round(simt, 1),
        'faults_injected': faults,
        'schedule_elements': kinds,
        'distinct_states': len(states),
        'distinct_states_measure': getattr(mod, 'STATES', 'sha256 of the complete model state after a time step'),
        'workers': workers,
        'numba_kernels': 'compiled' if 'NUMBA_DISABLE_JIT' not in os.environ else 'interpreted',
        'real_components': getattr(mod, 'REAL', REAL_DEFAULT),
        'stub_components': getattr(mod, 'STUB', STUB_DEFAULT),
        'slowest_case_s': round(max([r.get('wall', 0.) for r in results] or [0.]), 2),
        'warm_up_s': round(twarm, 1),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
          'violations': len(vrec), 'violation_records': vrec}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)


REAL_DEFAULT = ['aeolis.model (AeoLiS, AeoLiSRunner, ModelState, solvers)', 'aeolis.bed', 'aeolis.wind',
                'aeolis.hydro', 'aeolis.threshold', 'aeolis.transport', 'aeolis.avalanching', 'aeolis.netcdf',
                'aeolis.inout', 'netCDF4/HDF5', 'numpy/scipy/numba kernels']
STUB_DEFAULT = ['clock (simulated)', 'global random generator (seeded by the simulator per time step)',
                'disk errors and crash points (injected at the file and netCDF seams; bytes go to a real scratch file system)']


if __name__ == '__main__':
    try:
        rc = main()
    finally:
        try:
            cleanup()
        except Exception:
            pass
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
