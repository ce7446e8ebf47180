"""Generated wind series."""
import math
import os

import numpy as np

from .common import *

LEVEL = 'exploration'
RUNS = (500, 30000)
RULE = ('one case = one to three wind generators with seeded parameters, driven by a seeded schedule (generated at once, again, or step by step in turns, with '
        'models stepping in between), under random numbers that the simulator draws and into which it mixes extreme draws; every series is judged on its own, against '
        'the same generator run alone, and after being written to disk (in some cases with a disk error) and read by a model; long series are compared with the distribution '
        'they stand for; non-trivial when a series of at least ten speeds was judged; distinct by parameters and schedule')
ASSUMPTIONS = ['parameters give every speed class a probability above 1e-12', 'frequencies are accepted within eight standard deviations that take persistence into account']


def gen(rng):
    gens = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        mean = round(rng.uniform(3., 15.), rng.choice([0, 1, 2]))
        mx = round(mean * rng.uniform(1.8, 3.), rng.choice([0, 1, 2]))
        if rng.random() < .3:
            mean, mx = 9., 30.
        dt = rng.choice([60., 60., 1., .1, 600., 3600., 7.3])
        gens.append({'mean': mean, 'max': mx, 'dt': dt, 'n': rng.choice([30, 30, 10, 25, 40, 7, 2]), 'shape': rng.choice([2., 2., 1.5, 2.5]),
                     'dur': round(dt * rng.choice([0, 1, rng.randint(2, 60), rng.uniform(1, 60)]), 3)})
    long = rng.random() < .05
    if long:
        gens = gens[:1]
        gens[0]['dur'] = gens[0]['dt'] * 30000
    return {'gens': gens, 'seed': rng.randint(0, 10**6), 'mode': rng.choice(['alone', 'again', 'turns', 'model']), 'long': long,
            'extreme': rng.choice([0., 0., .2, 1.]), 'disk': rng.choice([None, None, 'EIO', 'ENOSPC']), 'sched': rng.randint(0, 10**6),
            's': scenario.gen(rng, dim=1, steps=4), 'how': rng.choice(['class', 'class', 'cli'])}


TOP = 1. - 2.**-53


class Draws:
    """Uniform draws of the simulator: seeded, with extreme ones mixed in."""

    def __init__(self, seed, extreme):
        self.r = np.random.RandomState(seed)
        self.extreme = extreme
        self.hit = 0

    def one(self):
        if self.extreme and self.r.uniform() < self.extreme:
            self.hit += 1
            return [0., TOP][self.r.randint(2)]
        return self.r.random_sample()

    def many(self, size):
        if size is None:
            return self.one()
        out = np.empty(size)
        out.flat = [self.one() for _ in range(out.size)]
        return out


class seam:
    """Puts the draws behind the global generator for the time being."""

    def __init__(self, draws):
        self.d = draws

    def __enter__(self):
        R = np.random
        self.old = {k: getattr(R, k) for k in ('uniform', 'random', 'random_sample', 'rand')}
        d = self.d
        R.uniform = lambda low=0., high=1., size=None: low + (high - low) * d.many(size)
        R.random = R.random_sample = lambda size=None: d.many(size)
        R.rand = lambda *a: d.many(a or None)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(np.random, k, v)
        return False


def make(g):
    import aeolis.model as M
    return M.WindGenerator(mean_speed=g['mean'], max_speed=g['max'], dt=g['dt'], n_states=g['n'], shape=g['shape'])


def judge(g, w, how):
    t, u = w.get_time_series()
    t, u = np.asarray(t), np.asarray(u)
    if len(t) != len(u) or len(u) == 0:
        raise Viol('%d times and %d speeds %s' % (len(t), len(u), how), 'length')
    if not np.allclose(t, np.arange(len(t)) * g['dt'], rtol=1e-12):
        raise Viol('times are not multiples of the time step %s' % how, 'times')
    if t[-1] < g['dur'] * (1 - 1e-9):
        raise Viol('the series ends at %r s of %r s %s' % (t[-1], g['dur'], how), 'duration')
    if t[-1] >= g['dur'] + g['dt'] * (1 + 1e-6):
        raise Viol('the series ends at %r s instead of %r s %s' % (t[-1], g['dur'], how), 'duration')
    if not (np.all(np.isfinite(u)) and np.all(u >= 0.) and np.all(u <= g['max'] * (1 + 1e-12))):
        raise Viol('speeds range from %r to %r m/s, the maximum is %r m/s %s' % (u.min(), u.max(), g['max'], how), 'range')
    return t, u


def figures(w, t, u, tally):
    """Figures show the series and leave it alone."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    try:
        _, ax = call('plotting wind', w.plot)
        x, y = ax.lines[0].get_data()
        if not (np.array_equal(x, t) and np.array_equal(y, u)):
            raise Viol('the plot does not show the series', 'plot')
        _, ax = call('plotting wind', w.hist)
        h = np.array([q.get_height() for q in ax.patches])
        x = np.array([q.get_x() for q in ax.patches])
        b = np.array([q.get_width() for q in ax.patches])
        n = np.histogram(u, bins=np.append(x, x[-1] + b[-1]))[0]
        if n.sum() and not np.allclose(h, n / float(n.sum()) / b, rtol=1e-6):
            raise Viol('the histogram does not show the frequencies of the series', 'histogram')
    finally:
        plt.close('all')
    same((t, u), w.get_time_series(), 'after plotting')
    tally.kind('figures')


def case_fn(case, d, tally):
    rng = __import__('random').Random(case['sched'])
    gens = case['gens']
    alone = []
    for k, g in enumerate(gens):
        dr = Draws(case['seed'] + k, case['extreme'])
        with seam(dr):
            w = call('generating wind', make, g)
            call('generating wind', w.generate, duration=g['dur'])
        t, u = judge(g, w, 'generated at once')
        tally.fault('extreme random numbers', dr.hit)
        alone.append((t, u))
        tally.runs += 1
        tally.simtime += t[-1]
        tally.note(u.tolist()[:50])
        tally.kind('speeds judged', len(u))
        # classes: a speed lies in a class of the distribution, and every class can be reached
        if len(u) >= 10:
            tally.key = [[sorted(x.items()) for x in gens], case['mode'], case['seed'], case['extreme']]
        tally.state(drive.digest_arrays(0., {'u': u}))
        if case['long'] and not case['extreme']:
            frequencies(g, u, tally)
        if case['sched'] % 7 == 0 and not case['long']:
            figures(w, t, u, tally)
    # ---- the same draws give the same series, whatever happens in between
    mode = case['mode']
    if mode == 'again':
        g = gens[0]
        with seam(Draws(case['seed'] + 77, 0.)):
            w = make(g)
            w.generate(duration=g['dur'] * .5)
            w.generate(duration=g['dur'])
        judge(g, w, 'generated again')
        with seam(Draws(case['seed'], case['extreme'])):
            w.generate(duration=g['dur'])
        t, u = judge(g, w, 'generated again')
        same(alone[0], (t, u), 'generated again by the same generator')
    elif mode in ('turns', 'model') and not case['long']:
        m = None
        if mode == 'model':
            m = drive.bmi(scenario.materialise(case['s'], os.path.join(d, 'm')))
        ws, ds = [], []
        for k, g in enumerate(gens):
            ds.append(Draws(case['seed'] + k, case['extreme']))
            with seam(ds[k]):
                w = make(g)
                # the series starts like every other one
                w.generate(duration=0.)
            ws.append(w)
        left = [len(a[1]) - len(w.get_time_series()[1]) for a, w in zip(alone, ws)]
        while any(x > 0 for x in left):
            k = rng.choice([k for k, x in enumerate(left) if x > 0])
            with seam(ds[k]):
                ws[k].update()
            left[k] -= 1
            if m is not None and m.t < case['s']['tstop'] and rng.random() < .2:
                drive.step(m, seed=case['seed'])
                tally.steps += 1
        for k, w in enumerate(ws):
            same(alone[k], w.get_time_series(), 'generated in turns with others')
        tally.kind('in turns')
    # ---- written to disk and read by a model
    g = gens[0]
    os.makedirs(os.path.join(d, 'w'), exist_ok=True)
    f = os.path.join(d, 'w', 'wind.txt')
    if case['how'] == 'cli' and g['shape'] == 2. and g['n'] == 30 and float(int(g['dt'])) == g['dt'] and float(int(g['dur'])) == g['dur']:
        from typer.testing import CliRunner
        import aeolis.console as C
        with seam(Draws(case['seed'], case['extreme'])):
            r = CliRunner().invoke(C.aeolis_app, ['wind', f, '--mean', repr(g['mean']), '--max', repr(g['max']), '--duration', str(int(g['dur'])), '--timestep', str(int(g['dt']))])
        core.reset_logging()
        if r.exit_code:
            raise Viol('the command line generator fails: %r %s' % (r.exception, r.output[-200:]), 'cli')
        tally.kind('command line')
    else:
        with seam(Draws(case['seed'], case['extreme'])):
            w = make(g).generate(duration=g['dur'])
        if case['disk']:
            with World(os.path.join(d, 'w'), [{'op': rng.randrange(3), 'do': case['disk'], 'keep': rng.choice([0, 5])}]) as wd:
                try:
                    w.write_time_series(f)
                    ok = True
                except OSError:
                    ok = False
            if wd.fired:
                tally.fault('%s at %s' % (case['disk'], wd.fired[0][1]))
                if ok:
                    raise Viol('%s while writing the series is not reported' % case['disk'], 'silent')
        w.write_time_series(f)
    a = np.atleast_2d(np.loadtxt(f))
    if a.shape[1] != 3 or np.any(a[:, 2] != 0.):
        raise Viol('the file has %d columns, directions %r' % (a.shape[1], a[:3, 2:]), 'file')
    same(alone[0], (a[:, 0], a[:, 1]), 'written to file')
    if len(a) > 1 and not case['long'] and a[-1, 0] >= 2.:
        s = dict(case['s'], wind=a.tolist(), tstop=a[-1, 0])
        cfg = scenario.materialise(s, os.path.join(d, 'm3'))
        with seams.REAL['open'](f, 'rb') as fp:
            b = fp.read()
        with seams.REAL['open'](os.path.join(d, 'm3', 'wind.txt'), 'wb') as fp:
            fp.write(b)
        m = drive.bmi(cfg)
        for _ in range(3):
            t = m.t
            drive.step(m, seed=case['seed'])
            # wind of a step is that at its start
            if m.t <= a[-1, 0] - 1.:
                e = np.interp(t, a[:, 0], a[:, 1])
                x = float(np.asarray(m.s['uw']).flat[0])
                if not abs(x - e) <= 1e-6 * max(1., g['max']):
                    raise Viol('the model reads a wind of %r m/s, the generated one is %r m/s at t=%r' % (x, e, t), 'model')
                tally.kind('read by a model')
            tally.steps += 1


def same(a, b, how):
    if len(a[1]) != len(b[1]) or not np.allclose(a[0], b[0], rtol=1e-12) or not np.allclose(a[1], b[1], rtol=1e-12):
        raise Viol('the series differs when %s' % how, 'same ' + how)


def frequencies(g, u, tally):
    """Long series follow the Weibull distribution of the generator."""
    n = g['n']
    b = g['max'] / n
    lam = 2. * g['mean'] / math.sqrt(math.pi)
    mid = b * (np.arange(n) + .5)
    p = (g['shape'] / lam) * (mid / lam)**(g['shape'] - 1) * np.exp(-(mid / lam)**g['shape'])
    p /= p.sum()
    # coarse: exceedance of the quartiles, deviation from blocks
    for q in (.25, .5, .75):
        k = int(np.searchsorted(np.cumsum(p), q)) + 1
        if k >= n:
            continue
        e = p[:k].sum()
        x = (u < k * b).astype(float)
        blocks = x[:len(x) // 30 * 30].reshape((30, -1)).mean(axis=1)
        sd = blocks.std(ddof=1) / math.sqrt(30.)
        if not abs(x.mean() - e) <= 8. * sd + .005:
            raise Viol('%.3f of the speeds are below %.3g m/s instead of %.3f' % (x.mean(), k * b, e), 'distribution')
    tally.kind('distribution compared')


execute = guarded(case_fn)


def _extra(case):
    if len(case['gens']) > 1:
        for k in range(len(case['gens'])):
            yield dict(case, gens=[case['gens'][k]])
    for k, v in (('mode', 'alone'), ('extreme', 0.), ('disk', None), ('how', 'class')):
        if case[k] != v:
            yield dict(case, **{k: v})


shrink = shrinker(_extra)
