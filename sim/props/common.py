"""Shared pieces of the property modules."""
import copy
import hashlib
import os

import numpy as np

from ..scenario import rnd
from .. import core, drive, scenario, seams
from ..world import World

PHYS = ['stretch', 'tide', 'wave', 'runup', 'moist', 'gw', 'mix', 'wetreset', 'avalanche',
        'fence', 'ne', 'bedcomp', 'graindist2d', 'mask']
ALL = PHYS + ['veg', 'shear']


class Viol(Exception):
    def __init__(self, msg, sig):
        Exception.__init__(self, msg)
        self.sig = sig


class Tally:
    """Collects what a case covered."""

    def __init__(self, case):
        self.case = case
        self.faults = {}
        self.kinds = {}
        self.states = []
        self.simtime = 0.
        self.steps = 0
        self.runs = 0
        self.key = None
        self.dig = hashlib.sha256()

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def kind(self, k, n=1):
        self.kinds[k] = self.kinds.get(k, 0) + n

    def state(self, d):
        self.states.append(d[:12])
        self.dig.update(d.encode())

    def note(self, *a):
        self.dig.update(repr(a).encode())

    def result(self, viol=None):
        return {'violation': None if viol is None else str(viol),
                'sig': None if viol is None else viol.sig,
                'faults': self.faults, 'kinds': self.kinds, 'states': sorted(set(self.states))[:400],
                'simtime': self.simtime, 'steps': self.steps, 'runs': self.runs, 'key': self.key,
                'digest': self.dig.hexdigest()[:16], 'sample': sample(self.case)}


def guarded(fn):
    """execute(case, d) wrapper: fn(case, d, tally) raises Viol."""
    def execute(case, d):
        t = Tally(case)
        try:
            fn(case, d, t)
        except Viol as v:
            return t.result(v)
        except Exception as e:
            # an exception out of the code under test is a violation, one out
            # of the harness is not
            w = drive.where(e)
            if not drive.in_aeolis(e):
                raise
            return t.result(Viol('unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:200], w),
                                 'exception %s %s' % (type(e).__name__, w)))
        return t.result()
    return execute


def sample(case):
    out = {k: v for k, v in case.items() if k != 's'}
    s = case.get('s')
    if isinstance(s, dict):
        out['scenario'] = {k: s[k] for k in ('dim', 'nx', 'ny', 'nf', 'nl', 'scheme', 'solver', 'dt', 'tstop',
                                             'accfac', 'mbc', 'wind', 'bc')}
        out['features'] = features(s)
    return out


def features(s):
    f = []
    for k in ('runup', 'mix', 'wetreset', 'ava', 'shear', 'sep', 'gw', 'thm', 'thslope'):
        if s.get(k):
            f.append(k)
    for k in ('tide', 'wave', 'veg', 'masks', 'gd2', 'hot', 'stretch'):
        if s.get(k):
            f.append(k)
    for k in ('ne', 'fence', 'bedcomp'):
        if s.get(k) is not None:
            f.append(k)
    if s.get('moist'):
        f.append(s['moist'])
    return sorted(f)


def skey(s):
    """Structural identity of a scenario (no real-valued parameters)."""
    return [s['dim'], s['nx'], s['ny'], s['nf'], s['nl'], s['scheme'], s['solver'], s['dt'], s['steps'],
            s['accfac'], s['bc'], s['mbc'], s['bed']['seed'], features(s)]


def exc_viol(o, what, sig='exception'):
    """A fault-free run of a valid model must complete."""
    if o.kind == 'exception':
        raise Viol('%s: unexpected %s' % (what, o), '%s %s %s' % (sig, type(o.exc).__name__, o.where))
    if o.kind == 'budget':
        raise Viol('%s: run did not finish within %d time steps' % (what, o.steps), 'budget')


def call(what, fn, *a, **k):
    """Calls the code under test; an exception is a violation."""
    try:
        return fn(*a, **k)
    except Viol:
        raise
    except Exception as e:
        raise Viol('%s: unexpected %s: %s [%s]' % (what, type(e).__name__, str(e)[:200], drive.where(e)),
                   'exception %s %s' % (type(e).__name__, drive.where(e)))


# -------------------------------------------------------------- shrinking
OFF = [('stretch', None), ('hot', None), ('veg', None), ('shear', False), ('sep', False), ('ava', False), ('mix', False), ('wetreset', False),
       ('masks', None), ('ne', None), ('fence', None), ('bedcomp', None), ('gd2', None), ('thslope', False),
       ('thm', False)]


def shrink_scenario(s):
    """Simpler scenarios, most drastic first."""
    def c(**kw):
        n = copy.deepcopy(s)
        n.update(kw)
        return n
    for k, v in OFF:
        if s.get(k) not in (None, False):
            yield c(**{k: v})
    if s.get('moist'):
        yield c(moist=None, gw=False, thm=False)
    if s.get('runup') and not s.get('moist'):
        yield c(runup=False, mix=False)
    if s.get('wave') and not s.get('runup'):
        yield c(wave=None, mix=False)
    if s.get('tide') and not s.get('wave'):
        yield c(tide=None, wetreset=False)
    if s['dim'] == 2 and s['fence'] is None:
        yield c(dim=1, ny=0, rot=0.)
    if s['nx'] > 8 and s['fence'] is None:
        yield c(nx=8)
    if s['rot']:
        yield c(rot=0.)
    if s['alfa']:
        yield c(alfa=0.)
    if s['nf'] > 1 and s['gd2'] is None and s['bedcomp'] is None:
        yield c(nf=1, gs=s['gs'][:1], gd=[1.])
    if s['nl'] > 2 and s['gd2'] is None and s['bedcomp'] is None:
        yield c(nl=2)
    if s['accfac'] != 1. and not s.get('keep_time'):
        yield c(accfac=1., tstop=round(s['tstop'] / s['accfac'], 3))
    if len(s['wind']) > 2:
        yield c(wind=s['wind'][:2])
        yield c(wind=s['wind'][1:])
    if s['bed']['noise'] or s['bed']['dune']:
        b = dict(s['bed'], noise=0., dune=0.)
        yield c(bed=b)
    if s['tstop'] > s['dt'] * 3 and not s.get('keep_time'):
        yield c(tstop=round(s['tstop'] / 2., 3))


def shrinker(extra=None):
    def shrink(case):
        if extra is not None:
            yield from extra(case)
        for s in shrink_scenario(case['s']):
            n = copy.deepcopy(case)
            n['s'] = s
            yield n
    return shrink


def prefer_normalised(rng, s):
    """Makes the grain size distribution sum to one."""
    t = sum(s['gd'])
    s['gd'] = [round(g / t, 4) for g in s['gd']]
    s['gd'][-1] = round(1. - sum(s['gd'][:-1]), 4)
    return s
