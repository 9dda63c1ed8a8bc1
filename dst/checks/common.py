"""Helpers shared by the checks."""
import json
import random
import boot
import engine
import gen
import jobs
import ops
import sched
from engine import Violation, Discard

REAL_ALL = ['all of symfit (/repo/symfit, compiled from source)', 'sympy', 'numpy', 'scipy']


def make_spec(rng, ode=0.08, fits=0.25, con=0.3, **kw):
    spec = _make_spec(rng, ode, fits, **kw)
    if rng.random() < con and spec['kind'] != 'ODE':
        spec['con'] = jobs.random_constraint(rng, spec)
        if spec['kind'] in ('Model', 'GradientModel', 'CallableModel') and rng.random() < 0.3:
            # a constraint on a component of the model, which it has to be given
            y = rng.choice(sorted(spec['comps']))
            spec['con'] = [spec['con'][0], ['+', y, spec['con'][1]], spec['con'][2]]
    return spec


def _make_spec(rng, ode, fits, **kw):
    r = rng.random()
    if r < ode:
        return gen.fit_spec(rng, 'ode')
    if r < ode + fits:
        return gen.fit_spec(rng, rng.choice([t for t in gen.TEMPLATES if t != 'ode']))
    return gen.random_spec(rng, **kw)


def policy_of(p, profile=None):
    k = p['kind']
    if k == 'rw':
        return sched.RandomWalk(random.Random(p['seed']), p['p'])
    if k == 'listed':
        return sched.Listed(p['switches'])
    if k == 'sites':
        rng = random.Random(p['seed'])
        wanted = []
        keys = sorted(profile)
        for _ in range(p['k']):
            if not keys:
                break
            st = keys[rng.randrange(len(keys))]
            n = rng.randrange(1, min(profile[st], 6) + 1)
            wanted.append([st, n, rng.randrange(64)])
        return sched.AtSites(wanted)
    raise engine.HarnessError('policy ' + k)


def random_policy(rng):
    r = rng.random()
    if r < 0.45:
        return dict(kind='sites', k=rng.choice([1, 2, 3, 4, 6, 12, 25]), seed=rng.randrange(1 << 30))
    return dict(kind='rw', p=rng.choice([.5, .2, .1, .05, .02, .01]), seed=rng.randrange(1 << 30))


def profile_lines(fn):
    """Sites (file:function:line -> visits) executed by fn, as seen in this process."""
    prof, cache = {}, {}

    def hook(code, line):
        k = (code, line)
        s = cache.get(k)
        if s is None:
            s = cache[k] = boot.site(code, line)
        prof[s] = prof.get(s, 0) + 1
    boot.set_line_hook(hook)
    try:
        fn()
    finally:
        boot.set_line_hook(None)
    return prof


def check_threads(tasks, what='call'):
    """Raise for anything that escaped from a simulated thread."""
    for t in tasks:
        e = t.exc
        if e is None:
            continue
        if isinstance(e, (Violation, Discard, engine.HarnessError)):
            raise e
        if isinstance(e, sched.Deadlock):
            raise Violation('deadlock', str(e))
        if isinstance(e, sched.StepBudget):
            raise Violation('no progress within the step budget', str(e))
        import traceback
        raise Violation('exception in thread: %s' % type(e).__name__,
                        ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])
