"""C14: stochastic fits are reproducible by seed and stay inside the bounds."""
import json
import random
import traceback
import numpy as np
import boot
import engine
import faults
import gen
import jobs
import ops
import peer
import ref
from engine import Violation, Discard
from checks import common

id = 'C14'
RUNS = dict(quick=1600, thorough=60000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run executes a random fit with a real optimiser. For seeded stochastic minimisers and chains it is executed '
        'undisturbed in a fork, then with random numbers drawn from and seeds set on the process-wide generators before, '
        'between and at seeded source lines and user calls during the fit, and compared; the numbers drawn by the other '
        'code are compared with those of a private generator. For every minimiser that takes bounds the search is '
        'stopped at a seeded point and the reported values are compared with bounds and fixed values; a simulated '
        'optimiser ends in seeded corners of the bounds it was handed, with the same comparison. Non-trivial: the '
        'fit returned a result. Distinct: different (problem, minimiser, options, disturbances).')
FAULTS = ['global generator drawn from before the fit', 'global generator reseeded before the fit',
          'global generator drawn from during the fit', 'global generator reseeded during the fit',
          'search stopped early', 'search stopped by callback', 'optimiser ends at the edge of its bounds']
PROBES = ['DifferentialEvolution', 'BasinHopping', 'chain of minimisers', 'seed as generator object', 'executed twice',
          'value on a bound', 'optimum outside of the bounds', 'fixed parameter', 'guess on a bound', 'no explicit seed',
          'SLSQP', 'LBFGSB', 'TrustConstr', 'MINPACK', 'state of the generators compared', 'simulated optimiser']
REAL = common.REAL_ALL + ['real optimisers of scipy', 'random generators of numpy and Python']
STUB = ['the other code that draws random numbers (simulated at seeded lines)', 'the point where the search is stopped']
ASSUMES = ['Bounds of the guess are respected: the guess lies within the bounds.',
           'Iterates of trust-constr may leave the bounds (scipy), so its values are compared with them only where it '
           'reports convergence, within 1e-4; bounds hold up to rounding (1e-12).']
TIME_UNIT = 'source lines of symfit executed during fits'
SPOT = 4


def plan(rng, i, tier):
    what = rng.choice(['seed', 'seed', 'bounds', 'bounds', 'peer', 'peer'])
    t = rng.choice(['line', 'decay', 'gauss', 'two', 'inter', 'num', 'logl', 'mini'])
    if what == 'seed':
        spec = gen.fit_spec(rng, t, bounds=True)
        mz = rng.choice(['DifferentialEvolution', 'DifferentialEvolution', 'BasinHopping', 'BasinHopping',
                         ['DifferentialEvolution', 'SLSQP'], ['DifferentialEvolution', 'LBFGSB'],
                         ['BasinHopping', 'NelderMead'], ['LBFGSB', 'DifferentialEvolution'],
                         ['DifferentialEvolution', 'BasinHopping'], ['DifferentialEvolution', 'DifferentialEvolution']])
        job = dict(spec=spec, constraints=[], minimizer=mz, options=gen.min_options(rng, mz))
        kind = rng.choice(['int', 'int', 'int', 'RandomState', 'Generator'])
        dist = dict(before=rng.choice([None, 'draw', 'seed']), n=rng.choice([1, 3, 624]), seed=rng.randrange(1000),
                    during=[dict(u=rng.random(), what=rng.choice(['draw', 'draw', 'seed']), n=rng.choice([1, 5]))
                            for _ in range(rng.choice([0, 1, 2, 5]))])
        return dict(what='seed', job=job, kind=kind, dist=dist, twice=rng.random() < 0.4, _lists=['dist.during'])
    spec = gen.fit_spec(rng, t, bounds=True)
    pin = squeeze(rng, spec)
    if rng.random() < 0.3:
        mirror(rng, spec)
    opts = ['SLSQP', 'LBFGSB', 'DifferentialEvolution', 'BasinHopping', 'TrustConstr']
    if what == 'peer':
        opts.remove('BasinHopping')
    if spec['objective'] == 'LeastSquares':
        opts += ['MINPACK', 'MINPACK']
    mz = rng.choice(opts)
    if rng.random() < 0.2:
        mz = [rng.choice(opts[:3] + ['NelderMead']), rng.choice(opts[:3])]
    if 'DifferentialEvolution' not in mz and rng.random() < 0.3:
        one_sided(rng, spec)
    if what == 'peer':
        # whether it gets its bounds is up to the last minimiser only: simulate all
        execs = [{p: rng.choice(['lo', 'hi', 'lo', 'hi', 'in']) for p in spec['params']}
                 for _ in range(rng.choice([1, 1, 2, 3]))]
        return dict(what='peer', pin=pin, execs=execs, fail=rng.random() < 0.3, far=rng.choice([3.0, 40.0]),
                    job=dict(spec=spec, constraints=[], minimizer=mz, options={}), _lists=['execs'])
    job = dict(spec=spec, constraints=[], minimizer=mz, options=gen.min_options(rng, mz))
    stop = {}
    names = [mz] if isinstance(mz, str) else mz
    last = names[-1]
    n = rng.choice([0, 1, 1, 2, 3, 5, 10, 40])
    o = {'SLSQP': dict(options=dict(maxiter=max(n, 1))), 'LBFGSB': rng.choice([dict(options=dict(maxiter=n)),
                                                                        dict(options=dict(maxfun=max(n, 1)))]),
         'TrustConstr': dict(options=dict(maxiter=rng.choice([max(n, 1), 300]))), 'MINPACK': dict(max_nfev=max(n, 1)),
         'DifferentialEvolution': dict(maxiter=n % 6, popsize=3), 'BasinHopping': dict(niter=n % 4)}[last]
    if last in ('DifferentialEvolution', 'BasinHopping'):
        seeded = rng.random() < 0.5
        if seeded:
            o['seed'] = rng.randrange(10000)
    if isinstance(mz, str):
        job['options'] = o
    else:
        key = last if names.count(last) == 1 else last + '_2'
        job['options'] = {**{k: v for k, v in job['options'].items() if k != key}, key: o}
    return dict(what='bounds', job=job, stop=n, pin=pin, gseed=rng.randrange(10000),
                callback=rng.choice([None, None, rng.randrange(1, 4)]) if last in ('DifferentialEvolution', 'BasinHopping')
                and isinstance(mz, str) else None, _lists=[])


def squeeze(rng, spec):
    """Bounds around the guess that often exclude the optimum."""
    pin = False
    for p, d in spec['params'].items():
        if d['fixed']:
            continue
        if rng.random() < 0.3:                       # a bound at exactly zero
            u = rng.choice([0.1, 0.5, 2.0])
            d['value'] = rng.choice([0.0, 0.5, 0.9]) * u
            d['min'], d['max'] = rng.choice([0, 0.0]), round(u, 4)
            if rng.random() < 0.6:
                d['value'], d['min'], d['max'] = -d['value'] or 0.0, -d['max'], d['min']
            pin = pin or d['value'] == 0
            continue
        v = d['value']
        lo = v - rng.choice([0.02, 0.1, 0.3, 1.0]) * rng.random()
        hi = v + rng.choice([0.02, 0.1, 0.3, 1.0]) * rng.random() + 1e-3
        d['min'], d['max'] = round(lo, 4), round(hi, 4)
        if not d['min'] <= v < d['max']:
            d['min'], d['max'] = v - 0.05, v + 0.05
        r = rng.random()
        if r < 0.1:
            d['value'] = d['min']
            pin = True
        elif r < 0.2:
            d['value'] = d['max']
            pin = True
    return pin


def mirror(rng, spec):
    """Data that want the parameters on the other side of zero."""
    for y in spec['top']:
        d = spec['data'].get(y)
        if isinstance(d, dict):
            d['vals'] = [-v for v in d['vals']]


def one_sided(rng, spec):
    for p, d in spec['params'].items():
        if not d['fixed'] and rng.random() < 0.5:
            d[rng.choice(['min', 'max'])] = None


# ------------------------------------------------------------------- seeds
class Other(object):
    """The other code: draws random numbers from the process-wide generators, which is
    compared with a private copy of them."""
    def __init__(self, rec):
        self.rec = rec
        self.np = np.random.RandomState()
        self.np.set_state(np.random.get_state())
        self.py = random.Random()
        self.py.setstate(random.getstate())

    def act(self, what, n, seed=None):
        if what == 'seed':
            np.random.seed(seed)
            random.seed(seed)
            self.np.seed(seed)
            self.py.seed(seed)
        else:
            got = [np.random.random_sample() for _ in range(n)] + [random.random() for _ in range(n)]
            want = [self.np.random_sample() for _ in range(n)] + [self.py.random() for _ in range(n)]
            if got != want:
                raise Violation('the process-wide random stream was disturbed', '%s, expected %s' % (got[:3], want[:3]))

    def same(self, when):
        a, b = np.random.get_state(), self.np.get_state()
        if a[0] != b[0] or not np.array_equal(a[1], b[1]) or a[2:] != b[2:]:
            raise Violation('the state of the generator of numpy changed', when)
        if random.getstate() != self.py.getstate():
            raise Violation('the state of the generator of Python changed', when)
        self.rec.probes['state of the generators compared'] += 1


def options(plan):
    """The options of the job with the seed in the wanted form."""
    o = json.loads(json.dumps(plan['job']['options']))

    def conv(d):
        if 'seed' in d and plan['kind'] == 'RandomState':
            d['seed'] = np.random.RandomState(d['seed'])
        elif 'seed' in d and plan['kind'] == 'Generator':
            d['seed'] = np.random.default_rng(d['seed'])
    conv(o)
    for v in o.values():
        if isinstance(v, dict):
            conv(v)
    return o


def seeds(plan, rec):
    job, dist = plan['job'], plan['dist']

    def alone():
        n = [0]

        def hook(code, line):
            n[0] += 1
        fit = jobs.build(job)
        boot.set_line_hook(hook)
        try:
            res = jobs.execute(job, fit, options(plan))
        finally:
            boot.set_line_hook(None)
        return [jobs.observe(job, res), n[0]]
    want, total = ops.solo(alone)
    o = Other(rec)
    np.random.seed(dist['seed'])
    random.seed(dist['seed'])
    o.act('seed', 0, dist['seed'])
    if dist['before'] == 'draw':
        o.act('draw', dist['n'])
        rec.faults['global generator drawn from before the fit'] += 1
    elif dist['before'] == 'seed':
        o.act('seed', 0, dist['n'])
        rec.faults['global generator reseeded before the fit'] += 1
    fit = jobs.build(job)
    for turn in range(2 if plan['twice'] else 1):
        n = [0]
        at = {}
        for d in dist['during']:
            at.setdefault(1 + int(d['u'] * max(total - 1, 0)), d)

        def hook(code, line):
            n[0] += 1
            d = at.get(n[0])
            if d is not None:
                o.act(d['what'], d['n'], d['n'])
                rec.faults['global generator %s during the fit' % (
                    'drawn from' if d['what'] == 'draw' else 'reseeded')] += 1
        opts = options(plan)
        boot.set_line_hook(hook)
        try:
            res = jobs.execute(job, fit, opts)
        finally:
            boot.set_line_hook(None)
        rec.steps += n[0]
        got = jobs.observe(job, res)
        rec.ev('result', str(turn), engine.dig(got))
        d = gen.same_result(plain(got), plain(want), rtol=1e-10)
        if d:
            raise Violation('a seeded fit is not reproducible', '%s (execution %d)' % (d, turn + 1))
        o.same('after the fit')
        if turn:
            rec.probes['executed twice'] += 1
    names = [job['minimizer']] if isinstance(job['minimizer'], str) else job['minimizer']
    if len(names) > 1:
        rec.probes['chain of minimisers'] += 1
    if plan['kind'] != 'int':
        rec.probes['seed as generator object'] += 1
    return names


def plain(x):
    return json.loads(json.dumps(x, default=engine._jsonable))


# ------------------------------------------------------------------ bounds
def bounds(plan, rec):
    job = plan['job']
    spec = job['spec']
    names = [job['minimizer']] if isinstance(job['minimizer'], str) else job['minimizer']
    np.random.seed(plan['gseed'])
    state = np.random.get_state()
    py = random.getstate()
    fit = jobs.build(job)
    o = json.loads(json.dumps(job['options']))
    calls = [0]
    if plan['callback'] is not None:
        def stop(*a, **k):
            calls[0] += 1
            if calls[0] >= plan['callback']:
                rec.faults['search stopped by callback'] += 1
                return True
        o['callback'] = stop
    n = [0]

    def hook(code, line):
        n[0] += 1
    boot.set_line_hook(hook)
    try:
        with np.errstate(all='ignore'):
            res = fit.execute(**o)
    except (ValueError, ArithmeticError, np.linalg.LinAlgError) as e:
        if inside_scipy(e):                          # reports no values
            raise Discard('the optimiser gave up: %r' % e)
        raise
    finally:
        boot.set_line_hook(None)
    rec.steps += n[0]
    rec.ev('result', engine.dig({k: float(np.real(v)) for k, v in res.params.items()}), str(res.status_message))
    rec.faults['search stopped early'] += int(plan['stop'] < 10)
    last = names[-1]
    edge = False
    for p, d in spec['params'].items():
        v = float(np.real(res.params[p]))
        if d['fixed']:
            rec.probes['fixed parameter'] += 1
            if v != d['value']:
                raise Violation('a fixed parameter changed', '%s = %r, set to %r' % (p, v, d['value']))
            continue
        lo, hi = d['min'], d['max']
        tol = 1e-12 * max(1.0, abs(v))      # rounding in the last step of an optimiser
        if last == 'TrustConstr':
            # scipy lets its iterates leave the bounds; only where it converged
            tol = 1e-4 if 'condition is satisfied' in str(res.status_message) else np.inf
        if (lo is not None and v < lo - tol) or (hi is not None and v > hi + tol):
            raise Violation('a reported value is out of bounds', '%s = %r not in [%r, %r] with %s %s: %s' % (
                p, v, lo, hi, names, job['options'], res.status_message))
        if v in (lo, hi):
            edge = True
    if edge:
        rec.probes['value on a bound'] += 1
    if plan['pin']:
        rec.probes['guess on a bound'] += 1
    rec.probes['optimum outside of the bounds'] += int(edge)
    if random.getstate() != py:
        raise Violation('the state of the generator of Python changed', str(names))
    stochastic = any(x in ('DifferentialEvolution', 'BasinHopping') for x in names)
    now = np.random.get_state()
    if not stochastic or seeded(job, names):
        if not np.array_equal(state[1], now[1]) or state[2] != now[2]:
            raise Violation('the state of the generator of numpy changed', str(names))
        rec.probes['state of the generators compared'] += 1
    else:
        rec.probes['no explicit seed'] += 1
    return names


def anywhere(plan, rec):
    """The optimiser ends anywhere within the bounds it was given: mostly in a corner."""
    job = plan['job']
    spec = job['spec']
    names = [job['minimizer']] if isinstance(job['minimizer'], str) else job['minimizer']
    fit = jobs.build(job)
    free = gen.free(spec)
    for e in plan['execs']:
        stages = []

        def handler(call, orig, args, kwargs):
            b = call.bound_list(len(free))
            x0 = np.zeros(len(free)) if call.x0 is None else np.asarray(call.x0, dtype=float)
            x = []
            for k, p in enumerate(free):
                lo, hi = (-np.inf, np.inf) if b is None else b[k]
                lo = x0[k] - plan['far'] if lo == -np.inf else lo
                hi = x0[k] + plan['far'] if hi == np.inf else hi
                x.append({'lo': lo, 'hi': hi, 'in': lo + 0.3 * (hi - lo)}[e[p]])
            x = np.array(x)
            stages.append(call.minimizer_name())
            rec.faults['optimiser ends at the edge of its bounds'] += 1
            over = dict(success=False, message='simulated: gave up') if plan['fail'] else {}
            rec.steps += 1
            return peer.result(call, x, np.asarray(call.fun(x)), **over)
        peer.install(handler)
        try:
            with np.errstate(all='ignore'):
                res = fit.execute()
        finally:
            boot.HOOKS.clear()
        if not stages:
            raise engine.HarnessError('no optimiser was called')
        rec.ev('result', engine.dig({k: float(np.real(v)) for k, v in res.params.items()}), str(stages))
        for p, d in spec['params'].items():
            v = float(np.real(res.params[p]))
            if d['fixed']:
                if v != d['value']:
                    raise Violation('a fixed parameter changed', '%s = %r, set to %r' % (p, v, d['value']))
                continue
            lo, hi = d['min'], d['max']
            tol = 1e-12 * max(1.0, abs(v))
            if stages[-1] in gen.BOUND_MINS and ((lo is not None and v < lo - tol) or (hi is not None and v > hi + tol)):
                raise Violation('a reported value is out of bounds', '%s = %r not in [%r, %r] with %s, which kept to the '
                                'bounds it was given' % (p, v, lo, hi, names))
        rec.probes['simulated optimiser'] += 1
    return names


def inside_scipy(e):
    """Raised by an optimiser itself, not by what it calls back."""
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    last = max([k for k, f in enumerate(files) if '/symfit/' in f], default=0)
    return any('/scipy/optimize/' in f for f in files[last:])


def seeded(job, names):
    o = job['options']
    if len(names) == 1:
        return 'seed' in o
    return all('seed' in o.get(k, {}) for k in o if k.split('_')[0] in ('DifferentialEvolution', 'BasinHopping')) \
        and sum(k.split('_')[0] in ('DifferentialEvolution', 'BasinHopping') for k in o) == sum(
            x in ('DifferentialEvolution', 'BasinHopping') for x in names)


def execute(plan, rec):
    names = dict(seed=seeds, bounds=bounds, peer=anywhere)[plan['what']](plan, rec)
    for n in set(names):
        if n in PROBES:
            rec.probes[n] += 1
    spec = plan['job']['spec']
    rec.nontrivial(jobs.name(plan['job']), spec['comps'], spec['params'], plan['job']['options'],
                   plan.get('dist'), plan.get('callback'), plan.get('execs'))
