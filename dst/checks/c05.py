"""C05: every request of an optimiser is answered by the objective at that point."""
import json
import math
import random
import numpy as np
import boot
import engine
import faults
import gen
import jobs
import ops
import peer
import ref
from engine import Violation, Discard
from checks import common

id = 'C05'
RUNS = dict(quick=1900, thorough=80000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds a fit of a random model (1-3 components, up to 5 parameters, fixed ones, bounds, constraints, '
        'any objective and minimiser) and lets a simulated optimiser issue 5-25 requests for value, gradient, '
        'Hessian and constraints at seeded points in seeded order, reusing and overwriting its input buffer and '
        'the returned arrays, with some requests failing or at NaN; every answer is compared to the reference '
        'model. Some runs let the real optimiser ask. Non-trivial: at least 3 requests were compared. Distinct: '
        'different (problem shape, minimiser, request kinds).')
FAULTS = ['work array reused', 'input buffer overwritten', 'returned array overwritten', 'request failed with an exception',
          'request at NaN', 'point repeated', 'asked as a list', 'complex step']
PROBES = ['constraint with data of its own', 'value', 'gradient', 'Hessian', 'constraint value', 'constraint gradient', 'constraint Hessian',
          'fixed parameters', 'two constraints', 'real optimiser', 'direct use of a minimizer', 'interdependent']
REAL = common.REAL_ALL + ['real optimisers of scipy in about 5 % of the runs']
STUB = ['scipy optimisers (simulated peer) in 95 % of the runs', 'user-supplied numerical components (generated)']
ASSUMES = ['The reference model (second-order automatic differentiation) is right; it shares no code with symfit or sympy.',
           'Finite-difference gradients of numerical models are compared to 2e-3.']
TIME_UNIT = 'requests answered'


def plan(rng, i, tier):
    r = rng.random()
    if r < 0.06:
        return direct_plan(rng)
    if r < 0.2:
        job = jobs.random_job(rng, cheap=True)
        spec = job['spec']
    else:
        spec = gen.random_spec(rng, kinds=['CallableModel', 'GradientModel'] if r > 0.94 else None)
        job = dict(spec=spec, constraints=[], options={}, minimizer=None)
        job['minimizer'] = pick(rng, spec)
        cs = r > 0.94 and spec['objective'] != 'VectorLeastSquares'
        if cs:
            job['minimizer'] = 'TrustConstr'
        if job['minimizer'] in gen.CONS_MINS + [None, 'BasinHopping'] and rng.random() < 0.5:
            if job['minimizer'] in gen.CONS_MINS + [None]:
                names = [m for m in spec['comps'] if m not in spec['top']] if (
                    spec['objective'] == 'MinimizeModel' and spec['kind'] not in ('Numerical', 'NumGrad')) else []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    c = jobs.random_constraint(rng, spec)
                    if names and rng.random() < 0.6:
                        c = [rng.choice(['Ge', 'Le', 'Eq']), ['+', rng.choice(names), ['*', 0.5, rng.choice(list(spec['params']))]], 0.7]
                    elif rng.random() < 0.3:
                        c[1 if isinstance(c[2], (int, float)) else 2] = ['sin', ['*', 1.3, c[1] if isinstance(c[2], (int, float)) else c[2]]]
                    job['constraints'].append(c)
                if rng.random() < 0.35:
                    jobs.add_condata(rng, job)
    if isinstance(job['minimizer'], list):
        job['minimizer'] = job['minimizer'][0]
        job['options'] = {}
    if job['minimizer'] == 'DifferentialEvolution':
        for d in spec['params'].values():
            d['min'] = -1.0 if d['min'] is None else d['min']
            d['max'] = 4.0 if d['max'] is None else d['max']
    pts = [[round(rng.uniform(0.2, 2.2), 4) for _ in gen.free(spec)] for _ in range(rng.choice([2, 3, 4]))]
    if rng.random() < 0.5:                       # points that nearly coincide
        q = rng.choice(pts)
        pts.append([v * (1 + rng.choice([0, 1, -1]) * rng.choice([1e-3, 1e-4, 1e-5])) for v in q])
    if spec['objective'] in ('LeastSquares', 'VectorLeastSquares') and rng.random() < 0.2:
        perfect(rng, spec, rng.choice(pts))
    work = rng.choice([0, 0, .5, 1])             # how often one work array is used for all requests
    reqs = []
    kinds = ['f', 'f', 'g', 'g', 'h', 'c', 'cg', 'ch']
    for _ in range(rng.randrange(5, 26)):
        q = dict(k=rng.choice(kinds), p=rng.randrange(len(pts)), j=rng.randrange(3), v=rng.choice([1.0, -1.0, 2.5, -0.4]))
        t = rng.random()
        if t < 0.2:
            q['buf'] = 1
        elif t < 0.3:
            q['list'] = 1
        elif t < 0.36:
            q['nan'] = 1
        elif t < (0.42 if r <= 0.94 else 0.7):
            q['cs'] = rng.randrange(len(pts[0]))
        elif t < 0.5:
            q['fault'] = dict(kind=rng.choice(['site', 'user']), seed=rng.randrange(1 << 30), exc='SimFault')
        if rng.random() < 0.3:
            q['out'] = 1
        if rng.random() < work:
            q['work'] = 1
        reqs.append(q)
    real = job['minimizer'] is not None and rng.random() < 0.45 and 'template' in spec
    if real:
        job['options'] = gen.min_options(rng, job['minimizer'])
    return dict(job=job, pts=pts, reqs=reqs, real=real, twice=rng.random() < 0.2,
                _lists=['reqs', 'job.constraints'])


def perfect(rng, spec, x):
    """Data which the model describes (almost) exactly close to one of the points."""
    o = peer.Oracle(spec, 'LeastSquares')
    near = [v * (1 + rng.choice([-1, 1]) * rng.choice([1e-3, 1e-4, 1e-5])) for v in x]
    with np.errstate(all='ignore'):
        vals = o.model.values(o.pvals(near), o.data)
    for y in spec['top']:
        d = spec['data'].get(y)
        v = vals[y]
        if isinstance(d, dict) and np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e6:
            v = np.broadcast_to(v, d['shape'])
            spec['data'][y] = dict(shape=d['shape'], vals=[float(i) for i in v.ravel()])


def pick(rng, spec):
    opts = ['BFGS', 'SLSQP', 'LBFGSB', 'NelderMead', 'Powell', 'COBYLA', 'TrustConstr', 'TrustConstr', 'SLSQP',
            'DifferentialEvolution', 'BasinHopping', None]
    if spec['objective'] == 'VectorLeastSquares':
        return 'MINPACK'
    if spec['objective'] == 'LeastSquares' and same_shapes(spec):
        opts += ['MINPACK', 'MINPACK']
    return rng.choice(opts)


def same_shapes(spec):
    shapes = {tuple(spec['data'][y]['shape']) for y in spec['top'] if spec['data'].get(y) is not None}
    return len(shapes) == 1


def direct_plan(rng):
    """A minimizer used without Fit, with a user's function, Jacobian and parameters in any order."""
    n = rng.choice([2, 3, 3])
    ps = rng.sample(gen.PNAMES, n)
    expr = None
    for p in ps:
        t = ['*', gen.const(rng), ['pow', ['-', p, gen.const(rng)], 2]]
        expr = t if expr is None else ['+', expr, t]
    expr = ['+', expr, ['*', gen.const(rng), ['*', ps[0], ps[1]]]]
    pars = {p: dict(value=gen.const(rng), min=None, max=None, fixed=False) for p in ps}
    if n > 2 and rng.random() < 0.5:
        pars[rng.choice(ps)]['fixed'] = True
    spec = dict(kind='Model', objective='MinimizeModel', comps={'f_': expr}, top=['f_'], vars=[], params=pars,
                numeric=[], order=['f_'], data={})
    nf = len(gen.free(spec))
    pts = [[round(rng.uniform(0.2, 2.2), 4) for _ in range(nf)] for _ in range(3)]
    return dict(direct=rng.sample(ps, n), jac=rng.random() < 0.6, pts=pts,
                job=dict(spec=spec, constraints=[], options={},
                         minimizer=rng.choice(['BFGS', 'SLSQP', 'NelderMead', 'Powell', 'LBFGSB', 'COBYLA', 'BasinHopping'])),
                reqs=[dict(k=rng.choice('fgg'), p=rng.randrange(3), j=0, buf=rng.randrange(2), out=rng.randrange(2),
                           work=rng.randrange(2))
                      for _ in range(8)], real=False, twice=False, _lists=['reqs'])


class UserJac(object):
    """Gradient in all parameters, alphabetical, as a user supplies it."""
    def __init__(self, spec):
        self.m = gen.ref_model(spec)

    def __call__(self, **kw):
        return self.m.d2('f_', kw, {}).g.reshape(len(self.m.params))


class _Stop(Exception):
    pass


def execute(plan, rec):
    job = plan['job']
    spec = job['spec']
    mname = job['minimizer']
    kind = spec['objective']
    if mname == 'MINPACK' and kind == 'LeastSquares':
        kind = 'VectorLeastSquares'
    oracle = peer.Oracle(spec, kind, job['constraints'])
    if 'direct' in plan:
        sym = gen.make_symbols(spec)
        from symfit.core import minimizers as MZ
        kw = {}
        if plan['jac'] and mname in ('BFGS', 'SLSQP', 'LBFGSB'):
            kw['jacobian'] = UserJac(spec)
        fit = getattr(MZ, mname)(gen.ExprFunc(spec['comps']['f_'], 'f_'), [sym[p] for p in plan['direct']], **kw)
        rec.probes['direct use of a minimizer'] += 1
    else:
        fit = jobs.build(job)
    if any(d['fixed'] for d in spec['params'].values()):
        rec.probes['fixed parameters'] += 1
    if job['constraints'] and 'condata' in spec:
        rec.probes['constraint with data of its own'] += 1
    if len(job['constraints']) > 1:
        rec.probes['two constraints'] += 1
    if len(spec['comps']) > len(spec['top']):
        rec.probes['interdependent'] += 1
    seen = []

    def handler(call, orig, args, kwargs):
        name = mname or call.minimizer_name()
        if call.minimizer_name() != name and mname is not None:
            raise Violation('another optimiser was called', '%s instead of %s' % (call.minimizer_name(), name))
        rec.ev('call', call.key, str(call.method))
        peer.check_handover(call, oracle, name)
        R = peer.Requests(call, oracle, rec)
        if plan['real']:
            rec.probes['real optimiser'] += 1
            return real(call, orig, args, kwargs, R, rec, seen)
        for q in plan['reqs']:
            request(plan, q, call, R, rec, seen)
        x = np.array(plan['pts'][0], dtype=float)
        return peer.result(call, x, oracle.obj(x)[0])
    for _ in range(2 if plan['twice'] else 1):
        peer.install(handler)
        try:
            jobs.execute(job, fit) if 'direct' not in plan else fit.execute()
        finally:
            boot.HOOKS.clear()
    rec.steps = len(seen)
    if len(seen) >= 3:
        rec.nontrivial(spec['kind'], kind, mname, sorted(spec['params'].items()), len(job['constraints']), seen[:40])


def ask(fun, x):
    with np.errstate(all='ignore'):
        return fun(x)


def request(plan, q, call, R, rec, seen):
    k = q['k']
    x0 = plan['pts'][q['p']]
    j = None
    if k in ('c', 'cg', 'ch'):
        if not call.cons:
            return
        j = q['j'] % len(call.cons)
        kind, f, g, h = call.constraint(j)
        mult = q.get('v', 1.0)                  # the multiplier of the constraint
        target = dict(c=f, cg=g, ch=None if h is None else (lambda x: h(x, np.array([mult])) / mult))[k]
    elif k == 'f':
        target = call.fun
    elif k == 'g':
        target = call.jac
    else:
        target = call.hess
    if not callable(target):
        return
    if k in ('h', 'ch') and not R.o.exact_h:
        return                                  # not the exact Hessian by design
    n = R.n = R.n + 1
    x = np.array(x0, dtype=float)
    if q.get('fault'):
        def call_it():
            return ask(target, np.array(x0))
        f = q['fault']
        if f['kind'] == 'site' and 'site' not in f:
            f = faults.resolve(dict(f, kind='line'), call_it)
        elif f['kind'] == 'user' and 'n' not in f:
            f = faults.resolve(f, call_it)
        if f is not None:
            p, outcome, v = faults.attempt(f, call_it)
            rec.ev(str(n), k, str(p.fired), outcome)
            if p.fired:
                rec.faults['request failed with an exception'] += 1
            if outcome == 'other':
                raise Violation('another exception came out of a request: ' + type(v).__name__, repr(v))
    if q.get('nan'):
        bad = x.copy()
        bad[0] = np.nan
        rec.faults['request at NaN'] += 1
        ask(target, bad)
    if q.get('cs') is not None and k in ('f', 'c', 'g', 'cg'):
        complex_step(q['cs'] % len(x), k, j, x, call, R, rec, target)
    if q.get('list'):
        x = [float(v) for v in x]
        rec.faults['asked as a list'] += 1
    if q.get('work'):
        # the optimiser has one array (or list) in which it puts every point
        name = 'worklist' if isinstance(x, list) else 'work'
        w = R.__dict__.setdefault(name, type(x)(x) if isinstance(x, list) else x.copy())
        w[:] = x
        x = w
        rec.faults['work array reused'] += 1
    got = ask(target, x)
    if k == 'f':
        R.check_f(x0, got)
        rec.probes['value'] += 1
    elif k == 'g':
        R.check_g(x0, got)
        rec.probes['gradient'] += 1
    elif k == 'h':
        R.check_h(x0, got)
        rec.probes['Hessian'] += 1
    else:
        what = dict(c='value', cg='gradient', ch='Hessian')[k]
        if j not in R.sign and R.o.cons[j][0] == 'eq' and k != 'c':
            R.check_c(j, x0, ask(call.constraint(j)[1], np.array(x0)), 'value')
        R.check_c(j, x0, got, what)
        rec.probes['constraint ' + what] += 1
    rec.ev(str(n), k, str(q['p']), engine.dig(np.asarray(got, dtype=float)))
    seen.append(k + str(q['p']))
    if q.get('buf') and isinstance(x, np.ndarray):
        x[:] = -7.25e5
        rec.faults['input buffer overwritten'] += 1
        again = ask(target, np.array(x0))
        if k == 'f':
            R.check_f(x0, again)
        elif k == 'g':
            R.check_g(x0, again)
    if q.get('out') and isinstance(got, np.ndarray) and got.flags.writeable and got.ndim:
        got[...] = 3.3e7
        rec.faults['returned array overwritten'] += 1
        again = ask(target, np.array(x0))
        rec.faults['point repeated'] += 1
        if k == 'f':
            R.check_f(x0, again)
        elif k == 'g':
            R.check_g(x0, again)
        elif k == 'h':
            R.check_h(x0, again)


def complex_step(i, k, j, x, call, R, rec, target):
    """Complex steps are only taken where symfit asks its minimiser for 'cs'."""
    if R.o.spec['kind'] not in ('Model', 'GradientModel', 'CallableModel'):
        return
    if not (k == 'f' and isinstance(call.jac, str) and call.jac == 'cs' or
            k == 'g' and isinstance(call.hess, str) and call.hess == 'cs'):
        return
    eps = 1e-10
    z = x.astype(complex)
    z[i] += 1j * eps
    got = np.imag(np.squeeze(ask(target, z))) / eps
    o = R.o.obj(x)
    if k == 'g':
        want = o[2][i]
    elif R.o.kind == 'VectorLeastSquares':
        want = o[1][:, i]
    else:
        want = o[1][i]
    rec.faults['complex step'] += 1
    if not ref.close(got, np.squeeze(want), rtol=1e-5, atol=1e-6):
        R.fail('complex step', x, got, want)


def real(call, orig, args, kwargs, R, rec, seen):
    """The real optimiser asks; its requests are checked one by one."""
    lim = 60

    def wrap(fn, check):
        if not callable(fn) or isinstance(fn, str):
            return fn

        def wrapped(x, *a):
            got = fn(x, *a)
            if len(seen) < lim and np.isrealobj(np.asarray(x)) and np.all(np.isfinite(x)) and np.max(np.abs(x)) < 1e3:
                want = R.o.obj(x)[0]
                if np.all(np.isfinite(want)) and np.max(np.abs(want)) < 1e9:
                    check(np.array(x, dtype=float), got)
                    seen.append('r')
                    rec.ev('asked', engine.dig(np.asarray(x)), engine.dig(np.asarray(got, dtype=float)))
            return got
        return wrapped
    kw = dict(kwargs)
    names = {'least_squares': 'fun', 'minimize': 'fun'}.get(call.key, 'func')
    a = list(args)
    if a:
        a[0] = wrap(a[0], R.check_f)
    else:
        kw[names] = wrap(kw[names], R.check_f)
    if call.key in ('minimize', 'least_squares'):
        if callable(kw.get('jac')):
            kw['jac'] = wrap(kw['jac'], R.check_g)
        if callable(kw.get('hess')) and R.o.exact_h:
            kw['hess'] = wrap(kw['hess'], R.check_h)
    return orig(*a, **kw)
