"""C06: fit results report faithfully what the optimiser ended with."""
import math
import numpy as np
import sympy
import boot
import engine
import gen
import jobs
import ops
import peer
import ref
from engine import Violation, Discard
from checks import common

id = 'C06'
RUNS = dict(quick=2600, thorough=80000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds a fit of a random model (or uses a minimizer directly, parameters in any order) with any '
        'minimiser, and a simulated optimiser ends wherever the seed says: any point, converged or not, any status '
        'text (text, bytes or list), with or without an iteration count; the matrix inversion may fail. The '
        'reported result is compared to what the optimiser returned and to the reference model at that point, '
        'twice: right away and after the caller changed its parameters. Non-trivial: a result was reported. '
        'Distinct: different (problem, minimiser, way of ending).')
FAULTS = ['optimiser reports failure', 'optimiser ended far away', 'optimiser ended at NaN', 'status as bytes',
          'status as list', 'no iteration count', 'inversion failed', 'inversion failed twice', 'result array reused']
PROBES = ['fixed parameters', 'covariance exact', 'covariance Gauss-Newton', 'covariance absent', 'scaled covariance',
          'direct use of a minimizer', 'constraints', 'log likelihood', 'residual vector', 'interdependent',
          'component without data', 'executed twice', 'printed', 'robust loss']
REAL = common.REAL_ALL
STUB = ['scipy optimisers (simulated peer)', 'numpy.linalg.inv in some runs (fails as on a singular matrix)',
        'user-supplied numerical components (generated)']
ASSUMES = ['The reference model (second-order automatic differentiation) is right; it shares no code with symfit or sympy.',
           'The value the optimiser returns with its point is the objective at that point.',
           'Covariances are compared where the condition number of the Hessian is below 1e7; for several data sets '
           'with relative sigma both readings of the number of degrees of freedom are accepted.']
TIME_UNIT = 'fits executed'


def plan(rng, i, tier):
    from checks import c05
    if rng.random() < 0.08:
        p = c05.direct_plan(rng)
        job, direct = p['job'], p['direct']
    else:
        direct = None
        if rng.random() < 0.35:
            job = jobs.random_job(rng, cheap=True)
        else:
            spec = gen.random_spec(rng)
            job = dict(spec=spec, constraints=[], options={}, minimizer=c05.pick(rng, spec))
            if job['minimizer'] in gen.CONS_MINS + [None] and rng.random() < 0.3:
                job['constraints'] = [jobs.random_constraint(rng, spec) for _ in range(rng.choice([1, 2]))]
                if rng.random() < 0.35:
                    jobs.add_condata(rng, job)
        if isinstance(job['minimizer'], list):
            job['minimizer'] = job['minimizer'][0]
        job['options'] = {}
        spec = job['spec']
        if job['minimizer'] == 'DifferentialEvolution':
            for d in spec['params'].values():
                d['min'] = -1.0 if d['min'] is None else d['min']
                d['max'] = 4.0 if d['max'] is None else d['max']
        if rng.random() < 0.25 and spec['objective'] in ('LeastSquares', 'VectorLeastSquares'):
            spec['absolute_sigma'] = rng.random() < 0.5
    ends = [ending(rng, job['spec'])]
    while len(ends) < 3 and rng.random() < 0.35:
        ends.append(ending(rng, job['spec']))
        if rng.random() < 0.5 and ends[-1]['where'] != 'nan':
            # stops nearly where the execution before stopped
            d = rng.choice([1e-2, 1e-3, 1e-4, 1e-5, 0.0])
            ends[-1]['x'] = [v if v == 'nan' else v * (1 + d * rng.choice([-1, 0, 1, 1])) for v in ends[-2]['x']]
            ends[-1]['where'] = ends[-2]['where']
    return dict(job=job, direct=direct, ends=ends, _lists=['job.constraints'])


def ending(rng, spec):
    free = gen.free(spec)
    r = rng.random()
    if r < 0.75:
        x = [round(rng.uniform(0.3, 1.9), 5) for _ in free]
        where = 'near'
    elif r < 0.93:
        x = [round(rng.choice([-1, 1]) * rng.uniform(2, 12), 4) for _ in free]
        where = 'far'
    else:
        x = [round(rng.uniform(0.3, 1.9), 5) for _ in free]
        x[rng.randrange(len(x))] = 'nan'
        where = 'nan'
    msg = rng.choice(['str', 'str', 'str', 'bytes', 'list'])
    return dict(x=x, where=where, success=rng.random() < 0.6, msg=msg, text='ended %d' % rng.randrange(1000),
                nit=rng.randrange(0, 90), drop=rng.random() < 0.12, inv=rng.choice([0, 0, 0, 0, 0, 1, 2]),
                scribble=rng.random() < 0.3, loss=rng.choice([0.0, 0.0, 0.6]))


def execute(plan, rec):
    job, spec = plan['job'], plan['job']['spec']
    mname = job['minimizer']
    kind = spec['objective']
    if mname == 'MINPACK' and kind == 'LeastSquares':
        kind = 'VectorLeastSquares'
    oracle = peer.Oracle(spec, kind, job['constraints'])
    if plan['direct'] is not None:
        sym = gen.make_symbols(spec)
        from symfit.core import minimizers as MZ
        target = getattr(MZ, mname)(gen.ExprFunc(spec['comps']['f_'], 'f_'), [sym[p] for p in plan['direct']])
        run = target.execute
        params = [sym[p] for p in sorted(spec['params'])]
        rec.probes['direct use of a minimizer'] += 1
    else:
        target = jobs.build(job)
        params = list(target.model.params)
        run = target.execute
    if any(d['fixed'] for d in spec['params'].values()):
        rec.probes['fixed parameters'] += 1
    for n, end in enumerate(plan['ends']):
        one(plan, end, n, oracle, run, params, kind, rec)
    if len(plan['ends']) > 1:
        rec.probes['executed twice'] += 1
    rec.steps = len(plan['ends'])


def one(plan, end, n, oracle, run, params, kind, rec):
    job, spec = plan['job'], plan['job']['spec']
    x = np.array([float(v) for v in end['x']])
    if spec['kind'] == 'ODE':
        x = np.clip(x, 0.3, 1.9)
    ode = spec['kind'] == 'ODE'
    seen = {}
    inv = dict(n=0)

    def handler(call, orig, args, kwargs):
        fun = call.fun(np.array(x)) if ode else oracle.obj(x)[0]
        seen['fun'] = fun
        seen['x'] = np.array(x)
        mz = call.minimizer_name()
        seen['mz'] = mz
        msg = end['text']
        if end['msg'] == 'bytes':
            msg = msg.encode()
        elif end['msg'] == 'list':
            msg = [msg]
        over = dict(message=msg, success=end['success'], status=0 if end['success'] else 2, nfev=end['nit'] + 3)
        seen['nit'] = end['nit']
        if mz == 'COBYLA':
            seen['nit'] = end['nit'] + 3
        elif mz == 'TrustConstr':
            over['niter'] = end['nit']
        elif mz == 'MINPACK':
            seen['nit'] = None
            if kwargs.get('loss', 'linear') != 'linear':
                # a robust loss: the cost is not half of the sum of squares
                over['cost'] = end['loss'] * 0.5 * float(np.sum(np.asarray(fun) ** 2))
                rec.probes['robust loss'] += 1
        elif end['drop']:
            over['nit'] = peer.DROP
            seen['nit'] = None
            rec.faults['no iteration count'] += 1
        else:
            over['nit'] = end['nit']
        res = peer.result(call, x, fun, **over)
        seen['res'] = res
        return res

    def invert(orig, a):
        inv['n'] += 1
        if inv['n'] <= end['inv']:
            raise np.linalg.LinAlgError('Singular matrix')
        return orig(a)
    peer.install(handler)
    if end['inv'] and plan['direct'] is None:
        boot.HOOKS['inv'] = invert
    try:
        with np.errstate(all='ignore'):
            res = run(**(dict(loss='soft_l1') if end.get('loss') and job['minimizer'] == 'MINPACK' else {}))
    finally:
        boot.HOOKS.clear()
    rec.ev('ended', str(n), end['where'], end['msg'])
    if end['scribble'] and 'res' in seen:
        seen['res']['x'][...] = -5e4
        rec.faults['result array reused'] += 1
    if not end['success']:
        rec.faults['optimiser reports failure'] += 1
    if end['where'] != 'near':
        rec.faults['optimiser ended far away' if end['where'] == 'far' else 'optimiser ended at NaN'] += 1
    if end['msg'] != 'str':
        rec.faults['status as ' + end['msg']] += 1
    failed_inv = min(inv['n'], end['inv'])
    if failed_inv:
        rec.faults['inversion failed' if failed_inv == 1 else 'inversion failed twice'] += 1
    first = verify(plan, end, res, oracle, params, kind, seen, failed_inv, rec, True)
    # the caller goes on using its parameters: the result is not affected
    keep = [(p, p.value) for p in params]
    for p in params:
        p.value = p.value + 0.25 if p.max is None else p.value
    second = verify(plan, end, res, oracle, params, kind, seen, failed_inv, rec, False)
    for p, v in keep:
        p.value = v
    if ops.differ(first, second, 1e-12):
        raise Violation('result changed after the fit', ops.differ(first, second, 1e-12))
    rec.nontrivial(spec['kind'], kind, seen['mz'], spec['comps'], end['where'], end['msg'], failed_inv,
                   sorted((p, d['fixed']) for p, d in spec['params'].items()))


def eq(what, got, want, **kw):
    if not ref.close(got, want, **dict(dict(rtol=1e-6, atol=1e-8), **kw)):
        raise Violation('wrong ' + what, 'got %s, expected %s' % (
            np.array2string(np.asarray(got), threshold=30), np.array2string(np.asarray(want), threshold=30)))


def verify(plan, end, res, oracle, params, kind, seen, failed_inv, rec, count):
    job, spec = plan['job'], plan['job']['spec']
    x = seen['x']
    want = oracle.pvals(x)
    names = [p.name for p in params]
    if names != sorted(spec['params']):
        raise Violation('wrong order of the parameters', str(names))
    # ---- parameters
    if list(res.params) != names:
        raise Violation('wrong parameters in the result', '%s, expected %s' % (list(res.params), names))
    for p in params:
        eq('value of a parameter', res.params[p.name], want[p.name], rtol=1e-13, atol=1e-15)
        eq('value of a parameter', res.value(p), want[p.name], rtol=1e-13, atol=1e-15)
    # ---- status
    msg = res.status_message
    if end['msg'] == 'list' and seen['mz'] != 'BasinHopping':
        ok = msg == [end['text']] or (isinstance(msg, str) and end['text'] in msg)
    else:
        ok = isinstance(msg, str) and msg == end['text']
    if not ok:
        raise Violation('wrong status message', repr(msg))
    if res.iterations != seen['nit']:
        raise Violation('wrong iteration count', '%r, expected %r' % (res.iterations, seen['nit']))
    out = dict(msg=str(msg), nit=res.iterations, params=ops.enc(dict(res.params)))
    # ---- quality measures
    gof = res.gof_qualifiers
    fun = seen['fun']
    eq('objective value', np.squeeze(gof['objective_value']), np.squeeze(fun), rtol=1e-12)
    eq('objective value', np.squeeze(res.objective_value), np.squeeze(fun), rtol=1e-12)
    if plan['direct'] is not None:
        if res.covariance_matrix is not None:
            raise Violation('covariance out of nowhere', '')
        return out
    ode = spec['kind'] == 'ODE'
    data = oracle.data
    if kind in ('LeastSquares', 'VectorLeastSquares'):
        chi2 = 2 * fun if kind == 'LeastSquares' else np.sum(np.asarray(fun) ** 2)
        eq('chi squared', gof['chi_squared'], chi2)
        if not ode:
            ss_res = ss_tot = 0.0
            for y in spec['top']:
                if data.get(y) is None:
                    continue
                f = oracle.model.d2(y, want, data, data[y].shape).v
                ss_res += np.sum((data[y] - f) ** 2)
                ss_tot += np.sum((data[y] - np.mean(data[y])) ** 2)
            if ss_tot > 1e-9:
                eq('r squared', gof['r_squared'], 1 - ss_res / ss_tot)
    elif kind == 'LogLikelihood':
        eq('log likelihood', gof['log_likelihood'], -fun)
        with np.errstate(all='ignore'):
            eq('likelihood', gof['likelihood'], np.exp(-fun), rtol=1e-5)
    if count:
        if kind == 'LogLikelihood':
            rec.probes['log likelihood'] += 1
        elif kind == 'VectorLeastSquares':
            rec.probes['residual vector'] += 1
        if len(spec['comps']) > len(spec['top']):
            rec.probes['interdependent'] += 1
        if any(data.get(y, 0) is None for y in spec['top']):
            rec.probes['component without data'] += 1
        if job['constraints']:
            rec.probes['constraints'] += 1
    out['gof'] = {k: ops.enc(gof[k]) for k in sorted(gof)}
    # ---- covariance
    cov = res.covariance_matrix
    out['cov'] = ops.enc(cov)
    if not ode:
        covariance(plan, end, res, cov, oracle, want, kind, params, failed_inv, rec, count)
    # ---- accessors
    n = len(params)
    for i, p in enumerate(params):
        for j, q in enumerate(params):
            if cov is None:
                if res.variance(p) is not None or res.stdev(p) is not None:
                    raise Violation('uncertainty without covariance', p.name)
                continue
            eq('covariance()', res.covariance(p, q), cov[i, j])
        if cov is not None:
            eq('variance()', res.variance(p), cov[i, i])
            with np.errstate(all='ignore'):
                eq('stdev()', res.stdev(p), np.sqrt(cov[i, i]))
    if count and not ode:
        with np.errstate(all='ignore'):
            text = str(res)
        for p in params:
            if p.name not in text:
                raise Violation('a parameter is not printed', text)
        rec.probes['printed'] += 1
    return out


def covariance(plan, end, res, cov, oracle, want, kind, params, failed_inv, rec, count):
    job, spec = plan['job'], plan['job']['spec']
    n = len(params)
    if cov is not None and np.shape(cov) != (n, n):
        raise Violation('covariance of the wrong shape', '%s for %d parameters' % (np.shape(cov), n))
    data = oracle.data
    ls = kind in ('LeastSquares', 'VectorLeastSquares')
    okind = 'LeastSquares' if ls else kind
    if end['where'] == 'nan':
        if cov is not None and np.any(np.isfinite(cov)) and kind != 'MinimizeModel':
            pass
        return
    hx = np.asarray(ref.objective(okind, oracle.model, spec['top'], want, data)[2], dtype=float).reshape(n, n)
    exact = hx if spec['kind'] == 'Model' and kind != 'VectorLeastSquares' else None
    gn = None
    if kind != 'MinimizeModel' and spec['kind'] in ('Model', 'GradientModel', 'NumGrad'):
        gn = np.asarray(ref.objective(okind, oracle.model, spec['top'], want, data, gn=True)[2],
                        dtype=float).reshape(n, n)
    scales = [1.0]
    if ls:
        absolute = spec.get('absolute_sigma')
        if absolute is None:
            absolute = any(spec['data'].get('sigma_' + y) is not None for y in spec['top'])
        if not absolute:
            ys = [y for y in spec['top'] if data.get(y) is not None]
            rss = 2 * float(ref.objective('LeastSquares', oracle.model, spec['top'], want, data)[0])
            dofs = {sum(data[y].size for y in ys) - n,
                    sum(int(np.prod(s)) for s in {data[y].shape for y in ys}) - n}
            if any(d <= 0 for d in dofs):
                return
            scales = [rss / d for d in dofs]
            if count:
                rec.probes['scaled covariance'] += 1

    def singular(h):
        """No well defined inverse (also: a Hessian that is a small difference of large terms)."""
        if h is None:
            return False
        if not np.all(np.isfinite(h)):
            return True
        top = max([1e-3] + [float(np.max(np.abs(m))) for m in (hx, gn) if m is not None and np.all(np.isfinite(m))])
        return np.linalg.svd(h, compute_uv=False)[-1] < 1e-7 * top

    def good(h):
        return h is not None and not singular(h)

    def is_(h):
        w = np.linalg.inv(h)
        tol = dict(rtol=1e-5, atol=1e-6) if spec['kind'] != 'NumGrad' else dict(rtol=2e-2, atol=2e-2)
        if spec['kind'] == 'NumGrad' and np.linalg.cond(h) > 1e4:
            return True
        return cov is not None and any(ref.close(cov, s * w, **tol) for s in scales)
    if singular(exact) or singular(gn) and (exact is None or failed_inv):
        return                                   # whatever the inversion makes of it
    allowed = []
    if exact is not None:
        allowed = ['exact'] if failed_inv == 0 else ['exact', 'gn', 'none']
    elif gn is not None:
        allowed = ['gn'] if failed_inv == 0 else ['gn', 'none']
    else:
        allowed = ['none', 'exact']
        exact = hx if good(hx) else None
    if 'gn' in allowed and gn is None:
        allowed.remove('gn')
    if cov is None:
        what = 'none'
    elif exact is not None and is_(exact):
        what = 'exact'
    elif gn is not None and is_(gn):
        what = 'gn'
    else:
        what = 'wrong'
    if what not in allowed:
        if what == 'none':
            raise Violation('covariance is absent', 'for %s' % jobs.name(job))
        raise Violation('wrong covariance', 'got %s (%s, allowed %s), Hessian %s, Gauss-Newton %s, scales %s' % (
            cov, what, allowed, exact, gn, scales))
    if count:
        rec.probes[dict(none='covariance absent', exact='covariance exact', gn='covariance Gauss-Newton')[what]] += 1
