"""C07: chained minimisers hand over their best point and run in order."""
import json
import numpy as np
import boot
import engine
import gen
import jobs
import ops
import peer
import ref
from engine import Violation, Discard
from checks import common
from checks.c06 import eq

id = 'C07'
RUNS = dict(quick=2600, thorough=80000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds a chain of 1-4 minimisers (through Fit or directly, with repeated kinds) on a random model '
        'with fixed parameters and executes it 1-4 times; every stage is a simulated optimiser that ends at a '
        'seeded point, stops early, fails by an exception before or after asking for the objective, or omits its '
        'iteration count; some stages are the real optimiser. Order, start point, options and the reported result '
        'are compared to the plan. Non-trivial: at least two stages ran. Distinct: different (chain, endings).')
FAULTS = ['stage fails before it starts', 'stage fails while evaluating', 'stage fails at its end', 'stage reports failure',
          'no iteration count', 'result array reused']
PROBES = ['repeated kind of minimiser', 'fixed parameters', 'global minimiser in the chain', 'MINPACK in the chain',
          'real stage', 'four stages', 'executed again after a failure', 'guesses changed between executions',
          'direct use of ChainedMinimizer', 'options by name', 'constraints']
REAL = common.REAL_ALL + ['real optimisers of scipy in some stages']
STUB = ['scipy optimisers (simulated peers) in most stages', 'user-supplied numerical components (generated)']
ASSUMES = ['An optimiser returns the best point it found as x.']
TIME_UNIT = 'stages executed'

NAMES = ['BFGS', 'SLSQP', 'LBFGSB', 'NelderMead', 'Powell', 'COBYLA', 'TrustConstr', 'DifferentialEvolution',
         'BasinHopping']


def plan(rng, i, tier):
    templ = rng.random() < 0.25
    if templ:
        spec = gen.fit_spec(rng, rng.choice(['line', 'decay', 'mini', 'num', 'two', 'inter']), bounds=True)
    else:
        spec = gen.random_spec(rng)
        for d in spec['params'].values():
            d['min'] = -9.0
            d['max'] = 9.0
    names = NAMES
    if spec['objective'] == 'VectorLeastSquares':
        names = ['MINPACK']
    n = rng.choice([1, 2, 2, 2, 3, 3, 4])
    pool = rng.sample(names, min(len(names), rng.choice([1, 2, 3, 4])))
    chain = [rng.choice(pool) for _ in range(n)]
    cons = []
    if rng.random() < 0.2 and not templ and names is NAMES and len(spec['params']) > 1:
        cons = [jobs.random_constraint(rng, spec)]
    job = dict(spec=spec, constraints=cons, minimizer=chain, options={})
    if rng.random() < 0.35:
        jobs.add_condata(rng, job)
    # options addressed to some stages: first plain name, then _2, _3
    count, seen = {}, {}
    for c in chain:
        count[c] = count.get(c, 0) + 1
    opts = []
    for k, c in enumerate(chain):
        seen[c] = seen.get(c, 0) + 1
        key = c if seen[c] == 1 else '%s_%d' % (c, seen[c])
        o = {}
        if rng.random() < 0.6:
            v = 3 + rng.randrange(40)
            if c == 'DifferentialEvolution':
                o = dict(popsize=v, seed=rng.randrange(99))
            elif c == 'BasinHopping':
                o = dict(niter=v)
            elif c == 'MINPACK':
                o = dict(max_nfev=v)
            elif rng.random() < 0.6:
                o = dict(tol=round(rng.uniform(1e-6, 1e-4), 9))
            else:
                o = dict(options=dict(maxiter=v))
        opts.append(o)
        if o or rng.random() < 0.2:
            job['options'][key] = o
    execs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        stages = []
        for c in chain:
            s = dict(x=[round(rng.uniform(0.3, 1.9), 5) for _ in gen.free(spec)], nit=rng.randrange(1, 60),
                     drop=rng.random() < 0.1, success=rng.random() < 0.7, scribble=rng.random() < 0.25, ask=rng.randrange(3))
            if rng.random() < 0.09:
                s['fail'] = rng.choice(['before', 'asking', 'after'])
                s['error'] = rng.randrange(len(ERRORS))
            elif templ and rng.random() < 0.4 and c in ('BFGS', 'LBFGSB', 'SLSQP', 'NelderMead'):
                s['real'] = True
            stages.append(s)
        e = dict(stages=stages)
        if execs and rng.random() < 0.35:
            e['guess'] = [round(rng.uniform(0.3, 1.9), 4) for _ in spec['params']]
        execs.append(e)
    return dict(job=job, opts=opts, execs=execs, direct=rng.random() < 0.25 and not cons, _lists=['execs'])


class SimFault(Exception):
    pass


ERRORS = [SimFault, SimFault, ZeroDivisionError, OverflowError, FloatingPointError, ValueError, TypeError, KeyError,
          np.linalg.LinAlgError, RuntimeError, MemoryError, KeyboardInterrupt, StopIteration, AttributeError, IndexError]


def build(plan):
    job = plan['job']
    fit = jobs.build(job)
    if not plan['direct']:
        return fit, fit.execute, list(fit.model.params)
    from symfit.core import minimizers as MZ
    ps = list(fit.model.params)
    stages = [type(m)(fit.objective, ps) if not isinstance(m, MZ.GradientMinimizer) or m.jacobian is None
              else type(m)(fit.objective, ps, jacobian=m.jacobian) for m in fit.minimizer.minimizers]
    ch = MZ.ChainedMinimizer(fit.objective, ps, minimizers=stages)
    return ch, ch.execute, ps


def stage_options(call, name):
    kw = call.kw
    if name == 'DifferentialEvolution':
        return dict(popsize=kw.get('popsize'), seed=kw.get('seed'))
    if name == 'BasinHopping':
        return dict(niter=kw.get('niter'))
    if name == 'MINPACK':
        return dict(max_nfev=kw.get('max_nfev'))
    o = dict(kw.get('options') or {})
    o.pop('sparse_jacobian', None)
    return dict(tol=kw.get('tol'), options=o)


def execute(plan, rec):
    job, spec = plan['job'], plan['job']['spec']
    chain = job['minimizer']
    oracle = peer.Oracle(spec, spec['objective'], job['constraints'])
    target, run, params = build(plan)
    byname = {p.name: p for p in params}
    free = oracle.free
    if len(set(chain)) < len(chain):
        rec.probes['repeated kind of minimiser'] += 1
    if oracle.fixed:
        rec.probes['fixed parameters'] += 1
    if {'DifferentialEvolution', 'BasinHopping'} & set(chain):
        rec.probes['global minimiser in the chain'] += 1
    if len(chain) == 4:
        rec.probes['four stages'] += 1
    if plan['direct']:
        rec.probes['direct use of ChainedMinimizer'] += 1
    if any(plan['opts']):
        rec.probes['options by name'] += 1
    if job['constraints']:
        rec.probes['constraints'] += 1
    failed_before = False
    nstages = 0
    for ne, ex in enumerate(plan['execs']):
        if ex.get('guess'):
            for p, v in zip(params, ex['guess']):
                if not p.fixed:
                    p.value = v
            rec.probes['guesses changed between executions'] += 1
        guess = [byname[p].value for p in free]
        st = dict(k=0, x=list(guess), fun=None, nits=[], error=None, keep=[])

        def handler(call, orig, args, kwargs):
            k = st['k']
            st['k'] += 1
            if st['error'] is not None:
                raise Violation('a stage ran after a failed one', 'stage %d of %s' % (k, chain))
            if k >= len(chain):
                raise Violation('a stage ran more than once', '%s after %s' % (call.minimizer_name(), chain))
            if call.minimizer_name() != chain[k]:
                raise Violation('stages in the wrong order', 'stage %d is %s, expected %s' % (
                    k, call.minimizer_name(), chain[k]))
            s = ex['stages'][k]
            rec.ev('stage', str(ne), str(k), chain[k], engine.dig(np.asarray(
                call.x0 if call.x0 is not None else [], dtype=float)))
            if call.key != 'differential_evolution':
                got = np.asarray(call.x0, dtype=float)
                if not ref.close(got, np.asarray(st['x'], dtype=float), rtol=1e-12, atol=1e-14):
                    raise Violation('wrong start point of a stage', 'stage %d (%s) starts at %s, expected %s' % (
                        k, chain[k], got.tolist(), list(st['x'])))
            opts = stage_options(call, chain[k])
            want = default_options(chain[k])
            want.update(plan['opts'][k])
            if opts != want:
                raise Violation('wrong options of a stage', 'stage %d of %s got %s, expected %s' % (k, chain, opts, want))
            if s.get('fail') == 'before':
                st['error'] = ERRORS[s['error']]('stage %d' % k)
                rec.faults['stage fails before it starts'] += 1
                raise st['error']
            if s.get('real'):
                rec.probes['real stage'] += 1
                out = orig(*args, **kwargs)
                st['x'] = np.array(out.x, dtype=float).tolist()
                st['fun'] = float(np.squeeze(out.fun))
                st['nits'].append(int(out.nit))
                st['msg'] = str(out.message)
                return out
            for j in range(s['ask']):
                call.fun(np.array(s['x']) * (1 + 0.1 * j))
            if s.get('fail') == 'asking':
                err = ERRORS[s['error']]('stage %d' % k)
                st['error'] = err

                def boom(*a, **kw):
                    raise err
                rec.faults['stage fails while evaluating'] += 1
                boot.set_line_hook(boom)
                try:
                    call.fun(np.array(s['x']))
                finally:
                    boot.set_line_hook(None)
                raise engine.HarnessError('the objective was not evaluated in symfit')
            x = np.array(s['x'])
            fun = oracle.obj(x)[0]
            if s.get('fail') == 'after':
                st['error'] = ERRORS[s['error']]('stage %d' % k)
                rec.faults['stage fails at its end'] += 1
                raise st['error']
            msg = 'exec %d stage %d' % (ne, k)
            over = dict(success=s['success'], message=[msg] if chain[k] == 'BasinHopping' else msg, nfev=s['nit'] + 5)
            if not s['success']:
                rec.faults['stage reports failure'] += 1
            if chain[k] == 'COBYLA':
                st['nits'].append(s['nit'] + 5)
            elif chain[k] == 'TrustConstr':
                over['niter'] = s['nit']
                st['nits'].append(s['nit'])
            elif chain[k] == 'MINPACK':
                st['nits'].append(None)
            elif s['drop']:
                over['nit'] = peer.DROP
                st['nits'].append(None)
                rec.faults['no iteration count'] += 1
            else:
                over['nit'] = s['nit']
                st['nits'].append(s['nit'])
            res = peer.result(call, x, fun, **over)
            st['x'], st['fun'], st['msg'] = list(s['x']), fun, msg
            if s.get('scribble'):
                st['keep'].append(res)
            return res
        peer.install(handler)
        caught = None
        try:
            with np.errstate(all='ignore'):
                res = run(**json.loads(json.dumps(job['options'])))
        except Violation:
            raise
        except tuple(set(ERRORS)) as e:
            if e is not st['error'] and not (st['error'] is not None and isinstance(e, RuntimeError)
                                             and e.__cause__ is st['error']):
                raise
            caught = st['error']
        finally:
            boot.HOOKS.clear()
            boot.set_line_hook(None)
        nstages += st['k']
        if st['error'] is not None:
            if caught is not st['error']:
                raise Violation('the error of a stage was lost', 'raised %r, seen %r' % (st['error'], caught))
            failed_before = True
            rec.ev('failed', str(ne), str(st['k']))
            continue
        if caught is not None:
            raise Violation('an error appeared again', repr(caught))
        if st['k'] != len(chain):
            raise Violation('not every stage ran', '%d of %s' % (st['k'], chain))
        for r in st['keep']:
            r['x'][...] = 7.7e4
            rec.faults['result array reused'] += 1
        if failed_before:
            rec.probes['executed again after a failure'] += 1
        want = dict(oracle.fixed)
        want.update(zip(free, st['x']))
        if list(res.params) != [p.name for p in params]:
            raise Violation('wrong parameters in the result', str(list(res.params)))
        for p in params:
            eq('value of a parameter', res.params[p.name], want[p.name], rtol=1e-13, atol=1e-15)
        eq('objective value', np.squeeze(res.objective_value), np.squeeze(st['fun']), rtol=1e-12)
        if chain[-1] == 'MINPACK':
            rec.probes['MINPACK in the chain'] += 1
        if res.status_message != st['msg']:
            raise Violation('wrong status message', '%r, expected %r' % (res.status_message, st['msg']))
        total = sum(n for n in st['nits'] if n is not None)
        it = res.iterations
        if it != total and not (it is None and all(n is None for n in st['nits'])):
            raise Violation('wrong iteration count', '%r, expected %r = sum of %s' % (it, total, st['nits']))
        now = [byname[p].value for p in free]
        if now != guess:
            raise Violation('execution changed the initial guesses', '%s -> %s' % (guess, now))
        rec.ev('result', str(ne), engine.dig([float(v) for v in res.params.values()]), str(res.iterations))
    rec.steps = nstages
    if nstages > 1:
        rec.nontrivial(chain, plan['execs'], plan['opts'], plan['direct'], sorted(oracle.fixed))


def default_options(name):
    if name == 'DifferentialEvolution':
        return dict(popsize=40, seed=None)
    if name == 'BasinHopping':
        return dict(niter=None)
    if name == 'MINPACK':
        return dict(max_nfev=None)
    return dict(tol=1e-9, options={})
