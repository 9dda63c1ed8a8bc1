"""C09: pickled objects restored in another process behave identically."""
import json
import pickle
import random
import numpy as np
import boot
import engine
import faults
import gen
import jobs
import ops
import peer
import zygote
from engine import Violation, Discard
from checks import common

id = 'C09'
RUNS = dict(quick=800, thorough=40000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds a random model, objective, minimiser, fit, fit result or set of symbols, brings it to a seeded '
        'moment of its life (new, used, in the middle of a fit, after a failed call, after a fit, with changed '
        'parameter settings), pickles it with a seeded protocol (possibly interrupted once), sends it to a freshly '
        'started process with another string-hash seed, where loading may be interrupted once too, possibly on to a '
        'third process, and compares evaluations, derivatives, fits and reports with the original. Non-trivial: a '
        'restored object answered. Distinct: different (object, moment, model, minimiser, operations).')
FAULTS = ['pickling interrupted', 'loading interrupted', 'call failed before pickling']
PROBES = ['parameter', 'model', 'objective', 'minimiser', 'fit', 'fit result', 'constraint', 'chain of minimisers',
          'in the middle of a fit', 'second hop', 'settings changed before pickling', 'ODE model', 'global minimiser',
          'guesses set on the minimiser', 'minimiser made by the user', 'settings changed on the restored object']
REAL = common.REAL_ALL + ['real optimisers of scipy', 'real processes started with another hash seed', 'pickle']
STUB = ['user-supplied numerical components (generated, importable in both processes)',
        'the optimiser in which a fit is pickled half-way (simulated peer)']
ASSUMES = ['A process forked from a server that has only imported symfit is a freshly started one.']
TIME_UNIT = 'operations compared'
SPOT = 4

POOL = None


def setup():
    global POOL
    if POOL is None:
        POOL = zygote.Pool()


def teardown():
    global POOL
    if POOL is not None:
        POOL.close()
        POOL = None


def plan(rng, i, tier):
    what = rng.choice(['symbols', 'model', 'model', 'model', 'objective', 'minimizer', 'fit', 'fit', 'result', 'result',
                       'constraint'])
    if what in ('model', 'objective', 'symbols'):
        spec = common.make_spec(rng)
        job = dict(spec=spec, constraints=[], minimizer=None, options={})
    else:
        job = jobs.random_job(rng, constrained=True if what == 'constraint' else None,
                              template=rng.choice(['two', 'inter', 'line', 'decay']) if what == 'constraint' else None)
        spec = job['spec']
    m = [o for o in ops.menu(spec) if o not in ('new', 'pickle', 'pickleobj', 'connew', 'conpickle')]
    if what == 'model':
        m = [o for o in m if not o.startswith('obj')]
    elif what == 'objective':
        m = [o for o in m if o.startswith('obj')]
    else:
        m = [o for o in m if o in ('call', 'str', 'order', 'obj', 'jac')]
    todo = [ops.random_op(rng, spec, m) for _ in range(rng.randrange(2, 5))]
    if what == 'result' and rng.random() < 0.2 and spec['objective'] == 'LeastSquares':
        # nothing to explain: quality measures that are not finite
        for y in spec['top']:
            if spec.get('data', {}).get(y):
                spec['data'][y]['vals'] = [spec['data'][y]['vals'][0]] * len(spec['data'][y]['vals'])
    moment = rng.choice(['new', 'new', 'used', 'used', 'failed', 'mid'])
    if what == 'result':
        moment = 'new'
    if moment == 'mid' and what not in ('fit', 'minimizer', 'objective'):
        moment = 'used'
    if moment == 'mid' and what == 'objective':
        moment = 'used'
    change = []
    if rng.random() < 0.3 and what in ('model', 'objective', 'fit', 'minimizer', 'symbols'):
        p = rng.choice(sorted(spec['params']))
        d = spec['params'][p]
        lo = d['min'] if d['min'] is not None else 0.3
        hi = d['max'] if d['max'] is not None else lo + 1.5
        change.append([p, 'value', round(rng.uniform(max(lo, 0.3) if hi > 0.3 else lo, hi), 3)])
        if rng.random() < 0.4 and not d['fixed']:
            b = rng.choice(['min', 'max'])
            if d[b] is not None:
                change.append([p, b, round(d[b] + 0.2 * (d['value'] - d[b]), 3)])
    if rng.random() < 0.3 and what in ('fit', 'minimizer'):
        change.append(['', 'guess', [near(rng, spec['params'][p]) for p in gen.free(spec)]])
    tweak = None
    if rng.random() < 0.4 and what in ('fit', 'minimizer'):
        p = rng.choice(gen.free(spec))
        tweak = [p, near(rng, spec['params'][p])]
    return dict(what=what, job=job, ops=todo, used=[ops.random_op(rng, spec, m) for _ in range(rng.choice([1, 2]))],
                moment=moment, change=change, proto=rng.choice([2, 3, 4, 5, 5]), server=rng.randrange(3),
                hop=rng.random() < 0.25, dumpfault=faults.random_fault(rng, ('line',)) if rng.random() < 0.2 else None,
                loadfault=faults.random_fault(rng, ('line',)) if rng.random() < 0.2 else None,
                tweak=tweak, direct=direct(rng) if what == 'minimizer' and rng.random() < 0.4 else None,
                failseed=rng.randrange(1 << 30), _lists=['ops', 'used', 'change', 'job.constraints'])


def near(rng, d):
    """Another value for a parameter, within its bounds."""
    lo = d['min'] if d['min'] is not None else d['value'] - 0.5
    hi = d['max'] if d['max'] is not None else d['value'] + 0.5
    return round(d['value'] + rng.uniform(-.25, .25) * min(d['value'] - lo, hi - d['value'], 1.0), 3)


def direct(rng):
    """A minimiser made by the user instead of by Fit."""
    r = rng.random()
    if r < 0.35:
        return dict(cls='BasinHopping', local=rng.choice(['BFGS', 'NelderMead', 'LBFGSB', 'SLSQP', 'COBYLA', 'Powell']),
                    instance=rng.random() < 0.5, options=dict(niter=2, seed=rng.randrange(100)))
    if r < 0.6:
        return dict(cls='ChainedMinimizer', stages=[rng.choice(['BFGS', 'NelderMead', 'LBFGSB', 'SLSQP', 'Powell'])
                                                    for _ in range(rng.choice([2, 2, 3]))], options={})
    return dict(cls=rng.choice(['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr']), jac=rng.random() < 0.6,
                options=dict(options=dict(maxiter=12)))


def make_direct(d, fit):
    from symfit.core import minimizers as MZ
    ob, ps = fit.objective, fit.model.params
    if d['cls'] == 'BasinHopping':
        local = getattr(MZ, d['local'])
        return MZ.BasinHopping(ob, ps, local_minimizer=local(ob, ps) if d['instance'] else local)
    if d['cls'] == 'ChainedMinimizer':
        return MZ.ChainedMinimizer(ob, ps, minimizers=[getattr(MZ, m)(ob, ps) for m in d['stages']])
    kw = {}
    if d['jac'] and hasattr(ob.model, 'eval_jacobian'):
        kw['jacobian'] = ob.eval_jacobian
    return getattr(MZ, d['cls'])(ob, ps, **kw)


def bench(spec, model=None, objective=None):
    b = ops.Bench.__new__(ops.Bench)
    b.spec, b.sym, b.model, b.objective = spec, None, model, objective
    b.base = gen.np_data(spec)
    return b


def perform(what, obj, job, todo, tweak=None, options=None):
    """Everything a user gets from the object, as plain data."""
    spec = job['spec']
    out = []
    with np.errstate(all='ignore'):
        if what == 'symbols':
            for s in obj['symbols']:
                out.append([s.name, str(s), type(s).__name__, str(s.assumptions0.get('real'))] + (
                    [s.value, s.min, s.max, s.fixed] if isinstance(s, gen.Parameter) else []))
            for e in obj['exprs']:
                out.append([str(e), sorted(str(s) for s in e.free_symbols),
                            sorted(type(s).__name__ for s in e.free_symbols)])
            return out
        if what == 'model':
            b = bench(spec, model=obj)
            out.append(b.op_order(None))
            out.append(pars(obj.params))
        elif what == 'objective':
            b = bench(spec, model=obj.model, objective=obj)
            out.append(type(obj).__name__)
            out.append(data_of(obj))
            out.append(pars(obj.model.params))
        elif what == 'constraint':
            for c in obj:
                ps = {p.name: todo[0]['p'][p.name] for p in c.params}
                out.append([str(c), c.constraint_type.__name__, [p.name for p in c.params], pars(c.params)])
                out.append(ops.enc(c(**ps)))
                if hasattr(c, 'eval_jacobian'):
                    out.append(ops.enc(c.eval_jacobian(**ps)))
            return out
        elif what == 'minimizer':
            out.append([type(obj).__name__, [p.name for p in obj.parameters], [p.name for p in obj.params],
                        [float(v) for v in obj.initial_guesses], pars(obj.parameters)])
            if hasattr(obj, 'bounds'):
                out.append(str(obj.bounds))
            if hasattr(obj, 'minimizers'):
                out.append([type(m).__name__ for m in obj.minimizers])
            if hasattr(obj, 'local_minimizer'):
                out.append(type(obj.local_minimizer).__name__)
            out.append(data_of(obj.objective))
            again(out, obj, obj.parameters, tweak)
            res = obj.execute(**json.loads(json.dumps(job['options'] if options is None else options)))
            out.append([{k: float(np.real(v)) for k, v in res.params.items()}, str(res.status_message),
                        res.iterations, float(np.sum(np.asarray(res.objective_value)))])
            return out
        elif what == 'fit':
            out.append([type(obj.minimizer).__name__, type(obj.objective).__name__, obj.absolute_sigma,
                        [str(c) for c in obj.constraints], pars(obj.model.params)])
            out.append({str(k): ops.enc(v) for k, v in sorted(obj.data.items(), key=lambda kv: str(kv[0]))})
            if hasattr(obj.minimizer, 'minimizers'):
                out.append([type(m).__name__ for m in obj.minimizer.minimizers])
            out.append(data_of(obj.objective))
            again(out, obj.minimizer, obj.model.params, tweak)
            res = obj.execute(**json.loads(json.dumps(job['options'])))
            out.append(jobs.observe(job, res))
            b = bench(spec, model=obj.model, objective=obj.objective)
        elif what == 'result':
            out.append(jobs.observe(job, obj))
            out.append([type(obj.minimizer).__name__, type(obj.objective).__name__, len(obj.constraints),
                        [str(c.model) for c in obj.constraints], pars(obj.model.params)])
            if hasattr(obj.minimizer, 'minimizers'):
                out.append([type(m).__name__ for m in obj.minimizer.minimizers])
            out.append([ops.enc(obj.covariance_matrix)] + [
                [ops.enc(obj.value(p)), ops.enc(obj.stdev(p)), ops.enc(obj.variance(p))] for p in obj.model.params])
            out.append({k: ops.enc(getattr(obj, k)) for k in sorted(obj.gof_qualifiers)})
            b = bench(spec, model=obj.model, objective=obj.objective)
        for op in todo:
            out.append([op['op'], b.finish(op, b.do(op))])
    return out


def data_of(ob):
    """The data of an objective, as a user reads them."""
    return [{str(k): ops.enc(v) for k, v in sorted(d.items(), key=lambda kv: str(kv[0]))}
            for d in (ob.data, ob.dependent_data, ob.independent_data, ob.sigma_data)]


def again(out, mz, params, tweak):
    """The user sets another guess on the restored object."""
    if tweak is not None:
        for p in params:
            if p.name == tweak[0]:
                p.value = tweak[1]
        out.append([float(v) for v in mz.initial_guesses])


def pars(ps):
    return [[p.name, float(p.value), p.min, p.max, p.fixed] for p in ps]


def remote(q):
    """Runs in the other process."""
    blob = zygote.unb64(q['blob'])
    fired = 0
    f = q['loadfault']
    if f is not None:
        f = faults.resolve(f, lambda: pickle.loads(blob))
        if f is not None:
            p, outcome, v = faults.attempt(f, lambda: pickle.loads(blob))
            fired = int(bool(p.fired))
            if p.fired and outcome == 'value':
                raise AssertionError('an interrupt while loading was lost: %s' % p.fired)
    obj = pickle.loads(blob)
    again = zygote.b64(pickle.dumps(obj, q['proto'])) if q['hop'] else None
    return dict(out=perform(q['what'], obj, q['job'], q['ops'], q['tweak'], q['options']), again=again, fired=fired)


def make(plan, rec):
    """The object at the chosen moment."""
    job, what = plan['job'], plan['what']
    spec = job['spec']
    if what == 'symbols':
        sym = gen.make_symbols(spec)
        model = gen.make_model(spec, sym)
        exprs = [e for e in model.model_dict.values() if hasattr(e, 'free_symbols')]
        return dict(symbols=[sym[n] for n in sorted(sym)], exprs=exprs), sym
    if what in ('model', 'objective'):
        b = ops.Bench(spec)
        return (b.model if what == 'model' else b.objective), b.sym
    sym = jobs.sym_of(job)
    fit = jobs.build(job, sym)
    if what == 'fit':
        return fit, sym
    if what == 'minimizer':
        return fit.minimizer if not plan.get('direct') else make_direct(plan['direct'], fit), sym
    if what == 'constraint':
        return list(fit.constraints), sym
    return jobs.execute(job, fit), sym


def plain(x):
    return json.loads(json.dumps(x, default=engine._jsonable))


def execute(plan, rec):
    if POOL is None:
        raise engine.HarnessError('no servers')
    job, what = plan['job'], plan['what']
    spec = job['spec']
    more = dict(tweak=plan.get('tweak'), options=plan['direct']['options'] if plan.get('direct') else None)
    ops.solo(lambda: (perform(what, make(plan, rec)[0], job, plan['ops'], **more), 1)[1])   # discards what does not work at all
    obj, sym = make(plan, rec)
    explicit = json.loads(json.dumps(plan))
    if plan['moment'] in ('used', 'failed'):
        target = {'symbols': None, 'constraint': None}.get(what, obj)

        def use():
            if what in ('symbols', 'constraint'):
                return
            perform(what, target, job, plan['used'], options=more['options'])
        if plan['moment'] == 'used':
            use()
        else:
            f = explicit.get('usefault') or dict(kind='line', exc='SimFault', seed=plan['failseed'])
            f = faults.resolve(f, use)
            if f is not None:
                p, outcome, v = faults.attempt(f, use)
                explicit['usefault'] = f
                rec.ev('failed', str(p.fired), outcome)
                if p.fired:
                    rec.faults['call failed before pickling'] += 1
    for name, key, v in plan['change']:
        if key == 'guess':
            (obj if what == 'minimizer' else obj.minimizer).initial_guesses = list(v)
            rec.probes['guesses set on the minimiser'] += 1
        else:
            setattr(sym[name], key, v)
        rec.probes['settings changed before pickling'] += 1
    blob = None
    if plan['moment'] == 'mid':
        got = []

        def handler(call, orig, args, kwargs):
            x = np.array([0.9] * len(gen.free(spec)))
            call.fun(x)
            got.append(pickle.dumps(obj, plan['proto']))
            call.fun(x * 1.1)
            return peer.result(call, x, np.asarray(call.fun(x)))
        peer.install(handler)
        try:
            with np.errstate(all='ignore'):
                obj.execute()
        finally:
            boot.HOOKS.clear()
        blob = got[0]
        rec.probes['in the middle of a fit'] += 1
    before = plain(ops.solo(lambda: perform(what, obj, job, plan['ops'], **more)))
    if plan['dumpfault'] is not None:
        f = faults.resolve(plan['dumpfault'], lambda: pickle.dumps(obj, plan['proto']))
        explicit['dumpfault'] = f
        if f is not None:
            p, outcome, v = faults.attempt(f, lambda: pickle.dumps(obj, plan['proto']))
            rec.ev('dump', str(p.fired), outcome)
            if p.fired:
                rec.faults['pickling interrupted'] += 1
                if outcome == 'value':
                    raise Violation('an interrupt while pickling was lost', str(p.fired))
            if outcome == 'other':
                raise Violation('another exception came out of pickling: ' + type(v).__name__, repr(v))
    rec.explicit = explicit
    if blob is None:
        blob = pickle.dumps(obj, plan['proto'])
    after = plain(perform(what, obj, job, plan['ops'], **more))
    d = diff(before, after)
    if d:
        raise Violation('pickling changed the original ' + what, d)
    q = dict(what=what, job=job, ops=plan['ops'], blob=zygote.b64(blob), loadfault=plan['loadfault'], hop=plan['hop'],
             proto=plan['proto'], **more)
    got = ask(plan['server'], q)
    if got['fired']:
        rec.faults['loading interrupted'] += 1
    compare(plan, rec, 'restored', got['out'], before)
    if plan['hop']:
        q.update(blob=got['again'], hop=False, loadfault=None)
        got2 = ask(plan['server'] + 1, q)
        compare(plan, rec, 'restored twice', got2['out'], before)
        rec.probes['second hop'] += 1
    rec.steps = len(before)
    name = {'symbols': 'parameter', 'minimizer': 'minimiser', 'result': 'fit result'}.get(what, what)
    rec.probes[name] += 1
    if isinstance(job['minimizer'], list):
        rec.probes['chain of minimisers'] += 1
    if job['minimizer'] in ('DifferentialEvolution', 'BasinHopping'):
        rec.probes['global minimiser'] += 1
    if spec['kind'] == 'ODE':
        rec.probes['ODE model'] += 1
    if plan.get('direct'):
        rec.probes['minimiser made by the user'] += 1
    if plan.get('tweak'):
        rec.probes['settings changed on the restored object'] += 1
    rec.nontrivial(what, plan['moment'], jobs.name(job), spec['comps'], [o['op'] for o in plan['ops']], plan['change'])


def diff(a, b):
    """Texts and numbers; covariances may be badly conditioned, so 1e-6."""
    return ops.differ(a, b, rtol=1e-6)


def ask(k, q):
    try:
        return POOL.call(k, 'checks.c09:remote', q)
    except zygote.Remote as e:
        raise Violation('failed in the other process: ' + e.cls.split(':')[0], e.trace)


def compare(plan, rec, how, got, want):
    rec.ev(how, engine.dig(got))
    d = diff(got, want)
    if d:
        raise Violation('%s %s differs' % (how, plan['what']), d)
