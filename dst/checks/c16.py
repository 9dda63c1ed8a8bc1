"""C16: executing a fit uses the current settings of its parameters."""
import json
import random
import warnings
import numpy as np
import boot
import engine
import faults
import gen
import jobs
import ops
import peer
import symfit
from engine import Violation, Discard
from checks import common

id = 'C16'
RUNS = dict(quick=600, thorough=25000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds one fit and goes through a seeded history of changes to the value, bounds and fixed flag of its '
        'parameters, executions, interrupted and failing executions, other fits with the same parameters and evaluations. '
        'Every execution is compared with a fit that is newly built in a fork which has done nothing else, with the '
        'settings of that moment and the same minimiser and objective; where a simulated optimiser answers, the start '
        'point, bounds and requests are compared with the reference model. Results of earlier executions are read again '
        'at the end. Non-trivial: an execution followed a change. Distinct: different (job, history, instants).')
FAULTS = ['%s at %s' % (e, w) for e in ('KeyboardInterrupt', 'MemoryError', 'SimFault')
          for w in ('a source line', 'a user call', 'the minimize boundary', 'the inv boundary',
                    'the least_squares boundary', 'the differential_evolution boundary', 'the basinhopping boundary',
                    'the solve_ivp boundary')] + ['settings changed during an execution']
PROBES = ['value changed', 'bounds changed', 'bounds removed', 'bounds added', 'parameter fixed', 'parameter freed',
          'value of a fixed parameter changed', 'executed twice without a change', 'chain of minimisers', 'constraints',
          'other fit with the same parameters', 'evaluated in between', 'simulated optimiser', 'earlier result read again',
          'pickled and restored', 'settings restored', 'default minimiser', 'execution with other options']
REAL = common.REAL_ALL + ['real optimisers of scipy']
STUB = ['user-supplied numerical components (generated)', 'the instant of exceptions',
        'the optimiser in executions marked so (simulated peer)']
ASSUMES = ['The guess lies within the bounds.',
           'The local minimiser of BasinHopping is chosen by symfit when the fit is built, on the basis of whether there '
           'are any bounds; changes that would alter this choice are not made for BasinHopping.']
TIME_UNIT = 'source lines of symfit executed in interrupted executions, and executions'
SPOT = 3


# ------------------------------------------------------------------- plan
def flatten(m):
    return [m] if isinstance(m, str) else list(m or [])


def change(rng, job, cur, first_bounds):
    """A change that leaves a valid problem; returns it or None."""
    spec = job['spec']
    names = flatten(job['minimizer'])
    p = rng.choice(sorted(cur))
    d = dict(cur[p])
    free = [q for q in cur if not cur[q]['fixed']]
    lo0 = spec['params'][p]['min']
    k = rng.choice(['value', 'value', 'value', 'bounds', 'bounds', 'fix', 'fix', 'unbound'])
    if k == 'value':
        lo = d['min'] if d['min'] is not None else d['value'] - 0.5
        hi = d['max'] if d['max'] is not None else d['value'] + 0.5
        lo, hi = max(lo, d['value'] - 0.6), min(hi, d['value'] + 0.6)
        d['value'] = round(rng.uniform(lo, hi), 4)
        if not lo <= d['value'] <= hi:
            return None
    elif k == 'bounds':
        w = rng.choice([0.05, 0.3, 1.0, 3.0])
        lo, hi = round(d['value'] - w * rng.uniform(.2, 1), 3), round(d['value'] + w * rng.uniform(.2, 1), 3)
        if lo0 is not None and lo0 > -1:
            lo = max(lo, lo0)
            if lo >= d['value']:
                return None
        d['min'] = lo
        if rng.random() < .8 or 'DifferentialEvolution' in names:
            d['max'] = hi
    elif k == 'unbound':
        if 'DifferentialEvolution' in names or (lo0 is not None and lo0 > -1):
            d['max'] = None if 'DifferentialEvolution' not in names else d['max']
        else:
            d['min'] = d['max'] = None
    elif k == 'fix':
        if not d['fixed'] and len(free) < 2:
            return None
        d['fixed'] = not d['fixed']
    new = dict(cur, **{p: d})
    if 'BasinHopping' in names and not job['constraints'] and has_bounds(new) != first_bounds:
        return None
    if new == cur:
        return None
    return dict(do='set', p=p, to=d)


def has_bounds(cur):
    return any(d['min'] is not None or d['max'] is not None for d in cur.values())


def plan(rng, i, tier):
    t = rng.choice([k for k in gen.TEMPLATES if k not in ('ode', 'logl')] * 3 + ['two', 'inter', 'gauss', 'ode', 'logl'])
    job = jobs.random_job(rng, template=t)
    spec = job['spec']
    first = has_bounds(spec['params'])
    cur = json.loads(json.dumps(spec['params']))
    steps = []
    n = rng.choice([2, 2, 3, 3, 4])
    if rng.random() < .7:
        steps.append(execution(rng))
    for _ in range(n):
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .12:
                back = [s['old'] for s in steps if s['do'] == 'set']
                c = dict(do='all', to=json.loads(json.dumps(spec['params'])))
                if back and c['to'] != cur:
                    steps.append(c)
                    cur = c['to']
                    continue
            c = change(rng, job, cur, first)
            if c is not None:
                c['old'] = cur[c['p']]
                steps.append(c)
                cur = dict(cur, **{c['p']: c['to']})
        r = rng.random()
        if r < .15:
            steps.append(dict(do='other', min=rng.choice(['SLSQP', 'LBFGSB', 'NelderMead']) , cur=cur))
        elif r < .3:
            steps.append(dict(do='eval', p=gen.point(rng, spec)))
        elif r < .38 and spec['kind'] != 'ODE':
            steps.append(dict(do='pickle'))
        steps.append(execution(rng))
    steps.append(dict(do='execute', kind='real'))
    return dict(job=job, steps=steps, _lists=['steps', 'job.constraints'])


def execution(rng):
    s = dict(do='execute', kind=rng.choice(['real', 'real', 'real', 'peer', 'fault']))
    if s['kind'] == 'fault':
        s['fault'] = faults.random_fault(rng, ('line', 'line', 'lib', 'user'))
    return s


# ------------------------------------------------------------------ execute
def apply(sym, cur):
    for p, d in cur.items():
        s = sym[p]
        s.value, s.min, s.max, s.fixed = d['value'], d['min'], d['max'], d['fixed']


def at(job, cur, names):
    """The job with the settings cur and an explicit minimiser."""
    j = json.loads(json.dumps(job))
    j['spec']['params'] = json.loads(json.dumps(cur))
    j['minimizer'] = names
    return j


def execute(plan, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        session(plan, rec)


def session(plan, rec):
    job = plan['job']
    spec = job['spec']
    names = job['minimizer']
    if names is None:
        names = ops.solo(lambda: type(jobs.build(job).minimizer).__name__)
        rec.probes['default minimiser'] += 1
    # what newly built fits give, in forks that have done nothing else
    cur = json.loads(json.dumps(spec['params']))
    wants, memo = {}, {}
    for k, s in enumerate(plan['steps']):
        if s['do'] == 'set':
            cur = dict(cur, **{s['p']: s['to']})
        elif s['do'] == 'all':
            cur = s['to']
        elif s['do'] == 'execute' and s['kind'] == 'real':
            if all(d['fixed'] for d in cur.values()):
                raise Discard('nothing is free')
            key = json.dumps(cur, sort_keys=True)
            if key not in memo:
                memo[key] = ops.solo_or_none(lambda: jobs.run(at(job, cur, names)))
            wants[k] = memo[key]
    if all(w is None for w in wants.values()):
        raise Discard('nothing works')
    sym = jobs.sym_of(job)
    fit = jobs.build(job, sym)
    cur = json.loads(json.dumps(spec['params']))
    explicit = json.loads(json.dumps(plan))
    results, sig, changed, ran = [], [], False, False
    for k, s in enumerate(plan['steps']):
        if s['do'] == 'set':
            note_change(rec, cur[s['p']], s['to'])
            cur = dict(cur, **{s['p']: s['to']})
            apply(sym, {s['p']: s['to']})
            changed = True
            rec.ev('set', s['p'], json.dumps(s['to']))
        elif s['do'] == 'all':
            cur = s['to']
            apply(sym, cur)
            changed = True
            rec.probes['settings restored'] += 1
            rec.ev('all')
        elif s['do'] == 'other':
            other(fit, job, sym, cur, s)
            rec.probes['other fit with the same parameters'] += 1
            rec.ev('other')
        elif s['do'] == 'eval':
            kw = {v: gen.np_data(spec)[v] for v in spec['vars']}
            with np.errstate(all='ignore'):
                fit.model(**kw, **s['p'])
                fit.objective(**{p: s['p'][p] for p in s['p'] if not cur[p]['fixed']})
            rec.probes['evaluated in between'] += 1
            rec.ev('eval')
        elif s['do'] == 'pickle':
            import pickle
            try:
                fit2 = pickle.loads(pickle.dumps(fit))
            except Exception:
                continue                       # the subject of C09
            fit = fit2
            sym = {p.name: p for p in fit.model.params}
            rec.probes['pickled and restored'] += 1
            rec.ev('pickle')
            settings(fit, cur)
        elif s['do'] == 'execute':
            rec.explicit = explicit
            rec.steps += 1
            if s['kind'] == 'peer':
                if simulated(fit, at(job, cur, names), names, rec):
                    rec.probes['simulated optimiser'] += 1
            elif s['kind'] == 'fault':
                f = faults.resolve(s['fault'], lambda: jobs.execute(job, fit))
                explicit['steps'][k]['fault'] = f
                if f is None:
                    explicit['steps'][k] = dict(do='nothing')
                    continue
                p, outcome, v = faults.attempt(f, lambda: jobs.execute(job, fit))
                rec.steps += p.steps
                rec.ev('interrupted', str(p.fired), outcome)
                if p.fired:
                    rec.faults[faults.label(f)] += 1
                    sig.append(p.fired)
            else:
                want = wants[k]
                if want is None:
                    try:
                        jobs.execute(job, fit)
                    except Exception:
                        pass
                    continue
                try:
                    res = jobs.execute(job, fit)
                except Exception as e:
                    raise Violation('fails where a newly built fit works: ' + type(e).__name__, repr(e))
                got = json.loads(json.dumps(jobs.observe(job, res)))
                rec.ev('execute', engine.dig(got['params']), str(got['nit']), got['message'])
                for p, d in cur.items():
                    if d['fixed'] and got['params'][p] != d['value']:
                        raise Violation('a fixed parameter is not reported at its value', '%s = %r, set to %r' % (
                            p, got['params'][p], d['value']))
                d = gen.same_result(got, want, rtol=1e-9)
                if d:
                    raise Violation('another result than a newly built fit: ' + d.split(':')[0].split(' ')[0],
                                    'step %d: %s' % (k, d))
                results.append((k, res, got))
                if ran and not changed:
                    rec.probes['executed twice without a change'] += 1
            if changed:
                rec.nontrivial(jobs.name(job), spec['comps'], spec['params'], job['options'], plan['steps'], sig)
            ran, changed = True, False
            settings(fit, cur)
    for k, res, got in results[:-1]:
        again = json.loads(json.dumps(jobs.observe(job, res)))
        d = gen.same_result(again, got, rtol=1e-12)
        if d:
            raise Violation('a result changed after it was reported: ' + d.split(':')[0].split(' ')[0],
                            'result of step %d: %s' % (k, d))
        rec.probes['earlier result read again'] += 1
    if len(flatten(names)) > 1:
        rec.probes['chain of minimisers'] += 1
    if job['constraints']:
        rec.probes['constraints'] += 1


def settings(fit, cur):
    """The parameters of the fit still have their settings."""
    for p in fit.model.params:
        d = cur[p.name]
        if (p.value, p.min, p.max, p.fixed) != (d['value'], d['min'], d['max'], d['fixed']):
            raise Violation('the settings of a parameter changed', '%s: %s, set to %s' % (
                p.name, (p.value, p.min, p.max, p.fixed), d))


def other(fit, job, sym, cur, s):
    """Another fit with the same parameters."""
    j = at(job, cur, s['min'])
    j['constraints'] = []
    j['options'] = dict(options=dict(maxiter=4))
    try:
        f = jobs.build(j, model=fit.model)
        jobs.execute(j, f)
    except Exception:
        pass


def simulated(fit, job, names, rec):
    """An execution with a simulated optimiser that looks at what it is given."""
    spec = job['spec']
    if spec['kind'] == 'ODE':
        return False
    seen = []

    def handler(call, orig, args, kwargs):
        seen.append(1)
        o = peer.Oracle(spec, 'VectorLeastSquares' if call.key == 'least_squares' else spec['objective'], job['constraints'])
        if len(seen) == 1:
            peer.check_handover(call, o, call.minimizer_name())
        free = gen.free(spec)
        x = np.array([spec['params'][p]['value'] for p in free])
        req = peer.Requests(call, o, rec)
        rng = random.Random(len(free))
        for _ in range(3):
            q = x + np.array([rng.uniform(-.05, .05) for _ in free])
            req.check_f(q, call.fun(q.copy()))
        return peer.result(call, x, np.asarray(call.fun(x)))
    peer.install(handler)
    try:
        with np.errstate(all='ignore'):
            res = jobs.execute(job, fit)
        got = {k: float(np.real(v)) for k, v in res.params.items()}
        want = {p: d['value'] for p, d in spec['params'].items()}
        for p in want:
            if not np.isclose(got[p], want[p], rtol=1e-12, atol=0):
                raise Violation('the simulated optimiser stopped elsewhere', '%s: %r, expected %r' % (p, got[p], want[p]))
        rec.ev('peer', engine.dig(got))
    finally:
        boot.HOOKS.clear()
    return bool(seen)


def note_change(rec, old, new):
    p = rec.probes
    if old['value'] != new['value']:
        p['value changed'] += 1
        if old['fixed']:
            p['value of a fixed parameter changed'] += 1
    ob, nb = [old['min'], old['max']], [new['min'], new['max']]
    if ob != nb:
        if nb == [None, None]:
            p['bounds removed'] += 1
        elif ob == [None, None]:
            p['bounds added'] += 1
        else:
            p['bounds changed'] += 1
    if old['fixed'] != new['fixed']:
        p['parameter fixed' if new['fixed'] else 'parameter freed'] += 1
