"""Fit jobs: a problem, a minimiser (or chain), constraints and options, as plain data."""
import json
import numpy as np
import gen
import ops


def random_constraint(rng, spec):
    """A constraint between free or fixed parameters that is satisfiable near the guess."""
    ps = sorted(spec['params'])
    free = gen.free(spec)
    val = lambda p: spec['params'][p]['value']
    p = rng.choice(free)
    others = [q for q in ps if q != p]
    r = rng.random()
    if others and r < 0.7:
        q = rng.choice(others)
        w = round(rng.uniform(.3, 1.5), 2)
        lhs = ['+', p, ['*', w, q]]
        v = val(p) + w * val(q)
    elif r < 0.85:
        lhs, v = ['pow', p, 2], val(p) ** 2
    else:
        lhs, v = p, val(p)
    rel = rng.choice(['Ge', 'Le', 'Eq'])
    off = 0.0 if rel == 'Eq' else rng.uniform(-.3, .3)
    if lhs[0] == 'pow':
        off = max(off, 0.05 - v)
    if rng.random() < 0.3:                      # the other way around
        return [{'Ge': 'Le', 'Le': 'Ge', 'Eq': 'Eq'}[rel], round(v + off, 3), lhs]
    return [rel, lhs, round(v + off, 3)]


def add_condata(rng, job):
    """Give one constraint independent variables of its own, with data."""
    spec = job['spec']
    if 'condata' in spec or not job['constraints']:
        return
    taken = set(spec['params']) | set(spec['vars']) | set(spec['comps'])
    qs = rng.sample([v for v in gen.VNAMES + gen.YNAMES if v not in taken], rng.choice([1, 2, 3]))
    spec['condata'] = {q: round(rng.uniform(.3, 1.5), 3) for q in qs}
    c = job['constraints'][0]
    a, b = (2, 1) if isinstance(c[1], (int, float)) else (1, 2)
    for q in qs:
        # moves the constraint, but not by much
        v = spec['condata'][q]
        if rng.random() < 0.5:
            c[a], c[b] = ['+', c[a], ['*', 0.5, q]], round(c[b] + 0.5 * v, 4)
        else:
            c[a] = ['+', c[a], ['*', ['-', q, v], rng.choice(sorted(spec['params']))]]


def random_job(rng, template=None, spec=None, minimizer=None, constrained=None, cheap=False, **kw):
    if spec is None:
        templates = [t for t in gen.TEMPLATES if t != 'ode'] if cheap or rng.random() < .93 else ['ode']
        spec = gen.fit_spec(rng, template or rng.choice(templates), **kw)
    if rng.random() < 0.08:
        spec['objinst'] = True
    job = dict(spec=spec, constraints=[], minimizer=None, options={})
    want = rng.random() < 0.25 if constrained is None else constrained
    if want and spec['kind'] != 'ODE' and len(spec['params']) > 1 and spec['objective'] != 'VectorLeastSquares':
        n = rng.choice([1, 1, 2])
        seen = set()
        for _ in range(n):
            c = random_constraint(rng, spec)
            if c[0] == 'Eq' and ('Eq' in seen or len(gen.free(spec)) < 2):
                continue
            seen.add(c[0])
            job['constraints'].append(c)
        if rng.random() < 0.3:
            add_condata(rng, job)
    if minimizer is not None:
        job['minimizer'] = minimizer
    elif job['constraints']:
        job['minimizer'] = rng.choice(gen.CONS_MINS)
        if job['minimizer'] == 'COBYLA' and any(c[0] == 'Eq' for c in job['constraints']):
            job['minimizer'] = 'SLSQP'
        if job['minimizer'] == 'COBYLA' and any(
                d['min'] is not None or d['max'] is not None for d in spec['params'].values()) and rng.random() < 0.5:
            job['minimizer'] = 'SLSQP'
    elif rng.random() < 0.15:
        job['minimizer'] = None                       # symfit's own choice
    else:
        job['minimizer'] = gen.pick_minimizer(rng, spec)
    if minimizer is None and unbounded(rng, job):
        # methods that know no bounds ignore them, also those the guess does not satisfy
        job['minimizer'] = 'COBYLA' if job['constraints'] else rng.choice(['COBYLA', 'Powell', 'BFGS', 'NelderMead'])
        for p, d in sorted(spec['params'].items()):
            if not d['fixed'] and d['min'] is not None and d['max'] is not None and rng.random() < 0.4:
                if rng.random() < 0.5:
                    d['max'] = round(d['value'] - 0.2 * (d['value'] - d['min']), 4)
                else:
                    d['min'] = round(d['value'] + 0.2 * (d['max'] - d['value']), 4)
    if job['minimizer'] is not None:
        job['options'] = gen.min_options(rng, job['minimizer'])
    return job


def unbounded(rng, job):
    """Whether a bounded problem goes to a minimiser that ignores the bounds."""
    spec = job['spec']
    if spec['kind'] == 'ODE' or spec['objective'] == 'VectorLeastSquares' or any(c[0] == 'Eq' for c in job['constraints']):
        return False
    if not any(d['min'] is not None for p, d in spec['params'].items() if not d['fixed']):
        return False
    return rng.random() < 0.12


def sym_of(job):
    return gen.make_symbols(job['spec'])


def build(job, sym=None, model=None, data=None, **kw):
    """The Fit of a job."""
    spec = job['spec']
    if model is None:
        sym = sym or gen.make_symbols(spec)
        model = gen.make_model(spec, sym)
    elif sym is None:
        sym = {s.name: s for s in list(model.params) + list(model.vars)}
        sym.update((v, gen.Variable(v)) for v in spec.get('condata', []))
    cons = [gen.make_constraint(c, sym) for c in job['constraints']]
    mz = None if job['minimizer'] is None else gen.mins(job['minimizer'])
    return gen.make_fit(spec, model=model, data=data, minimizer=mz, constraints=cons, **kw)


def execute(job, fit, options=None):
    with np.errstate(all='ignore'):
        return fit.execute(**(json.loads(json.dumps(job['options'])) if options is None else options))


def observe(job, res):
    with np.errstate(all='ignore'):
        return gen.observe(res, [p for p in res.model.params] if hasattr(res, 'model') else [])


def run(job, **kw):
    """Build, execute, observe."""
    fit = build(job, **kw)
    return observe(job, execute(job, fit))


def name(job):
    m = job['minimizer']
    return '%s/%s/%s/%s%s' % (job['spec'].get('template', '?'), job['spec']['kind'],
                             job['spec']['objective'],
                             m if isinstance(m, str) else 'default' if m is None else '+'.join(m),
                             '/c%d' % len(job['constraints']) if job['constraints'] else '')
