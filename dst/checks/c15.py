"""C15: fitting never modifies objects that belong to the caller."""
import hashlib
import collections
import json
import random
import warnings
import numpy as np
import sympy
import boot
import engine
import faults
import gen
import jobs
import ops
import symfit
from symfit.core import minimizers as MZ
from engine import Violation, Discard
from checks import common

id = 'C15'
RUNS = dict(quick=500, thorough=20000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run makes one set of caller-owned objects (parameters, data arrays, model dictionaries, mappings, initial '
        'conditions, constraint lists, minimiser lists, option dictionaries) and does a seeded sequence of fits, repeated '
        'executions, evaluations and rejected calls with them, some interrupted at a seeded instant. Deep snapshots of '
        'all objects are compared at seeded source lines during every step and after it, and every result is compared '
        'with the one of private copies in a fork. Non-trivial: at least two steps used the same objects. Distinct: '
        'different (problem, objects, steps, instants).')
FAULTS = ['%s at %s' % (e, w) for e in ('KeyboardInterrupt', 'MemoryError', 'SimFault')
          for w in ('a source line', 'a user call', 'the minimize boundary', 'the inv boundary',
                    'the least_squares boundary', 'the differential_evolution boundary', 'the basinhopping boundary',
                    'the solve_ivp boundary')] + ['construction rejected', 'execution rejected']
PROBES = ['model dictionary shared', 'model object shared', 'unnamed list of components shared', 'constraint list shared',
          'constraint model shared', 'option dictionary shared', 'minimiser list shared', 'read-only data', 'strided data',
          'data as list', 'integer data', 'one array in several roles', 'ordered data', 'initial conditions shared',
          'connectivity mapping shared', 'executed again', 'two models share the data', 'snapshot during a step',
          'minimizer_kwargs shared', 'array in options', 'callback in options', 'model evaluated', 'objective evaluated']
REAL = common.REAL_ALL + ['real optimisers of scipy']
STUB = ['user-supplied numerical components (generated)', 'the instant of exceptions']
ASSUMES = ['Random generator objects passed as seed are consumed by design and not used here.',
           'Exceptions strike at the start of an executed source line of symfit, in a user call, or at the boundary of '
           'the scipy optimisers, solve_ivp and numpy.linalg.inv.']
TIME_UNIT = 'source lines of symfit executed in the steps'
SPOT = 3


# ------------------------------------------------------------------- plan
def plan(rng, i, tier):
    t = rng.choice([k for k in gen.TEMPLATES if k != 'ode'] * 3 + ['two', 'inter', 'num', 'ode'])
    spec = gen.fit_spec(rng, t)
    style = dict(model=rng.choice(['dict', 'dict', 'object', 'list']), data={}, odict=rng.random() < 0.4)
    if spec['kind'] == 'ODE':
        style['model'] = 'object'
    if style['model'] == 'list' and (len(spec['top']) != len(spec['comps']) or spec['numeric'] or len(spec['top']) != 1
                                     or spec['objective'] != 'LeastSquares'):
        style['model'] = 'dict'
    if spec['numeric']:
        style['model'] = 'object'
    for k in spec['data']:
        style['data'][k] = rng.choice(['plain', 'plain', 'readonly', 'strided', 'list', 'fortran'])
    if spec['template'] == 'line' and rng.random() < .3:
        v = spec['vars'][0]
        spec['data'][v]['vals'] = [float(j) for j in range(len(spec['data'][v]['vals']))]
        style['data'][v] = 'int'
    style['roles'] = t == 'two' and rng.random() < 0.5
    if style['roles']:
        for y in spec['top']:
            spec['data']['sigma_' + y] = dict(spec['data'][spec['vars'][0]], vals=[
                round(0.1 + 0.05 * j, 3) for j in range(len(spec['data'][spec['vars'][0]]['vals']))])
            style['data']['sigma_' + y] = 'plain'
    style['ordered'] = rng.random() < 0.2
    job = jobs.random_job(rng, spec=spec, constrained=rng.random() < 0.5)
    style['conmodel'] = bool(job['constraints']) and style['model'] == 'object' and rng.random() < 0.4
    mins, opts = [], {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        if job['constraints'] and rng.random() < 0.7:
            m = rng.choice(gen.CONS_MINS)
            if m == 'COBYLA' and (any(c[0] == 'Eq' for c in job['constraints']) or any(
                    d['min'] is not None or d['max'] is not None for d in spec['params'].values())):
                m = 'SLSQP'
        else:
            m = gen.pick_minimizer(rng, spec)
        mins.append(m)
        for n in ([m] if isinstance(m, str) else m):
            if n not in opts:
                opts[n] = extra(rng, n, spec)
    steps = []
    for k in range(rng.choice([2, 3, 3, 4, 5])):
        r = rng.random()
        built = [j for j, s in enumerate(steps) if s['do'] == 'fit']
        if r < 0.6 or not steps:
            s = dict(do='fit', min=rng.randrange(len(mins)), variant=rng.random() < 0.3,
                     opts=rng.random() < 0.85)
        elif r < 0.75 and built:
            s = dict(do='again', which=rng.choice(built))
        elif r < 0.92:
            ops_ = [o for o in ('call', 'components', 'jac', 'hess', 'obj', 'objjac', 'objhess', 'fd')
                    if o in ops.menu(spec)]
            s = dict(do='eval', op=ops.random_op(rng, spec, ops_))
            s['op']['s'] = 1.0
        else:
            s = dict(do=rng.choice(['missing', 'badoption', 'badconstraint']), min=rng.randrange(len(mins)))
        if s['do'] in ('fit', 'again', 'eval') and rng.random() < 0.3:
            s['fault'] = faults.random_fault(rng)
        steps.append(s)
    return dict(job=job, style=style, mins=mins, opts=opts, steps=steps, every=rng.choice([499, 1501, 5003, 20011]),
                _lists=['steps', 'job.constraints'])


def extra(rng, n, spec):
    """Options with nested objects that belong to the caller."""
    o = gen.min_options(rng, n)
    nf = len(gen.free(spec))
    if n in ('SLSQP', 'LBFGSB', 'BFGS') and rng.random() < 0.5:
        o['options'] = dict(maxiter=60)
    if n == 'BFGS' and rng.random() < .3:
        o['options'] = dict(maxiter=40, gtol=1e-6)
    if n == 'NelderMead' and rng.random() < .5:
        guess = [spec['params'][p]['value'] for p in gen.free(spec)]
        o['options'] = dict(o['options'], initial_simplex=['#array', [guess] + [
            [g + (0.1 if j == k else 0) for j, g in enumerate(guess)] for k in range(nf)]])
    if n == 'TrustConstr' and rng.random() < .5:
        o['options'] = dict(maxiter=8, initial_tr_radius=0.7)
    if n == 'BasinHopping':
        r = rng.random()
        if r < .3:
            o['minimizer_kwargs'] = {}
        elif r < .6:
            o['minimizer_kwargs'] = dict(options=dict(maxiter=30))
        elif r < .7:
            o['minimizer_kwargs'] = dict(method='L-BFGS-B', options=dict(maxiter=20))
    if n == 'DifferentialEvolution' and rng.random() < .4:
        pts = []
        for _ in range(max(5, 3 * nf)):
            pts.append([round(rng.uniform(spec['params'][p]['min'], spec['params'][p]['max']), 4) for p in gen.free(spec)])
        o['init'] = ['#array', pts]
    if n in ('SLSQP', 'LBFGSB', 'NelderMead', 'BFGS', 'Powell') and rng.random() < .15:
        o['callback'] = ['#callback']
    return o


# ------------------------------------------------------------------- pool
class Callback(object):
    def __init__(self):
        self.calls = 0

    def __call__(self, *a, **k):
        pass


def realise(o):
    if isinstance(o, dict):
        return {k: realise(v) for k, v in o.items()}
    if isinstance(o, list) and o and o[0] == '#array':
        return np.array(o[1], dtype=float)
    if isinstance(o, list) and o == ['#callback']:
        return Callback()
    return o


class Pool(object):
    """Everything the caller owns."""
    def __init__(self, plan, shared):
        self.plan, self.job, self.spec, self.style = plan, plan['job'], plan['job']['spec'], plan['style']
        spec, style = self.spec, self.style
        self.shared = shared
        self.sym = gen.make_symbols(spec)
        self.owned = {'parameter ' + p: self.sym[p] for p in sorted(spec['params'])}
        self.arrays = self.owned['data'] = {}
        for k, v in gen.np_data(spec).items():
            self.arrays[k] = self.array(v, style['data'][k], shared)
        if style['roles']:
            a, b = ['sigma_' + y for y in spec['top']]
            self.arrays[b] = self.arrays[a]
        self.models = {}
        for name in ('model', 'variant'):
            self.models[name] = self.model(name)
            self.owned['what defines the ' + name] = self.models[name]['owned']
        self.cons = self.owned['constraints'] = [gen.make_constraint(c, self.sym) for c in self.job['constraints']]
        if style['conmodel']:
            m = self.models['model']['obj']
            cls = symfit.CallableModel if spec['numeric'] else type(m)
            self.cons[:] = [cls.as_constraint(c, m) for c in self.cons]
        self.mins = self.owned['minimisers'] = [gen.mins(m) for m in plan['mins']]
        self.opts = self.owned['options'] = {n: realise(o) for n, o in plan['opts'].items()}
        self.fits = {}

    @staticmethod
    def array(v, style, shared):
        if not isinstance(v, np.ndarray):
            return v
        if style == 'list':
            return v.tolist()
        if style == 'int':
            v = v.astype(int)
        if style == 'strided':
            big = np.full(2 * v.size, 7.0)
            big[::2] = v.ravel()
            v = big[::2]
        if style == 'readonly' and shared:
            v.flags.writeable = False
        return v

    def construct(self, owned, build):
        if not self.shared:
            return build()
        before = {k: snap(v) for k, v in owned.items()}
        out = build()
        compare(before, {k: snap(v) for k, v in owned.items()}, None, 'after building a model')
        return out

    def model(self, name):
        spec, sym = self.spec, self.sym
        f = 1.0 if name == 'model' else 1.1
        owned = {}
        new = collections.OrderedDict if self.style.get('odict') else dict
        if spec['kind'] == 'ODE':
            t = sym[spec['vars'][0]]
            md = owned['model dictionary'] = new()
            for y in spec['order']:
                md[symfit.D(sym[y], t)] = f * (gen.ref.ev(spec['comps'][y], sym, sympy) + sympy.S.Zero)
            init = owned['initial'] = new()
            init[t] = spec['t0']
            for y, v in spec['initial'].items():
                init[sym[y]] = sym[v] if isinstance(v, str) else v
            kw = owned['integrator'] = dict(spec['integrator'])
            return dict(owned=owned, obj=self.construct(owned, lambda: symfit.ODEModel(md, initial=init, **kw)))
        md, cm = new(), new()
        for y in spec['order']:
            e = spec['comps'][y]
            if y in spec['top'] and f != 1:
                e = ['*', f, e]
            if y in spec['numeric']:
                md[sym[y]] = gen.ExprFunc(e, y)
                cm[sym[y]] = {sym[n] for n in gen.ref.names(e)}
            else:
                md[sym[y]] = gen.ref.ev(e, sym, sympy) + sympy.S.Zero
        owned['model dictionary'] = md
        if spec['numeric']:
            owned['connectivity mapping'] = cm
            return dict(owned=owned, obj=self.construct(
                owned, lambda: gen.KINDS[spec['kind']](md, connectivity_mapping=cm)))
        if self.style['model'] == 'list':
            lst = owned['model list'] = list(md.values())
            return dict(owned=owned, obj=lst)
        if self.style['model'] == 'dict':
            return dict(owned=owned, obj=md)
        return dict(owned=owned, obj=self.construct(owned, lambda: gen.KINDS[spec['kind']](md)))

    # -- steps
    def build(self, s):
        spec = self.spec
        model = self.models['variant' if s.get('variant') else 'model']['obj']
        m = self.mins[s['min']]
        kw = {}
        if spec['objective'] == 'LogLikelihood':
            kw['objective'] = gen.OB.LogLikelihood
        names = self.plan['mins'][s['min']]
        names = [names] if isinstance(names, str) else names
        if self.cons and all(n in gen.CONS_MINS for n in names) and not (s.get('variant') and self.style['conmodel']):
            kw['constraints'] = self.cons
        data = self.arrays
        con = spec.get('condata', {}) if kw.get('constraints') else {}
        data = {**data, **con}
        if self.style['model'] == 'list':
            y = spec['top'][0]
            mm = symfit.Model(model)
            (auto,) = mm.dependent_vars
            data = {{y: auto.name, 'sigma_' + y: 'sigma_' + auto.name}.get(k, k): v for k, v in data.items()}
            return symfit.Fit(mm, minimizer=m, **kw, **data)
        if self.style['ordered'] and spec['objective'] == 'LeastSquares' and spec['kind'] != 'ODE' and \
                len(spec['top']) == len(spec['comps']):
            order = sorted(spec['vars']) + sorted(spec['top']) + sorted(con) + ['sigma_' + y for y in sorted(spec['top'])]
            seq = [data.get(k) for k in order]
            while seq and seq[-1] is None:
                seq.pop()
            return symfit.Fit(model, *seq, minimizer=m, **kw)
        return symfit.Fit(model, minimizer=m, **kw, **data)

    def options(self, s):
        names = self.plan['mins'][s['min']]
        if not s.get('opts', True):
            # without these a search would take very long or not be reproducible
            names_ = [names] if isinstance(names, str) else names
            if any(n in ('DifferentialEvolution', 'BasinHopping', 'TrustConstr', 'Powell') for n in names_):
                s = dict(s, opts=True)
        if not s.get('opts', True):
            return {}
        if isinstance(names, str):
            return self.opts[names]
        out, seen = {}, {}
        for n in names:
            seen[n] = seen.get(n, 0) + 1
            out[n if seen[n] == 1 else '%s_%d' % (n, seen[n])] = self.opts[n]
        return out

    def execute(self, s, fit):
        with np.errstate(all='ignore'):
            return fit.execute(**self.options(s))

    def do(self, k):
        s = self.plan['steps'][k]
        if s['do'] == 'fit':
            fit = self.build(s)
            self.fits[k] = fit
            return self.observe(self.execute(s, fit))
        if s['do'] == 'again':
            w = self.plan['steps'][s['which']]
            fit = self.fits.get(s['which'])
            if fit is None:                  # private copy, or the step was interrupted
                fit = self.build(w)
            return self.observe(self.execute(w, fit))
        if s['do'] == 'eval':
            return self.evaluate(s['op'])
        if s['do'] == 'missing':
            data = {k: v for k, v in self.arrays.items() if k not in self.spec['vars']}
            return self.rejected(lambda: symfit.Fit(self.models['model']['obj'], minimizer=self.mins[s['min']],
                                                    constraints=self.cons, **data))
        if s['do'] == 'badoption':
            fit = self.build(s)
            return self.rejected(lambda: fit.execute(**self.options(s), no_such_option=3))
        if s['do'] == 'badconstraint':
            other = symfit.Parameter('not_in_the_model', value=1.0)
            cons = self.cons + [symfit.Eq(other, 2)]
            return self.rejected(lambda: symfit.Fit(self.models['model']['obj'], minimizer=MZ.SLSQP, constraints=cons,
                                                    **self.arrays))

    @staticmethod
    def rejected(fn):
        try:
            fn()
        except Exception as e:
            return ['rejected', type(e).__name__]
        return ['accepted']

    def observe(self, res):
        with np.errstate(all='ignore'):
            o = gen.observe(res, list(res.model.params))
        if self.style['model'] == 'list':
            # the generated name of the dependent variable differs between the models
            o['gof'] = {k: v for k, v in o['gof'].items()}
        return o

    def evaluate(self, op):
        spec = self.spec
        model = self.models['model']['obj']
        if isinstance(model, dict):
            model = gen.KINDS[spec['kind']](model)
        elif isinstance(model, list):
            model = symfit.Model(model)
        with np.errstate(all='ignore'):
            if op['op'].startswith('obj'):
                data = {}
                if self.style['model'] == 'list':
                    return None
                for v in model.independent_vars:
                    data[v] = self.arrays[v.name]
                for v in model.dependent_vars:
                    y = data[v] = self.arrays.get(v.name)
                    sg = self.arrays.get('sigma_' + v.name)
                    data[model.sigmas[v]] = None if y is None else sg if np.ndim(sg) else np.ones(np.shape(y))
                if any(isinstance(v, list) for v in data.values()):
                    return None
                o = getattr(gen.OB, spec['objective'])(model, data)
                f = {'obj': o, 'objjac': getattr(o, 'eval_jacobian', None), 'objhess': getattr(o, 'eval_hessian', None)}[op['op']]
                return ops.enc(f([op['p'][p] for p in gen.free(spec)]))
            kw = {v: self.arrays[v] for v in spec['vars']}
            if any(isinstance(v, list) for v in kw.values()):
                kw = {v: np.asarray(x) for v, x in kw.items()}
            kw.update(op['p'])
            f = {'call': model, 'components': model.eval_components, 'jac': getattr(model, 'eval_jacobian', None),
                 'hess': getattr(model, 'eval_hessian', None), 'fd': getattr(model, 'finite_difference', None)}[op['op']]
            out = f(**kw)
            return [ops.enc(o) for o in (out if isinstance(out, list) else list(out))]


def snap(x, depth=0):
    """Deep, comparable picture of an object of the caller."""
    if isinstance(x, np.ndarray):
        base = x.base if x.base is not None else x
        return ('array', builtin_id(x), x.dtype.str, x.shape, x.strides, x.flags.writeable, x.tobytes(),
                base.tobytes() if isinstance(base, np.ndarray) else None)
    if isinstance(x, symfit.Parameter):
        return ('parameter', x.name, repr(x.value), repr(x.min), repr(x.max), x.fixed)
    if isinstance(x, symfit.Variable):
        return ('variable', x.name)
    if isinstance(x, sympy.Basic):
        return ('expression', builtin_id(x), sympy.srepr(x) if depth < 0 else str(x))
    if isinstance(x, dict):
        return ('dict', type(x).__name__, tuple((snap(k, depth + 1), builtin_id(v), snap(v, depth + 1))
                                                for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple((builtin_id(v), snap(v, depth + 1)) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(str(snap(v)) for v in x)))
    if isinstance(x, type):
        return ('class', x.__module__, x.__name__)
    if isinstance(x, gen.ExprFunc):
        return ('function', builtin_id(x), json.dumps(x.expr), tuple(sorted(x.__dict__)))
    if isinstance(x, Callback):
        return ('callback', tuple(sorted(x.__dict__.items())))
    if isinstance(x, symfit.core.models.BaseModel):
        return ('model', builtin_id(x), tuple((str(k), snap(v)) for k, v in x.model_dict.items()))
    return (type(x).__name__, repr(x))


builtin_id = __builtins__['id'] if isinstance(__builtins__, dict) else __builtins__.id


def picture(pool):
    return {k: snap(v) for k, v in pool.owned.items()}


def compare(a, b, pool, when):
    for k in a:
        if a[k] != b[k]:
            raise Violation('an object of the caller changed: ' + k.split(' ')[0], '%s %s: %s -> %s' % (
                k, when, first(a[k], b[k])[0], first(a[k], b[k])[1]))


def first(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first(x, y)
    return repr(a)[:300], repr(b)[:300]


# ------------------------------------------------------------------ execute
def execute(plan, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        session(plan, rec)


def session(plan, rec):
    spec, style = plan['job']['spec'], plan['style']
    wants = []
    for k in range(len(plan['steps'])):
        wants.append(ops.solo_or_none(lambda: Pool(plan, False).do(k)))
    if all(w is None for w in wants):
        raise Discard('nothing works')
    pool = Pool(plan, True)
    at_start = picture(pool)
    explicit = json.loads(json.dumps(plan))
    used, sig = 0, []
    for k, s in enumerate(plan['steps']):
        if wants[k] is None:
            continue
        f = s.get('fault')
        if f is not None:
            saved = dict(pool.fits)
            f = faults.resolve(f, lambda: pool.do(k))
            pool.fits = saved
            explicit['steps'][k]['fault'] = f
            if f is None:
                explicit['steps'][k].pop('fault')
        rec.explicit = explicit
        if f is not None:
            p, outcome, v = faults.attempt(f, lambda: pool.do(k))
            rec.steps += p.steps
            rec.ev(str(k), s['do'], faults.label(f), str(p.fired), outcome)
            if p.fired:
                rec.faults[faults.label(f)] += 1
                sig.append(p.fired)
            compare(at_start, picture(pool), pool, 'after step %d (%s, interrupted)' % (k, s['do']))
            used += 1
            continue
        n = [0]

        def hook(code, line):
            n[0] += 1
            if n[0] % plan['every'] == 0:
                rec.probes['snapshot during a step'] += 1
                compare(at_start, picture(pool), pool, 'during step %d (%s)' % (k, s['do']))
        boot.set_line_hook(hook)
        try:
            got = pool.do(k)
        except Exception as e:
            if isinstance(e, (Violation, engine.HarnessError)):
                raise
            raise Violation('fails with objects that were used before: ' + type(e).__name__,
                            'step %d (%s): %r' % (k, s['do'], e))
        finally:
            boot.set_line_hook(None)
        rec.steps += n[0]
        used += 1
        got = json.loads(json.dumps(got, default=engine._jsonable))
        rec.ev(str(k), s['do'], engine.dig(got))
        compare(at_start, picture(pool), pool, 'after step %d (%s)' % (k, s['do']))
        if isinstance(got, dict) and 'params' in got:
            if style['model'] == 'list':
                for d in (got, wants[k]):
                    d['gof'] = dict(sorted(d['gof'].items()))
            d = gen.same_result(got, wants[k], rtol=1e-9)
        else:
            d = ops.differ(got, wants[k]) if got is not None else ''
        if d:
            raise Violation('another result than with private copies', 'step %d (%s): %s' % (k, s['do'], d))
        note(rec, plan, s, got)
    if used > 1:
        rec.nontrivial(jobs.name(plan['job']), spec['comps'], spec['params'], style, plan['mins'], plan['opts'],
                       plan['steps'], sig)


def note(rec, plan, s, got):
    st, spec = plan['style'], plan['job']['spec']
    p = rec.probes
    if s['do'] in ('missing', 'badconstraint') and got[0] == 'rejected':
        rec.faults['construction rejected'] += 1
    if s['do'] == 'badoption' and got[0] == 'rejected':
        rec.faults['execution rejected'] += 1
    if s['do'] == 'again':
        p['executed again'] += 1
    if s['do'] == 'eval' and got is not None:
        p['objective evaluated' if s['op']['op'].startswith('obj') else 'model evaluated'] += 1
    if s['do'] != 'fit':
        return
    p[{'dict': 'model dictionary shared', 'object': 'model object shared',
       'list': 'unnamed list of components shared'}[st['model']]] += 1
    if plan['job']['constraints']:
        p['constraint model shared' if st['conmodel'] else 'constraint list shared'] += 1
    if spec['kind'] == 'ODE':
        p['initial conditions shared'] += 1
    if spec['numeric']:
        p['connectivity mapping shared'] += 1
    for k, v in (('readonly', 'read-only data'), ('strided', 'strided data'), ('list', 'data as list'), ('int', 'integer data')):
        if any(isinstance(spec['data'].get(q), dict) and w == k for q, w in st['data'].items()):
            p[v] += 1
    if st['roles']:
        p['one array in several roles'] += 1
    if st['ordered']:
        p['ordered data'] += 1
    if s.get('variant'):
        p['two models share the data'] += 1
    m = plan['mins'][s['min']]
    if not isinstance(m, str):
        p['minimiser list shared'] += 1
    for n in ([m] if isinstance(m, str) else m):
        o = plan['opts'][n]
        if o:
            p['option dictionary shared'] += 1
        if 'minimizer_kwargs' in o:
            p['minimizer_kwargs shared'] += 1
        if '#array' in json.dumps(o):
            p['array in options'] += 1
        if 'callback' in o:
            p['callback in options'] += 1
