"""
Random problems. A problem is plain JSON; `Built` turns it into symfit objects and
into the reference model of ref.py.
"""
import json
import boot
import numpy as np
import sympy
import symfit
from symfit import (Parameter, Variable, Model, CallableModel, CallableNumericalModel,
                    ODEModel, GradientModel, D, Eq, Ge, Le)
from symfit.core.models import BaseGradientModel
from symfit.core import minimizers as MZ
from symfit.core import objectives as OB
import ref

PNAMES = ['a', 'b', 'c', 'd', 'k', 'm', 'p1', 'p2', 'p10', 'alpha', 'B', 'Amp', 'q_0',
          'omega', 'tau', 'u', 'w0', 'zz', 'phi2', 'E0', 'h', 'n1', 'x0', 'y0', 'A', 'K']
VNAMES = ['x', 't', 'r', 's', 'X1', 'x2', 'v', 'pos', 'Q']
YNAMES = ['y', 'z', 'f', 'g', 'Y2', 'y1', 'out', 'w', 'aa', 'Z']

USER_HOOK = None       # callable(label) invoked inside every user-supplied component


class ExprFunc(object):
    """A user-supplied numerical component (picklable, independent of sympy)."""
    def __init__(self, expr, label):
        self.expr, self.label = expr, label

    def __call__(self, **kw):
        if USER_HOOK is not None:
            USER_HOOK(self.label)
        return ref.ev(self.expr, kw, np)

    def __eq__(self, other):
        return isinstance(other, ExprFunc) and self.expr == other.expr

    def __hash__(self):
        return hash(self.label)

    def __repr__(self):
        return 'ExprFunc(%s)' % ref.fmt(self.expr)


class NumGradModel(CallableNumericalModel, BaseGradientModel):
    """A user's numerical model that inherits symfit's finite differences."""


KINDS = {'Model': Model, 'GradientModel': GradientModel, 'CallableModel': CallableModel,
         'Numerical': CallableNumericalModel, 'NumGrad': NumGradModel}


# ------------------------------------------------------------------- expressions
def const(rng, lo=0.3, hi=2.0):
    return round(rng.uniform(lo, hi), 2)


def term(rng, ps, vs):
    """A smooth term of moderate size that depends on at least one parameter."""
    p = rng.choice(ps)
    q = rng.choice(ps)
    t = rng.randrange(9)
    if not vs:
        v = const(rng)
    else:
        v = rng.choice(vs)
    if t == 0:
        return ['*', p, v]
    if t == 1:
        return ['*', ['*', p, const(rng)], ['pow', v, 2]]
    if t == 2:
        return ['*', p, ['sin', ['*', q, v]]]
    if t == 3:
        return ['*', const(rng), ['cos', ['+', ['*', p, v], const(rng)]]]
    if t == 4:
        return ['*', p, ['exp', ['*', -0.3, ['*', q, ['cos', v]]]]]
    if t == 5:
        return ['tanh', ['+', ['*', p, v], q]]
    if t == 6:
        return ['*', ['*', p, q], const(rng)]
    if t == 7:
        return ['/', p, ['+', 2.5, ['pow', ['*', q, v], 2]]]
    return ['sqrt', ['+', const(rng), ['pow', ['+', p, ['*', const(rng), v]], 2]]]


def expression(rng, ps, vs, nterms):
    e = term(rng, ps, vs)
    for _ in range(nterms - 1):
        e = ['+', e, term(rng, ps, vs)]
    return e


def use_all(rng, e, ps, vs):
    """Make sure every name of ps occurs in e."""
    for p in ps:
        if p not in ref.names(e):
            e = ['+', e, ['*', p, rng.choice(vs) if vs else const(rng)]]
    return e


def par_settings(rng, n, fixed_ok=True, bounds_ok=True):
    out = []
    for _ in range(n):
        v = const(rng, 0.4, 1.8)
        d = dict(value=v, min=None, max=None, fixed=False)
        if bounds_ok and rng.random() < 0.35:
            if rng.random() < 0.75:
                d['min'] = round(v - rng.uniform(0.1, 2.0), 2)
            if rng.random() < 0.75:
                d['max'] = round(v + rng.uniform(0.1, 2.0), 2)
        if fixed_ok and rng.random() < 0.25:
            d['fixed'] = True
        out.append(d)
    if all(d['fixed'] for d in out):
        out[rng.randrange(n)]['fixed'] = False
    return out


def random_spec(rng, kinds=None, objective=None, max_params=5, fixed_ok=True,
                bounds_ok=True, data=True, avoid=()):
    """A random model (not necessarily easy to fit) with data."""
    kind = rng.choice(kinds or ['Model', 'Model', 'Model', 'GradientModel', 'CallableModel',
                                'Numerical', 'NumGrad'])
    obj = objective or rng.choice(['LeastSquares', 'LeastSquares', 'VectorLeastSquares',
                                   'LogLikelihood', 'MinimizeModel'])
    np_ = rng.randrange(1, max_params + 1)
    ps = rng.sample([p for p in PNAMES if p not in avoid], np_)
    taken = set(ps) | set(avoid)
    scalar = obj == 'MinimizeModel'
    nv = 0 if scalar else rng.choice([1, 1, 1, 2])
    vs = rng.sample([v for v in VNAMES if v not in taken], nv)
    taken |= set(vs)
    ntop = 1 if scalar else rng.choice([1, 1, 2, 3])
    levels = rng.choice([0, 0, 0, 1, 1, 2])
    ys = rng.sample([y for y in YNAMES if y not in taken], ntop + levels)
    top, mids = ys[:ntop], ys[ntop:]
    comps = {}
    prev = None
    for m in mids:                              # chain of interdependent components
        e = expression(rng, ps, vs, rng.randrange(1, 3))
        if prev is not None:
            e = ['+', e, ['*', rng.choice(ps), ['sin', prev]]]
        comps[m] = e
        prev = m
    # each top component has its own subset of the independent variables
    same_shape = obj == 'VectorLeastSquares' or levels > 0 or ntop < nv or rng.random() < 0.6
    for i, y in enumerate(top):
        use = vs if same_shape or nv < 2 else [vs[i % nv]]
        e = expression(rng, ps, use, rng.randrange(1, 4))
        if prev is not None:
            e = ['+', e, rng.choice([['*', rng.choice(ps), prev],
                                     ['*', prev, ['cos', prev]],
                                     ['*', ['*', rng.choice(ps), const(rng)], ['pow', prev, 2]]])]
        comps[y] = e
    last = top[-1]
    use = vs if same_shape or nv < 2 else [vs[(ntop - 1) % nv]]
    allnames = set().union(*[ref.names(e) for e in comps.values()])
    comps[last] = use_all(rng, comps[last], [p for p in ps if p not in allnames], use)
    # every independent variable has to occur in the model
    unused = [v for v in vs if v not in set().union(*[ref.names(e) for e in comps.values()])]
    for v in unused:
        if same_shape:
            comps[last] = ['+', comps[last], ['*', rng.choice(ps), v]]
        else:
            y = top[vs.index(v) % ntop]
            comps[y] = ['+', comps[y], ['*', rng.choice(ps), v]]
    if obj == 'LogLikelihood':
        for y in list(comps):
            if y in top:
                comps[y] = ['exp', ['*', -0.25, comps[y]]]
    spec = dict(kind=kind, objective=obj, comps=comps, top=top, vars=vs,
                params=dict(zip(ps, par_settings(rng, np_, fixed_ok, bounds_ok))),
                numeric=[], order=rng.sample(list(comps), len(comps)), objinst=rng.random() < 0.08)
    if kind in ('Numerical', 'NumGrad'):
        spec['numeric'] = [c for c in comps if rng.random() < 0.7] or [top[0]]
    if data:
        add_data(rng, spec, same_shape)
    return spec


def add_data(rng, spec, same_shape=True):
    vs, top, obj = spec['vars'], spec['top'], spec['objective']
    data = {}

    def arr(shape, lo=-1.5, hi=1.5):
        n = int(np.prod(shape))
        return dict(shape=list(shape), vals=[round(rng.uniform(lo, hi), 3) for _ in range(n)])
    r = rng.random()
    if r < 0.7:
        shape = (rng.randrange(2, 7),)
    elif r < 0.9:
        shape = (rng.randrange(2, 4), rng.randrange(2, 4))
    else:
        shape = (1,)
    shapes = {}
    if same_shape or len(vs) < 2:
        for v in vs:
            data[v] = arr(shape)
        for y in top:
            shapes[y] = shape
    else:
        vshape = {v: (rng.randrange(2, 7),) for v in vs}
        for v in vs:
            data[v] = arr(vshape[v])
        for i, y in enumerate(top):
            shapes[y] = vshape[vs[i % len(vs)]]
    if obj in ('LeastSquares', 'VectorLeastSquares'):
        nones = [y for y in top if len(top) > 1 and rng.random() < 0.2]
        if len(nones) == len(top):
            nones = nones[1:]
        for y in top:
            if y in nones:
                data[y] = None
                data['sigma_' + y] = None
                continue
            data[y] = arr(shapes[y], -3, 3)
            r = rng.random()
            if r < 0.35:
                data['sigma_' + y] = None
            elif r < 0.55:
                data['sigma_' + y] = const(rng, 0.2, 2.5)
            else:
                data['sigma_' + y] = arr(shapes[y], 0.2, 2.5)
    spec['data'] = data


def cousin(rng, data):
    """Other data that look the same at a glance: same shapes, ends, ranges or sums."""
    out = json.loads(json.dumps(data))
    ks = sorted(k for k, d in out.items() if isinstance(d, dict) and len(d['vals']) > 1)
    for k in rng.sample(ks, min(len(ks), rng.choice([1, 1, 2]))):
        v = out[k]['vals']
        r = rng.random()
        i, j = rng.sample(range(len(v)), 2)
        if r < 0.4:                                  # same sum, same extremes
            v[i], v[j] = v[j], v[i]
        elif r < 0.7 and len(v) > 2:                 # same ends and, mostly, range
            i = rng.randrange(1, len(v) - 1)
            v[i] = round(v[i] + 0.4 * (v[i - 1] - v[i]), 6)
        elif r < 0.85:                               # the last one only
            v[-1] = round(v[-1] + 0.05, 6)
        else:                                        # same sum
            v[i], v[j] = round(v[i] + 0.03, 6), round(v[j] - 0.03, 6)
    for k in ks:                                     # standard deviations stay positive
        if k.startswith('sigma_'):
            out[k]['vals'] = [max(x, 0.02) for x in out[k]['vals']]
    return out


def np_data(spec):
    out = {}
    for k, v in spec.get('data', {}).items():
        if isinstance(v, dict):
            out[k] = np.array(v['vals'], dtype=float).reshape(v['shape'])
        else:
            out[k] = v
    return out


def ref_data(spec):
    """Data as the objective sees it: sigma defaults to 1."""
    d = np_data(spec)
    for y in spec['top']:
        if d.get(y) is not None and d.get('sigma_' + y) is None:
            d['sigma_' + y] = 1.0
    return d


# ------------------------------------------------------------------ symfit side
def make_symbols(spec, order=None):
    sym = {}
    for p in (order or list(spec['params'])):
        if p in spec['params']:
            s = spec['params'][p]
            sym[p] = Parameter(p, value=s['value'], min=s['min'], max=s['max'], fixed=s['fixed'])
    for v in list(spec['vars']) + list(spec['comps']) + list(spec.get('condata', [])):
        sym[v] = Variable(v)
    return sym


def make_model(spec, sym=None, order=None):
    sym = sym or make_symbols(spec)
    md = {}
    if spec['kind'] == 'ODE':
        t = sym[spec['vars'][0]]
        for y in (order or spec['order']):
            md[D(sym[y], t)] = ref.ev(spec['comps'][y], sym, sympy) + sympy.S.Zero
        init = {t: spec['t0']}
        for y, v in spec['initial'].items():
            init[sym[y]] = sym[v] if isinstance(v, str) else v
        return ODEModel(md, initial=init, **spec.get('integrator', {}))
    cm = {}
    for y in (order or spec['order']):
        if y in spec['numeric']:
            md[sym[y]] = ExprFunc(spec['comps'][y], y)
            cm[sym[y]] = {sym[n] for n in ref.names(spec['comps'][y])}
        else:
            md[sym[y]] = ref.ev(spec['comps'][y], sym, sympy) + sympy.S.Zero
    cls = KINDS[spec['kind']]
    if spec['kind'] in ('Numerical', 'NumGrad'):
        return cls(md, connectivity_mapping=cm)
    return cls(md)


def make_constraint(con, sym):
    rel, lhs, rhs = con
    return {'Eq': Eq, 'Ge': Ge, 'Le': Le}[rel](
        ref.ev(lhs, sym, sympy) + sympy.S.Zero, ref.ev(rhs, sym, sympy) + sympy.S.Zero)


def make_fit(spec, model=None, sym=None, data=None, minimizer=None, constraints=None, **kw):
    model = model if model is not None else make_model(spec, sym)
    if spec.get('objinst') and data is None and spec['kind'] != 'ODE':
        # the user made the objective
        kw.setdefault('objective', make_objective(spec, model, 'VectorLeastSquares' if minimizer is MZ.MINPACK else None))
    data = data if data is not None else np_data(spec)
    if spec['objective'] in ('LogLikelihood',):
        kw.setdefault('objective', OB.LogLikelihood)
    elif spec['objective'] == 'VectorLeastSquares':
        kw.setdefault('objective', OB.VectorLeastSquares)
    elif spec['objective'] == 'MinimizeModel' and len(spec['comps']) > 1:
        kw.setdefault('objective', OB.MinimizeModel)
    if minimizer is not None:
        kw['minimizer'] = minimizer
    if constraints:
        kw['constraints'] = constraints
        data = {**data, **{k: v for k, v in spec.get('condata', {}).items() if k not in data}}
    if spec.get('absolute_sigma') is not None:
        kw['absolute_sigma'] = spec['absolute_sigma']
    return symfit.Fit(model, **data, **kw)


def make_objective(spec, model, kind=None):
    """An objective outside of any Fit, with data keyed by symbol."""
    kind = kind or spec['objective']
    d = ref_data(spec)
    data = {}
    for v in model.independent_vars:
        data[v] = d[v.name]
    for v in model.dependent_vars:
        if kind in ('LeastSquares', 'VectorLeastSquares'):
            y = d.get(v.name)
            data[v] = y
            s = d.get('sigma_' + v.name)
            data[model.sigmas[v]] = None if y is None else np.broadcast_to(
                np.asarray(s, dtype=float), y.shape).copy()
        else:
            data[v] = None
            data[model.sigmas[v]] = None
    return getattr(OB, kind)(model, data)


def ref_model(spec):
    return ref.RefModel(spec['comps'], list(spec['params']))


def free(spec):
    return [p for p in sorted(spec['params']) if not spec['params'][p]['fixed']]


def point(rng, spec):
    """Random values for all parameters (within bounds is not required)."""
    return {p: round(rng.uniform(0.3, 2.0), 4) for p in spec['params']}


def mins(names):
    if isinstance(names, str):
        return getattr(MZ, names)
    return [getattr(MZ, n) for n in names]


# ---------------------------------------------------- well conditioned fit problems
def _line(rng):
    return dict(kind='Model', comps={'y': ['+', ['*', 'a', 'x'], 'b']}, top=['y'], vars=['x'],
                truth=dict(a=rng.uniform(.5, 3), b=rng.uniform(-2, 2)), guess=dict(a=1.0, b=0.5),
                x=(0.0, 4.0), n=rng.randrange(6, 12))


def _decay(rng):
    return dict(kind='Model', comps={'y': ['*', 'a', ['exp', ['neg', ['*', 'b', 'x']]]]},
                top=['y'], vars=['x'], truth=dict(a=rng.uniform(1, 4), b=rng.uniform(.4, 1.5)),
                guess=dict(a=2.0, b=0.8), x=(0.1, 3.0), n=rng.randrange(7, 12), pos=True)


def _gauss(rng):
    return dict(kind='Model', comps={'y': ['*', 'a', ['exp', ['neg', ['pow', ['/', ['-', 'x', 'b'], 'c'], 2]]]]},
                top=['y'], vars=['x'],
                truth=dict(a=rng.uniform(1, 3), b=rng.uniform(-.3, .3), c=rng.uniform(.8, 1.3)),
                guess=dict(a=1.5, b=0.1, c=1.0), x=(-2.0, 2.0), n=rng.randrange(9, 15), pos=['a', 'c'])


def _two(rng):
    return dict(kind='Model', comps={'y': ['+', ['*', 'a', 'x'], 'b'], 'z': ['+', ['*', 'a', ['pow', 'x', 2]], 'c']},
                top=['y', 'z'], vars=['x'],
                truth=dict(a=rng.uniform(.5, 2), b=rng.uniform(-1, 1), c=rng.uniform(-1, 1)),
                guess=dict(a=1.0, b=0.2, c=0.3), x=(0.0, 2.5), n=rng.randrange(6, 10))


def _inter(rng):
    return dict(kind='Model', comps={'y': ['+', ['*', 'a', 'x'], 0.3], 'z': ['+', ['*', 'b', ['pow', 'y', 2]], 'c']},
                top=['z'], vars=['x'],
                truth=dict(a=rng.uniform(.7, 1.5), b=rng.uniform(.5, 1.5), c=rng.uniform(-1, 1)),
                guess=dict(a=1.0, b=1.0, c=0.3), x=(0.0, 2.0), n=rng.randrange(8, 12), pos=True)


def _num(rng):
    d = _line(rng)
    d['kind'] = rng.choice(['Numerical', 'NumGrad'])
    d['numeric'] = ['y']
    return d


def _logl(rng):
    return dict(kind='Model', comps={'p': ['*', ['/', 1.0, 'b'], ['exp', ['neg', ['/', 'x', 'b']]]]},
                top=['p'], vars=['x'], objective='LogLikelihood', truth=dict(b=2.0), guess=dict(b=1.4),
                x=(0.1, 6.0), n=rng.randrange(6, 14), pos=True)


def _mini(rng):
    c1, c2 = const(rng), const(rng)
    return dict(kind='Model', comps={'f': ['+', ['+', ['pow', ['-', 'a', c1], 2], ['*', 1.7, ['pow', ['+', 'b', c2], 2]]],
                                           ['*', 0.3, ['*', 'a', 'b']]]},
                top=['f'], vars=[], objective='MinimizeModel', truth={}, guess=dict(a=0.6, b=0.7))


def _ode(rng):
    d = _ode_const(rng)
    if rng.random() < 0.5:                       # the initial value is fitted as well
        d['initial'] = {'y': 'y0', 'z': 0.5}
        d['truth']['y0'] = rng.uniform(1.7, 2.3)
        d['guess']['y0'] = 1.9
        if rng.random() < 0.5:
            d['initial']['z'] = 'z0'
            d['truth']['z0'] = rng.uniform(.4, .6)
            d['guess']['z0'] = 0.5
    return d


def _ode_const(rng):
    return dict(kind='ODE', comps={'y': ['neg', ['*', 'k', 'y']], 'z': ['-', ['*', 'k', 'y'], ['*', 0.4, 'z']]},
                top=['y', 'z'], vars=['t'], truth=dict(k=rng.uniform(.5, 1.5)), guess=dict(k=0.9),
                x=(0.2, 2.0), n=5, t0=0.0, initial={'y': 2.0, 'z': 0.5}, pos=True,
                integrator=dict(method='RK45', rtol=1e-8, atol=1e-8))


TEMPLATES = dict(line=_line, decay=_decay, gauss=_gauss, two=_two, inter=_inter, num=_num,
                 logl=_logl, mini=_mini, ode=_ode)

ALL_MINS = ['BFGS', 'SLSQP', 'COBYLA', 'LBFGSB', 'NelderMead', 'Powell', 'TrustConstr', 'MINPACK',
            'DifferentialEvolution', 'BasinHopping']
BOUND_MINS = ['SLSQP', 'LBFGSB', 'TrustConstr', 'MINPACK', 'DifferentialEvolution', 'BasinHopping']
CONS_MINS = ['SLSQP', 'COBYLA', 'TrustConstr']

CHEAP_OPTIONS = {
    'DifferentialEvolution': dict(popsize=4, maxiter=6, tol=0.1),
    'BasinHopping': dict(niter=2),
    'TrustConstr': dict(options=dict(maxiter=25)),
    'NelderMead': dict(options=dict(maxiter=120)),
    'Powell': dict(options=dict(maxiter=6)),
    'COBYLA': dict(options=dict(maxiter=120)),
}


def fit_spec(rng, template=None, rename=True, fixed_ok=True, bounds=None, noise=0.02):
    """A problem a real optimiser solves in a few steps."""
    name = template or rng.choice(list(TEMPLATES))
    t = TEMPLATES[name](rng)
    pars = {}
    for p in t['guess']:
        d = dict(value=t['guess'][p], min=None, max=None, fixed=False)
        pos = t.get('pos', False)
        if pos is True or (pos and p in pos):
            d['min'] = 0.05
        pars[p] = d
    want_bounds = rng.random() < 0.5 if bounds is None else bounds
    if want_bounds:
        for p, d in pars.items():
            if d['min'] is None:
                d['min'] = -6.0
            d['max'] = 8.0
    if fixed_ok and len(pars) > 1 and rng.random() < 0.3:
        p = rng.choice(sorted(pars))
        pars[p]['fixed'] = True
        if p in t['truth']:
            pars[p]['value'] = round(t['truth'][p], 3)
    spec = dict(kind=t['kind'], objective=t.get('objective', 'LeastSquares'), comps=t['comps'],
                top=t['top'], vars=t['vars'], params=pars, numeric=t.get('numeric', []),
                order=list(t['comps']), template=name)
    for k in ('t0', 'initial', 'integrator'):
        if k in t:
            spec[k] = t[k]
    data = {}
    if t['vars']:
        v = t['vars'][0]
        xs = np.linspace(t['x'][0], t['x'][1], t['n'])
        data[v] = dict(shape=[t['n']], vals=[round(float(i), 6) for i in xs])
        if spec['objective'] != 'LogLikelihood':
            if t['kind'] == 'ODE':
                k = t['truth']['k']
                y0 = t['truth'].get('y0', 2.0)
                y = y0 * np.exp(-k * xs)
                a0 = k * y0 / (0.4 - k) if abs(k - 0.4) > 1e-6 else 0.0
                z = a0 * (np.exp(-k * xs) - np.exp(-0.4 * xs)) + t['truth'].get('z0', 0.5) * np.exp(-0.4 * xs)
                vals = {'y': y, 'z': z}
            else:
                rm = ref.RefModel(t['comps'], list(t['truth']))
                vals = rm.values(t['truth'], {v: xs})
            for y in t['top']:
                data[y] = dict(shape=[t['n']], vals=[
                    round(float(i) + noise * rng.gauss(0, 1), 6) for i in vals[y]])
                r = rng.random()
                data['sigma_' + y] = (None if r < 0.5 else const(rng, .05, .5) if r < 0.7 else
                                      dict(shape=[t['n']], vals=[const(rng, .05, .5) for _ in xs]))
        elif True:
            data[v]['vals'] = [round(0.1 + rng.expovariate(0.5), 4) for _ in xs]
    spec['data'] = data
    if rename:
        spec = rename_spec(rng, spec)
    return spec


def rename_spec(rng, spec, mapping=None):
    if mapping is None:
        names = list(spec['params'])
        new = rng.sample(PNAMES, len(names))
        mapping = dict(zip(names, new))
        taken = set(new)
        vs = rng.sample([v for v in VNAMES if v not in taken], len(spec['vars']))
        taken |= set(vs)
        mapping.update(zip(spec['vars'], vs))
        ys = rng.sample([y for y in YNAMES if y not in taken], len(spec['comps']))
        mapping.update(zip(spec['comps'], ys))

    def ren(e):
        if isinstance(e, str):
            return mapping.get(e, e)
        if isinstance(e, list):
            return [e[0]] + [ren(s) for s in e[1:]]
        return e
    out = dict(spec)
    out['comps'] = {mapping[c]: ren(e) for c, e in spec['comps'].items()}
    out['top'] = [mapping[c] for c in spec['top']]
    out['vars'] = [mapping[c] for c in spec['vars']]
    out['order'] = [mapping[c] for c in spec['order']]
    out['numeric'] = [mapping[c] for c in spec['numeric']]
    out['params'] = {mapping[p]: d for p, d in spec['params'].items()}
    data = {}
    for k, v in spec['data'].items():
        if k.startswith('sigma_'):
            data['sigma_' + mapping[k[6:]]] = v
        else:
            data[mapping[k]] = v
    out['data'] = data
    if 'initial' in spec:
        out['initial'] = {mapping[k]: mapping.get(v, v) if isinstance(v, str) else v
                          for k, v in spec['initial'].items()}
    if 'condata' in spec:
        out['condata'] = {mapping.get(k, k): v for k, v in spec['condata'].items()}
    if 'constraints' in spec:
        out['constraints'] = [[r, ren(l), ren(h)] for r, l, h in spec['constraints']]
    return out


def pick_minimizer(rng, spec, chain_ok=True, stochastic=True):
    """A minimiser (or chain) that can handle the problem, as names."""
    bounded = all(d['min'] is not None and d['max'] is not None for d in spec['params'].values())
    opts = ['BFGS', 'SLSQP', 'LBFGSB', 'NelderMead', 'Powell', 'COBYLA', 'TrustConstr']
    need_bounds = any(d['min'] is not None for d in spec['params'].values())
    if need_bounds:
        opts = ['SLSQP', 'LBFGSB', 'TrustConstr', 'NelderMead']
    if spec['objective'] == 'LeastSquares':
        opts.append('MINPACK')
    if stochastic:
        if bounded:
            opts.append('DifferentialEvolution')
        opts.append('BasinHopping')
    if spec['kind'] in ('Numerical',) and 'TrustConstr' in opts:
        pass
    if spec['kind'] == 'ODE':
        opts = [o for o in opts if o in ('LBFGSB', 'NelderMead', 'SLSQP')]
    if chain_ok and rng.random() < 0.2 and spec['kind'] != 'ODE':
        pool = [o for o in opts if o != 'MINPACK' and o != 'BasinHopping']
        return [rng.choice(pool) for _ in range(2)]
    return rng.choice(opts)


def min_options(rng, minimizer, seed=None):
    """Options for execute(), cheap and deterministic."""
    def one(n):
        o = json.loads(json.dumps(CHEAP_OPTIONS.get(n, {})))
        if n in ('DifferentialEvolution', 'BasinHopping'):
            o['seed'] = seed if seed is not None else rng.randrange(1000)
        return o
    if isinstance(minimizer, str):
        return one(minimizer)
    from collections import Counter
    count, seen, out = Counter(minimizer), Counter(), {}
    for n in minimizer:
        seen[n] += 1
        out[n if seen[n] == 1 else '%s_%d' % (n, seen[n])] = one(n)
    return out


def observe(res, params):
    """What a user can read from a fit result, as plain data."""
    out = dict(params={k: float(np.real(v)) for k, v in res.params.items()})
    out['value'] = [float(np.real(res.value(p))) for p in params]
    cm = res.covariance_matrix
    out['cov'] = None if cm is None else np.asarray(cm, dtype=float).tolist()
    out['stdev'] = [None if res.stdev(p) is None else float(res.stdev(p)) for p in params]
    out['gof'] = {k: np.asarray(v, dtype=float).tolist() for k, v in sorted(res.gof_qualifiers.items())}
    out['message'] = str(res.status_message)
    it = res.iterations
    out['nit'] = None if it is None else int(it)
    return out


def same_result(a, b, rtol=1e-6):
    """Compare two observations; returns '' or the name of what differs."""
    if list(a['params']) != list(b['params']):
        return 'parameter names'
    for k in ('params', 'gof'):
        if set(a[k]) != set(b[k]):
            return k
        for n in a[k]:
            if not ref.close(_n(a[k][n]), _n(b[k][n]), rtol=rtol, atol=rtol):
                return '%s %s: %r != %r' % (k, n, a[k][n], b[k][n])
    if not ref.close(a['value'], b['value'], rtol=rtol, atol=rtol):
        return 'value()'
    for k in ('cov', 'stdev'):
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return '%s: %r != %r' % (k, x, y)
        if x is not None and not ref.close(_n(x), _n(y), rtol=1e-4, atol=1e-6):
            return '%s: %r != %r' % (k, x, y)
    if a['message'] != b['message']:
        return 'message: %r != %r' % (a['message'], b['message'])
    if a['nit'] != b['nit']:
        return 'iterations: %r != %r' % (a['nit'], b['nit'])
    return ''


def _n(x):
    """None -> nan, for comparison."""
    a = np.array(x, dtype=object)
    a = np.where(a == None, np.nan, a)      # noqa: E711
    try:
        return a.astype(float)
    except (TypeError, ValueError):
        return a
