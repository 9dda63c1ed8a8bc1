"""
The simulated optimiser: takes the place of scipy's optimisers, receives exactly what
symfit hands over, asks what the plan says, and answers as an optimiser may.
"""
import json
import math
import numpy as np
import scipy.optimize
from scipy.optimize import OptimizeResult, NonlinearConstraint, LinearConstraint, Bounds
import boot
import engine
import gen
import ref
from engine import Violation

METHODS = {'BFGS': 'bfgs', 'SLSQP': 'slsqp', 'COBYLA': 'cobyla', 'LBFGSB': 'l-bfgs-b',
           'NelderMead': 'nelder-mead', 'Powell': 'powell', 'TrustConstr': 'trust-constr'}


class Call(object):
    """Normalised arguments of one call of a scipy optimiser."""
    def __init__(self, key, args, kwargs):
        self.key = key
        sig = {'minimize': ['fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints',
                            'tol', 'callback', 'options'],
               'least_squares': ['fun', 'x0', 'jac', 'bounds', 'method'],
               'differential_evolution': ['func', 'bounds', 'args'],
               'basinhopping': ['func', 'x0', 'niter']}[key]
        kw = dict(zip(sig, args))
        kw.update(kwargs)
        self.kw = kw
        self.fun = kw.get('fun', kw.get('func'))
        self.x0 = kw.get('x0')
        self.hess = None
        mk = kw.get('minimizer_kwargs') or {} if key == 'basinhopping' else kw
        self.jac = mk.get('jac') if key != 'differential_evolution' else None
        self.hess = mk.get('hess') if key != 'differential_evolution' else None
        self.cons = mk.get('constraints')
        self.bounds = mk.get('bounds')
        self.method = mk.get('method')
        self.mk = mk
        if self.cons is None:
            self.cons = []
        elif isinstance(self.cons, (dict, NonlinearConstraint, LinearConstraint)):
            self.cons = [self.cons]
        else:
            self.cons = list(self.cons)

    def minimizer_name(self):
        if self.key == 'minimize':
            m = str(self.method).lower()
            for k, v in METHODS.items():
                if v == m:
                    return k
            return m
        return {'least_squares': 'MINPACK', 'differential_evolution': 'DifferentialEvolution',
                'basinhopping': 'BasinHopping'}[self.key]

    def bound_list(self, n):
        """[(lo, hi)] with +-inf for open ends, or None when no bounds were given."""
        b = self.bounds
        if b is None:
            return None
        if isinstance(b, Bounds):
            lo = np.broadcast_to(np.asarray(b.lb, dtype=float), (n,))
            hi = np.broadcast_to(np.asarray(b.ub, dtype=float), (n,))
            return [(float(x), float(y)) for x, y in zip(lo, hi)]
        if self.key == 'least_squares':
            lo, hi = b
            lo = np.broadcast_to(np.asarray(lo, dtype=float), (n,))
            hi = np.broadcast_to(np.asarray(hi, dtype=float), (n,))
            return [(float(x), float(y)) for x, y in zip(lo, hi)]
        return [(-math.inf if lo is None else float(lo), math.inf if hi is None else float(hi)) for lo, hi in b]

    def constraint(self, k):
        """(kind, fun, jac or None, hess or None) of the k-th constraint handed over."""
        c = self.cons[k]
        if isinstance(c, dict):
            return c['type'], c['fun'], c.get('jac'), None
        if isinstance(c, NonlinearConstraint):
            lo, hi = np.atleast_1d(c.lb)[0], np.atleast_1d(c.ub)[0]
            if lo == 0 and hi == 0:
                kind = 'eq'
            elif lo == 0 and hi == np.inf:
                kind = 'ineq'
            else:
                kind = 'lb=%r ub=%r' % (lo, hi)
            hess = c.hess if callable(c.hess) else None
            return kind, c.fun, c.jac if callable(c.jac) else None, hess
        raise engine.HarnessError('constraint of type %r' % type(c))


class Oracle(object):
    """What symfit has to answer, from the reference model."""
    def __init__(self, spec, objective, constraints=()):
        self.spec = spec
        self.kind = objective
        self.model = gen.ref_model(spec)
        self.data = dict(gen.ref_data(spec), **(spec.get('condata', {}) if constraints else {}))
        self.free = gen.free(spec)
        self.idx = [self.model.params.index(p) for p in self.free]
        self.fixed = {p: d['value'] for p, d in spec['params'].items() if d['fixed']}
        self.cons = []
        for rel, lhs, rhs in constraints:
            e = ['-', rhs, lhs] if rel == 'Le' else ['-', lhs, rhs]
            comps = dict(spec['comps'])
            comps['_con'] = e
            self.cons.append(('eq' if rel == 'Eq' else 'ineq', ref.RefModel(comps, list(spec['params']))))
        self.fd = spec['kind'] == 'NumGrad'
        self.exact_h = spec['kind'] == 'Model'

    def pvals(self, x):
        d = dict(self.fixed)
        d.update(zip(self.free, np.asarray(x).tolist()))
        return d

    def obj(self, x):
        v, g, h = ref.objective(self.kind, self.model, self.spec['top'], self.pvals(x), self.data)
        if self.kind == 'VectorLeastSquares':
            return v, g[:, self.idx], None
        n = len(self.model.params)
        g = np.asarray(g).reshape(n, -1)[:, 0] if np.size(g) == n else np.squeeze(np.asarray(g))
        h = np.asarray(h).reshape(n, n)
        return float(np.asarray(v).reshape(-1)[0]), g[self.idx], h[np.ix_(self.idx, self.idx)]

    def con(self, k, x):
        kind, m = self.cons[k]
        d = m.d2('_con', self.pvals(x), self.data)
        n = len(m.params)
        return kind, float(d.v.reshape(-1)[0]), d.g.reshape(n)[self.idx], d.h.reshape(n, n)[np.ix_(self.idx, self.idx)]


class Requests(object):
    """Issues requests and compares every answer with the oracle."""
    def __init__(self, call, oracle, rec, dig=engine.dig):
        self.c, self.o, self.rec = call, oracle, rec
        self.sign = {}
        self.n = 0

    def fail(self, what, x, got, want):
        raise Violation('wrong answer: ' + what, '%s at %s: got %s, expected %s (request %d)' % (
            what, np.asarray(x).tolist(), np.array2string(np.asarray(got), threshold=20),
            np.array2string(np.asarray(want), threshold=20), self.n))

    def tol(self, deriv=0, con=False):
        if self.o.fd and deriv and not con:
            return dict(rtol=2e-3, atol=2e-3)
        if self.o.fd and deriv:
            return dict(rtol=2e-3, atol=2e-3)
        return dict(rtol=1e-6, atol=1e-8)

    def check_f(self, x, got):
        want = self.o.obj(x)[0]
        if self.o.kind == 'VectorLeastSquares':
            if not ref.close(got, want, **self.tol()):
                self.fail('residuals', x, got, want)
        elif np.size(got) != 1 or not ref.close(np.squeeze(got), want, **self.tol()):
            self.fail('objective', x, got, want)

    def check_g(self, x, got):
        v, want = self.o.obj(x)[:2]
        if self.o.kind == 'VectorLeastSquares' and np.shape(got) == np.shape(want):
            want = np.where((v == 0)[:, None], got, want)      # |r| has no gradient where r = 0
        if not ref.close(got, want, **self.tol(1)):
            self.fail('gradient', x, got, want)

    def check_h(self, x, got):
        want = self.o.obj(x)[2]
        if not ref.close(got, want, **self.tol(2)):
            self.fail('Hessian', x, got, want)

    def check_c(self, k, x, got, what):
        kind, v, g, h = self.o.con(k, x)
        if what == 'value':
            want = v
            if np.size(got) != 1:
                self.fail('constraint %s' % what, x, got, want)
            got = np.squeeze(got)
            if kind == 'eq' and k not in self.sign and abs(v) > 1e-9:
                self.sign[k] = -1.0 if ref.close(got, -v, **self.tol()) else 1.0
        elif what == 'gradient':
            want = g
        else:
            want = h
        want = want * self.sign.get(k, 1.0) if kind == 'eq' else want
        if what != 'value' and np.shape(got) != np.shape(want):
            got = np.squeeze(got)
            want = np.squeeze(want)
        deriv = dict(value=0, gradient=1, Hessian=2)[what]
        if not ref.close(got, want, **self.tol(deriv, True)):
            self.fail('constraint %s' % what, x, got, want)


def check_handover(call, oracle, minimizer, guess=None):
    """x0, bounds and constraints are those of the free parameters in order."""
    spec, free = oracle.spec, oracle.free
    n = len(free)
    if call.key != 'differential_evolution':
        want = [spec['params'][p]['value'] for p in free] if guess is None else guess
        if not ref.close(np.asarray(call.x0, dtype=float), np.asarray(want, dtype=float), rtol=1e-12, atol=1e-14):
            raise Violation('wrong start point', '%s, expected %s for %s' % (list(call.x0), want, free))
    if minimizer in gen.BOUND_MINS and minimizer != 'BasinHopping':
        want = [(-math.inf if spec['params'][p]['min'] is None else spec['params'][p]['min'],
                 math.inf if spec['params'][p]['max'] is None else spec['params'][p]['max']) for p in free]
        got = call.bound_list(n)
        if got is None:
            if any(b != (-math.inf, math.inf) for b in want):
                raise Violation('bounds were not handed over', str(want))
        elif list(got) != want:
            raise Violation('wrong bounds', '%s, expected %s for %s' % (got, want, free))
    if minimizer in gen.CONS_MINS:
        if len(call.cons) != len(oracle.cons):
            raise Violation('wrong number of constraints', '%d, expected %d' % (len(call.cons), len(oracle.cons)))
        for k in range(len(call.cons)):
            kind = call.constraint(k)[0]
            if kind != oracle.cons[k][0]:
                raise Violation('wrong type of constraint', '%s, expected %s' % (kind, oracle.cons[k][0]))


def result(call, x, fun, rng=None, **over):
    """An OptimizeResult of the shape the optimiser returns."""
    x = np.array(x, dtype=float)
    out = dict(x=x, fun=fun, success=True, status=0, message='simulated: done', nfev=7)
    if call.key == 'minimize':
        m = call.minimizer_name()
        if m == 'COBYLA':
            out['maxcv'] = 0.0
        elif m == 'TrustConstr':
            out.update(niter=4, nit=4, njev=3, nhev=3, cg_niter=2, grad=np.zeros(len(x)), constr=[], jac=[],
                       tr_radius=1.0, optimality=0.0, constr_violation=0.0)
            out.pop('nit')
        else:
            out['nit'] = 4
            if m in ('BFGS', 'SLSQP', 'LBFGSB'):
                out['jac'] = np.zeros(len(x))
                out['njev'] = 3
            if m == 'BFGS':
                out['hess_inv'] = np.eye(len(x))
    elif call.key == 'least_squares':
        f = np.atleast_1d(fun)
        out.update(fun=f, cost=0.5 * float(np.sum(f ** 2)), jac=np.zeros((len(f), len(x))), grad=np.zeros(len(x)),
                   optimality=0.0, active_mask=np.zeros(len(x), dtype=int), njev=3)
    elif call.key == 'differential_evolution':
        out['nit'] = 4
    elif call.key == 'basinhopping':
        out.update(nit=4, minimization_failures=0, message=['simulated: done'],
                   lowest_optimization_result=OptimizeResult(x=x.copy(), fun=fun))
    for k, v in over.items():
        if v is DROP:
            out.pop(k, None)
        else:
            out[k] = v
    return OptimizeResult(**out)


DROP = object()


def install(handler):
    """handler(call, orig, args, kwargs) takes the place of every scipy optimiser."""
    for key in boot.OPTIMISERS:
        def hook(orig, *args, _key=key, **kwargs):
            return handler(Call(_key, args, kwargs), orig, args, kwargs)
        boot.HOOKS[key] = hook
