"""
Operations on a model and its objectives, as plain data in and out, so that the same
operation can be done in a thread, after a fault, in another process, ...
"""
import math
import os
import pickle
import random
import sys
import warnings
import numpy as np
import sympy
from sympy.core.parameters import global_parameters
import engine
import gen
import ref


def enc(x):
    """Any output of symfit as JSON: arrays become [shape, values]."""
    if x is None:
        return None
    if hasattr(x, '_asdict') or hasattr(x, 'variables'):
        return {str(k): enc(v) for k, v in zip(x.variables, x.output)}
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)) and any(isinstance(i, (str, dict)) or hasattr(i, 'variables') for i in x):
        return [enc(i) for i in x]
    try:
        a = np.asarray(x)
        if a.dtype == object:
            a = a.astype(float)
        if a.dtype.kind == 'c':
            return ['#c', list(a.shape), [float(v) for v in a.real.ravel()], [float(v) for v in a.imag.ravel()]]
        return ['#a', list(a.shape), [float(v) for v in a.ravel()]]
    except (TypeError, ValueError):
        if isinstance(x, (list, tuple)):
            return [enc(i) for i in x]
        return str(x)


def differ(a, b, rtol=1e-9, path=''):
    """'' if the two encoded outputs agree, else where they differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return '%s keys %s != %s' % (path, list(a), list(b))
        for k in a:
            d = differ(a[k], b[k], rtol, path + '.' + k)
            if d:
                return d
        return ''
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s length %d != %d' % (path, len(a), len(b))
        if a and a[0] in ('#a', '#c') and isinstance(a[0], str):
            if a[0] != b[0] or a[1] != b[1]:
                return '%s shape %s != %s' % (path, a[:2], b[:2])
            for x, y in zip(a[2:], b[2:]):
                if not ref.close(x, y, rtol=rtol, atol=rtol):
                    return '%s values %s != %s' % (path, x[:6], y[:6])
            return ''
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, '%s[%d]' % (path, i))
            if d:
                return d
        return ''
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (math.isnan(a) and math.isnan(b)) or ref.close(a, b, rtol=rtol, atol=rtol):
            return ''
        return '%s %r != %r' % (path, a, b)
    return '' if a == b else '%s %r != %r' % (path, a, b)


LEFT = None           # what an operation first left changed around it


def surroundings():
    """Settings of the process that later calls depend on."""
    return dict(geterr=np.geterr(), recursion=sys.getrecursionlimit(), printing=np.get_printoptions(),
                evaluate=bool(global_parameters.evaluate), distribute=bool(global_parameters.distribute),
                random=str(np.random.get_state()[1:]), pyrandom=hash(random.getstate()),
                warnings=[str(w) for w in warnings.filters], cwd=os.getcwd())


class Bench(object):
    """A model and objective built from a spec, and the operations on them."""
    def __init__(self, spec, sym=None):
        self.spec = spec
        self.sym = sym or gen.make_symbols(spec)
        self.model = gen.make_model(spec, self.sym)
        self.objective = None
        if 'data' in spec:
            self.objective = gen.make_objective(spec, self.model)
        self.base = gen.np_data(spec)
        if 'con' in spec:
            self.con, self.conobj              # built with the rest

    # a constraint on the parameters of the model, and its objective
    @property
    def con(self):
        if '_con' not in self.__dict__:
            self._con = make_con(self.spec, self.model)
        return self._con

    @property
    def conobj(self):
        if '_conobj' not in self.__dict__:
            self._conobj = gen.OB.MinimizeModel(self.con, data={
                v: self.base[v.name] for v in self.con.independent_vars})
        return self._conobj

    def conargs(self, op):
        kw = self.args(op)
        return {n: kw[n] for n in self.con.__signature__.parameters}

    def op_con(self, op):
        return [enc(self.con(**self.conargs(op)).output), [p.name for p in self.con.params],
                self.con.constraint_type.__name__]

    def op_conjac(self, op):
        return enc(self.con.eval_jacobian(**self.conargs(op)).output)

    def op_conhess(self, op):
        return enc(self.con.eval_hessian(**self.conargs(op)).output)

    def op_conobj(self, op):
        return enc(self.conobj(self.vals(op)))

    def op_conobjjac(self, op):
        return enc(self.conobj.eval_jacobian(self.vals(op)))

    def op_conobjhess(self, op):
        return enc(self.conobj.eval_hessian(self.vals(op)))

    def op_connew(self, op):
        """A constraint built anew on the same model, evaluated once."""
        return enc(make_con(self.spec, self.model)(**self.conargs(op)).output)

    def op_conpickle(self, op):
        return ('pickle', pickle.dumps(self.con))

    def args(self, op):
        kw = {v: self.base[v] * op['s'] for v in self.spec['vars']}
        kw.update(op['p'])
        return kw

    def vals(self, op):
        return [op['p'][p] for p in gen.free(self.spec)]

    def do(self, op):
        global LEFT
        with np.errstate(all='ignore'):
            was = surroundings()
            try:
                return getattr(self, 'op_' + op['op'])(op)
            finally:
                now = surroundings()
                if now != was and LEFT is None:
                    LEFT = ', '.join(k for k in now if now[k] != was[k])

    def op_call(self, op):
        out = self.model(**self.args(op))
        return [enc(out), [str(v) for v in out.variables]]

    def op_components(self, op):
        return [enc(c) for c in self.model.eval_components(**self.args(op))]

    def op_jac(self, op):
        return enc(self.model.eval_jacobian(**self.args(op)))

    def op_hess(self, op):
        return enc(self.model.eval_hessian(**self.args(op)))

    def op_fd(self, op):
        return enc(self.model.finite_difference(**self.args(op)))

    def op_obj(self, op):
        return enc(self.objective(self.vals(op)))

    def op_objkw(self, op):
        kw = {p: op['p'][p] for p in gen.free(self.spec)}
        return enc(self.objective(**kw))

    def op_objjac(self, op):
        return enc(self.objective.eval_jacobian(self.vals(op)))

    def op_objhess(self, op):
        return enc(self.objective.eval_hessian(self.vals(op)))

    def op_str(self, op):
        return str(self.model)

    def op_order(self, op):
        m = self.model
        # ordered_symbols is any topological order of the same symbols
        seq = m.ordered_symbols
        before, topo = set(), True
        for s in seq:
            topo = topo and set(m.connectivity_mapping.get(s, ())) - {s} <= before
            before.add(s)
        return [[str(s) for s in g] for g in (
            m.params, m.independent_vars, m.dependent_vars, m.interdependent_vars,
            m.free_params, m.keys())] + [list(m.__signature__.parameters), sorted(str(s) for s in seq), topo]

    def op_funcs(self, op):
        return sorted(str(k) + '=' + str(v) for k, v in self.model.function_dict.items())

    def op_symjac(self, op):
        return [[str(sympy.sympify(e)) for e in row] for row in self.model.jacobian]

    def op_pickle(self, op):
        return ('pickle', pickle.dumps(self.model))

    def op_pickleobj(self, op):
        return ('pickle', pickle.dumps(self.objective))

    def op_new(self, op):
        """A new model on the same symbols, evaluated once."""
        m = gen.make_model(self.spec, self.sym)
        out = m(**self.args(op))
        return enc(out)

    def finish(self, op, res):
        """Turn a raw result into a comparable one (unpickles and evaluates)."""
        if isinstance(res, tuple) and res and res[0] == 'pickle':
            with np.errstate(all='ignore'):
                obj = pickle.loads(res[1])
                if op['op'] == 'pickle':
                    out = obj(**self.args(op))
                    return [enc(out), str(obj)]
                if op['op'] == 'conpickle':
                    kw = self.args(op)
                    kw = {n: kw[n] for n in obj.__signature__.parameters}
                    out = [enc(obj(**kw).output), [p.name for p in obj.params], obj.constraint_type.__name__]
                    if hasattr(obj, 'eval_jacobian'):
                        out.append(enc(obj.eval_jacobian(**kw).output))
                    return out
                return enc(obj(self.vals(op)))
        return res


def make_con(spec, model):
    sym = {s.name: s for s in list(model.params) + list(model.vars) + list(model.keys())}
    cls = type(model) if spec['kind'] in ('Model', 'GradientModel', 'CallableModel') else gen.CallableModel
    return cls.as_constraint(gen.make_constraint(spec['con'], sym), model)


def menu(spec):
    """Operations the kind of model supports."""
    m = _menu(spec)
    if 'con' in spec:
        m = m + ['con', 'conobj', 'connew', 'conpickle']
        if spec['kind'] in ('Model', 'GradientModel'):
            m += ['conjac', 'conjac', 'conobjjac', 'conobjjac']
        if spec['kind'] == 'Model':
            m += ['conhess', 'conobjhess']
    return m


def _menu(spec):
    k, o = spec['kind'], spec['objective']
    m = ['call', 'call', 'components', 'obj', 'obj', 'objkw', 'order', 'pickle', 'pickleobj', 'new']
    if k == 'ODE':
        return ['call', 'call', 'components', 'order', 'pickle', 'new', 'str', 'fd', 'jac', 'obj', 'obj', 'objkw', 'objjac', 'pickleobj']
    if k in ('Model', 'GradientModel', 'CallableModel'):
        m += ['str', 'funcs']
    if k in ('Model', 'GradientModel'):
        m += ['jac', 'jac', 'jac', 'objjac', 'objjac', 'symjac', 'fd']
    if k == 'NumGrad':
        m += ['jac', 'jac', 'objjac', 'objjac', 'fd', 'fd']
    if k == 'Model':
        m += ['hess', 'hess']
        if o != 'VectorLeastSquares':
            m += ['objhess', 'objhess']
    return m


def random_op(rng, spec, only=None):
    name = rng.choice(only or menu(spec))
    p = gen.point(rng, spec)
    for q, d in spec['params'].items():
        if d['fixed']:
            p[q] = d['value']
    return dict(op=name, p=p, s=rng.choice([0.5, 0.8, 1.0, 1.25]))


def solo(fn):
    """Value of fn() in a forked copy of this process (pristine: nothing done there is
    seen here). Discards the run if it raises: the sequential case is not the subject."""
    def wrapped():
        return dict(v=fn())
    res = engine.in_child(wrapped, timeout=120)
    if 'v' not in res:
        if 'HarnessError' in res.get('detail', '') or 'wall time' in res.get('detail', ''):
            raise engine.HarnessError('solo: ' + res.get('detail', ''))
        raise engine.Discard('solo raised: ' + res.get('detail', '')[-300:])
    return res['v']


def solo_or_none(fn):
    """solo(), or None if it raises."""
    try:
        return solo(fn)
    except engine.Discard:
        return None
