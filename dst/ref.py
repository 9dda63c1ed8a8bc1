"""
Executable reference model, independent of symfit and sympy: second order forward
differentiation on numpy arrays, and the documented objectives written out.
"""
import numpy as np


class D2(object):
    """Value, gradient and Hessian in n parameters, every array of data shape S:
    v: S, g: (n,)+S, h: (n, n)+S."""
    __slots__ = ('v', 'g', 'h')

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def const(v, n, S):
        v = np.broadcast_to(np.asarray(v), S)
        return D2(v, np.zeros((n,) + S, dtype=v.dtype if v.dtype.kind == 'c' else float),
                  np.zeros((n, n) + S, dtype=v.dtype if v.dtype.kind == 'c' else float))

    @staticmethod
    def var(v, i, n, S):
        d = D2.const(v, n, S)
        d.g[i] = 1.0
        return d

    def _c(self, o):
        if isinstance(o, D2):
            return o
        return D2.const(o, self.g.shape[0], self.v.shape)

    def unary(self, f, df, ddf):
        v = self.v
        d1, d2 = df(v), ddf(v)
        return D2(f(v), d1 * self.g, d1 * self.h + d2 * self.g[:, None] * self.g[None])

    def __add__(self, o):
        o = self._c(o)
        return D2(self.v + o.v, self.g + o.g, self.h + o.h)
    __radd__ = __add__

    def __neg__(self):
        return D2(-self.v, -self.g, -self.h)

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) + (-self)

    def __mul__(self, o):
        o = self._c(o)
        cross = self.g[:, None] * o.g[None]
        return D2(self.v * o.v, self.g * o.v + self.v * o.g,
                  self.h * o.v + self.v * o.h + cross + np.swapaxes(cross, 0, 1))
    __rmul__ = __mul__

    def inv(self):
        return self.unary(lambda v: 1 / v, lambda v: -1 / v ** 2, lambda v: 2 / v ** 3)

    def __truediv__(self, o):
        return self * self._c(o).inv()

    def __rtruediv__(self, o):
        return self._c(o) * self.inv()

    def powi(self, k):
        return self.unary(lambda v: v ** k, lambda v: k * v ** (k - 1),
                          lambda v: k * (k - 1) * v ** (k - 2) if k > 1 else 0 * v)


_UN = {
    'sin': (np.sin, np.cos, lambda v: -np.sin(v)),
    'cos': (np.cos, lambda v: -np.sin(v), lambda v: -np.cos(v)),
    'exp': (np.exp, np.exp, np.exp),
    'log': (np.log, lambda v: 1 / v, lambda v: -1 / v ** 2),
    'sqrt': (np.sqrt, lambda v: 0.5 / np.sqrt(v), lambda v: -0.25 / np.sqrt(v) ** 3),
    'tanh': (np.tanh, lambda v: 1 - np.tanh(v) ** 2,
             lambda v: -2 * np.tanh(v) * (1 - np.tanh(v) ** 2)),
}


def ev(e, env, lib):
    """Evaluate the expression DSL. lib: 'np', 'd2' or a sympy-like module."""
    if isinstance(e, (int, float)):
        return e
    if isinstance(e, str):
        return env[e]
    op = e[0]
    a = ev(e[1], env, lib)
    if op == 'pow':
        k = e[2]
        return a.powi(k) if isinstance(a, D2) else a ** k
    if op == 'neg':
        return -a
    if op in _UN:
        if isinstance(a, D2):
            return a.unary(*_UN[op])
        return getattr(lib, op)(a)
    b = ev(e[2], env, lib)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    raise ValueError(op)


def names(e, out=None):
    out = set() if out is None else out
    if isinstance(e, str):
        out.add(e)
    elif isinstance(e, list):
        for s in (e[1:2] if e[0] == 'pow' else e[1:]):
            names(s, out)
    return out


def fmt(e):
    if isinstance(e, (int, float)):
        return repr(e)
    if isinstance(e, str):
        return e
    if e[0] in '+-*/':
        return '(%s %s %s)' % (fmt(e[1]), e[0], fmt(e[2]))
    if e[0] == 'pow':
        return '(%s ** %s)' % (fmt(e[1]), e[2])
    return '%s(%s)' % (e[0], fmt(e[1]))


class RefModel(object):
    """comps: {component: expr}; params: alphabetical list of all parameter names."""
    def __init__(self, comps, params):
        self.comps = dict(comps)
        self.params = sorted(params)

    def deps(self, name):
        """All names a component depends on, through other components as well."""
        out, todo = set(), [name]
        while todo:
            for s in names(self.comps[todo.pop()]):
                if s in self.comps:
                    if s not in out:
                        todo.append(s)
                out.add(s)
        return out

    def d2(self, name, pvals, xvals, S=None):
        """Component as D2 on shape S (default: broadcast shape of its variables)."""
        n = len(self.params)
        if S is None:
            shapes = [np.shape(np.atleast_1d(xvals[d])) for d in self.deps(name) if d in xvals]
            S = np.broadcast_shapes(*shapes) if shapes else (1,)
        env = {}
        for i, p in enumerate(self.params):
            env[p] = D2.var(pvals[p], i, n, S)
        memo = {}

        def comp(c):
            if c in memo:
                return memo[c]
            for d in names(self.comps[c]):
                if d in self.comps:
                    env[d] = comp(d)
                elif d not in env:
                    env[d] = D2.const(xvals[d], n, S)
            r = ev(self.comps[c], env, np)
            if not isinstance(r, D2):
                r = D2.const(r, n, S)
            memo[c] = r
            return r
        with np.errstate(all='ignore'):
            return comp(name)

    def values(self, pvals, xvals):
        return {c: self.d2(c, pvals, xvals).v for c in self.comps}


def objective(kind, model, dep, pvals, data, level=2, gn=False):
    """Documented objectives. dep: dependent components. data: name -> array or None,
    sigma_<name> -> array. Returns (value, gradient, Hessian) in all parameters."""
    n = len(model.params)
    with np.errstate(all='ignore'):
        if kind == 'LeastSquares':
            S, G, H = 0.0, np.zeros(n), np.zeros((n, n))
            for y in sorted(dep):
                yd = data.get(y)
                if yd is None:
                    continue
                yd = np.asarray(yd, dtype=float)
                s = np.broadcast_to(np.asarray(data['sigma_' + y], dtype=float), yd.shape)
                f = model.d2(y, pvals, data, yd.shape)
                r = (f.v - yd) / s
                ax = tuple(range(1, 1 + yd.ndim))
                S = S + 0.5 * np.sum(r ** 2)
                G = G + np.sum(f.g * (r / s), axis=ax)
                o = np.einsum('i...,j...->ij...', f.g, f.g) / s ** 2
                if not gn:
                    o = o + f.h * (r / s)
                H = H + np.sum(o, axis=tuple(range(2, 2 + yd.ndim)))
            return S, G, H
        if kind == 'VectorLeastSquares':
            tot, jac = 0.0, 0.0
            for y in sorted(dep):
                yd = data.get(y)
                if yd is None:
                    continue
                yd = np.asarray(yd, dtype=float)
                s = np.broadcast_to(np.asarray(data['sigma_' + y], dtype=float), yd.shape)
                f = model.d2(y, pvals, data, yd.shape)
                tot = tot + (((yd - f.v) / s) ** 2)
                jac = jac + f.g * ((yd - f.v) / s ** 2)
            chi = np.sqrt(tot)
            J = -(jac / chi)
            return chi.flatten(), J.reshape(n, -1).T, None
        if kind == 'LogLikelihood':
            S, G, H = 0.0, np.zeros(n), np.zeros((n, n))
            for y in sorted(dep):
                f = model.d2(y, pvals, data)
                ax = tuple(range(1, 1 + f.v.ndim))
                S = S - np.nansum(np.log(f.v))
                G = G - np.nansum(f.g / f.v, axis=ax)
                if gn:
                    h = 0
                else:
                    h = - f.h / f.v
                o = h + np.einsum('i...,j...->ij...', f.g, f.g) / f.v ** 2
                H = H + np.sum(o, axis=tuple(range(2, 2 + f.v.ndim)))
            return S, G, H
        if kind == 'MinimizeModel':
            (y,) = dep
            f = model.d2(y, pvals, data)
            return f.v, f.g, f.h
    raise ValueError(kind)


def close(a, b, rtol=1e-6, atol=1e-8, scale=None):
    """Numerical agreement of two arrays, robust against anything odd in a or b.
    Both NaN / both infinite of the same sign at the same place agree."""
    try:
        a = np.asarray(a)
        b = np.asarray(b)
        if a.dtype == object or b.dtype == object:
            a, b = a.astype(complex), b.astype(complex)
        if a.shape != b.shape:
            return False
        with np.errstate(all='ignore'):
            same = (a == b) | (np.isnan(a) & np.isnan(b))
            s = scale if scale is not None else max(1.0, float(np.nanmax(np.abs(
                np.where(np.isfinite(b), b, 0)), initial=0.0)))
            d = np.abs(a - b)
            ok = same | (d <= atol * s + rtol * np.abs(b))
        return bool(np.all(ok))
    except Exception:
        return False


def bclose(a, b, **kw):
    """As close, after broadcasting a to the shape of b."""
    try:
        a = np.asarray(a)
        b = np.asarray(b)
        return close(np.broadcast_to(a, b.shape), b, **kw)
    except Exception:
        return False
