"""C08: ODE models return the true trajectory or raise, never partial numbers."""
import json
import numpy as np
import boot
import engine
import gen
import jobs
import ops
import peer
import ref
from engine import Violation, Discard
from checks import common

id = 'C08'
RUNS = dict(quick=2400, thorough=60000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds an ODE model with a closed-form solution (8 families, random names, initial point, constant or '
        'fitted initial values, six integrators) and sends it a random history of 2-12 evaluations (both sides, one '
        'side, the initial point, single times as Python or numpy scalars, positional or by keyword), gradient '
        'estimates, objective evaluations of a fit and pickled copies, in which legs of the integration fail, '
        'stop early, run into a singularity or are interrupted. Every answer is compared to the closed form. '
        'Non-trivial: at least two answers were compared. Distinct: different (family, integrator, history).')
FAULTS = ['leg reports failure', 'leg raises', 'leg stopped early by an event', 'singularity', 'interrupted',
          'failure while fitting', 'time array refilled', 'returned array overwritten']
PROBES = ['both sides', 'after the initial point', 'before the initial point', 'only the initial point',
          'initial point included', 'single time as a scalar', 'single time as an array', 'single time as a 0-d array',
          'fitted initial value', 'integer times', 'first leg of two failed', 'second leg of two failed',
          'answer after a failure', 'objective of a fit', 'fit executed', 'gradient', 'pickled']
REAL = common.REAL_ALL + ['scipy.integrate.solve_ivp (all six methods), except for the legs that fail']
STUB = ['legs of the integration that fail (truncated result, success False)', 'optimiser (simulated peer) in fits']
ASSUMES = ['Closed-form solutions are right; integrators run at relative tolerance 1e-8 or symfit\'s default for '
           'LSODA and are compared to 2e-5 of the largest value.']
TIME_UNIT = 'evaluations and requests'

METHODS = ['LSODA', 'LSODA', 'RK45', 'RK45', 'DOP853', 'Radau', 'BDF', 'RK23']


# family: components, parameters, closed form values(t - t0, t0, p, y0) -> {component: array}
def f_decay(s, t0, p, y0):
    return dict(y=y0['y'] * np.exp(-p['k'] * s))


def f_relax(s, t0, p, y0):
    return dict(y=p['c'] + (y0['y'] - p['c']) * np.exp(-p['k'] * s))


def f_logistic(s, t0, p, y0):
    e = np.exp(p['k'] * s)
    return dict(y=p['c'] * y0['y'] * e / (p['c'] + y0['y'] * (e - 1)))


def f_osc(s, t0, p, y0):
    w = p['k']
    return dict(y=y0['y'] * np.cos(w * s) + y0['z'] / w * np.sin(w * s),
                z=y0['z'] * np.cos(w * s) - y0['y'] * w * np.sin(w * s))


def f_chain(s, t0, p, y0):
    k, c = p['k'], p['c']
    a = k * y0['y'] / (c - k)
    return dict(y=y0['y'] * np.exp(-k * s), z=a * np.exp(-k * s) + (y0['z'] - a) * np.exp(-c * s))


def f_forced(s, t0, p, y0):
    return dict(y=y0['y'] + p['k'] * s + p['c'] * ((s + t0) ** 2 - t0 ** 2) / 2)


def f_three(s, t0, p, y0):
    k = p['k']
    y = y0['y'] * np.exp(-k * s)
    z = (y0['z'] + k * y0['y'] * s) * np.exp(-k * s)
    return dict(y=y, z=z, w=y0['y'] + y0['z'] + y0['w'] - y - z)


def f_pole(s, t0, p, y0):
    return dict(y=y0['y'] / (1 - p['k'] * y0['y'] * s))


FAMILIES = dict(
    decay=(dict(y=['neg', ['*', 'k', 'y']]), ['k'], f_decay),
    relax=(dict(y=['neg', ['*', 'k', ['-', 'y', 'c']]]), ['k', 'c'], f_relax),
    logistic=(dict(y=['*', ['*', 'k', 'y'], ['-', 1.0, ['/', 'y', 'c']]]), ['k', 'c'], f_logistic),
    osc=(dict(y='z', z=['neg', ['*', ['pow', 'k', 2], 'y']]), ['k'], f_osc),
    chain=(dict(y=['neg', ['*', 'k', 'y']], z=['-', ['*', 'k', 'y'], ['*', 'c', 'z']]), ['k', 'c'], f_chain),
    forced=(dict(y=['+', 'k', ['*', 'c', 't']]), ['k', 'c'], f_forced),
    three=(dict(y=['neg', ['*', 'k', 'y']], z=['-', ['*', 'k', 'y'], ['*', 'k', 'z']], w=['*', 'k', 'z']), ['k'], f_three),
    pole=(dict(y=['*', 'k', ['pow', 'y', 2]]), ['k'], f_pole),
)


def plan(rng, i, tier):
    fam = rng.choice(list(FAMILIES))
    comps, pars, _ = FAMILIES[fam]
    method = rng.choice(METHODS)
    integ = dict(method=method)
    if method != 'LSODA' or rng.random() < 0.5:
        integ.update(rtol=1e-8, atol=1e-9)
    if method in ('RK23', 'BDF', 'Radau'):
        integ.update(rtol=1e-7, atol=1e-8)
    ys = list(comps)
    names = ['k', 'c', 't'] + ys
    t0 = rng.choice([0.0, 0.0, 1.0, -0.5, 2.25, 0, 1])
    init = {}
    for y in ys:
        init[y] = 'i' + y if rng.random() < 0.3 else round(rng.uniform(0.5, 1.5), 3)
    allp = pars + [v for v in init.values() if isinstance(v, str)]
    pn = rng.sample(gen.PNAMES, len(allp))
    taken = set(pn)
    tn = rng.choice([v for v in gen.VNAMES if v not in taken])
    taken.add(tn)
    yn = rng.sample([y for y in gen.YNAMES if y not in taken], len(ys))
    m = dict(zip(allp, pn))
    m['t'] = tn
    m.update(zip(ys, yn))
    queries = []
    span = 0.35 if fam == 'pole' else 1.6
    for _ in range(rng.randrange(2, 13)):
        kind = rng.choice(['eval'] * 7 + ['obj', 'fit', 'grad', 'pickle'])
        side = rng.choice(['both', 'both', 'after', 'before', 'none', 'one'])
        n = rng.randrange(1, 6)
        lo = -span if side in ('both', 'before') else 0.02
        hi = span if side in ('both', 'after') else -0.02
        if side == 'none':
            ts, incl = [], True
        elif side == 'one':
            ts, incl = [rng.choice([-1, 1]) * round(rng.uniform(0.05, span), 3)], False
        else:
            ts = [round(rng.uniform(min(lo, hi), max(lo, hi)), 3) for _ in range(n + (side == 'both'))]
            if side == 'both' and len(ts) > 1:
                ts[0], ts[1] = abs(ts[0]) + 0.01, -abs(ts[1]) - 0.01
            incl = rng.random() < 0.35
        ts = sorted(set(ts) | ({0.0} if incl else set()))
        form = 'array'
        if len(ts) == 1:
            form = rng.choice(['array', 'float', 'numpy', '0d'])
        q = dict(k=kind, ts=ts, form=form, pos=rng.random() < 0.3,
                 p={m[a]: round(rng.uniform(0.5, 0.9) if a == 'k' else rng.uniform(1.7, 2.4) if a == 'c'
                                else rng.uniform(0.5, 1.5), 3) for a in allp})
        if form == 'array' and rng.random() < 0.1 and float(t0).is_integer() and fam != 'pole':
            q['ts'] = sorted(rng.sample([-1, 0, 1, 2], rng.randrange(1, 4)))
            q['int'] = True
        if form == 'array' and ts and not q.get('int') and rng.random() < 0.2:
            # next to the initial point, but not at it
            d = rng.choice([1e-9, 1e-8, 1e-6, 1e-5]) * rng.choice([-1, 1])
            if side == 'both' or (d > 0) == (ts[-1] > 0):
                q['ts'] = sorted(set(ts) | {d})
        q['reuse'] = rng.random() < 0.6              # of the array of an earlier query
        if queries and form == 'array' and rng.random() < 0.25 and not q.get('int'):
            prev = rng.choice(queries)
            if len(prev['ts']) > 1 and not prev.get('int'):
                # as many times as before, a little later or the same
                d = rng.choice([0.0, 0.011, -0.013, 0.1])
                q['ts'] = sorted({round(u + d, 4) for u in prev['ts']})
        r = rng.random()
        if r < 0.3:
            q['fault'] = dict(kind=rng.choice(['fail', 'fail', 'fail', 'raise', 'event', 'interrupt']),
                              leg=rng.choice([1, 1, 2]), keep=rng.random(), seed=rng.randrange(1 << 30))
        elif r < 0.4 and fam == 'pole':
            q['sing'] = rng.uniform(1.2, 3)
        queries.append(q)
    return dict(fam=fam, integ=integ, t0=t0, init=init, m=m, queries=queries,
                fixed=[m[a] for a in allp if rng.random() < 0.2], _lists=['queries', 'queries.*.ts'])


def build_spec(plan):
    comps, _, _ = FAMILIES[plan['fam']]
    m = plan['m']

    def ren(e):
        if isinstance(e, str):
            return m[e]
        if isinstance(e, list):
            if e[0] == 'pow':
                return [e[0], ren(e[1]), e[2]]
            return [e[0]] + [ren(x) for x in e[1:]]
        return e
    ys = {m[y]: ren(e) for y, e in comps.items()}
    init = {m[y]: m[v] if isinstance(v, str) else v for y, v in plan['init'].items()}
    pars = {m[a]: dict(value={'k': 0.7, 'c': 2.0}.get(a, 1.0), min=None, max=None, fixed=m[a] in plan['fixed'])
            for a in m if a in ('k', 'c') or a.startswith('i')}
    if all(d['fixed'] for d in pars.values()):
        for d in pars.values():
            d['fixed'] = False
    return dict(kind='ODE', objective='LeastSquares', comps=ys, top=list(ys), vars=[m['t']], params=pars,
                numeric=[], order=sorted(ys), t0=plan['t0'], initial=init,
                integrator=json.loads(json.dumps(plan['integ'])))


def truth(plan, spec, ts, pv):
    """Closed-form values per component (in symfit's order) at absolute times ts."""
    _, _, f = FAMILIES[plan['fam']]
    inv = {v: k for k, v in plan['m'].items()}
    p = {inv[n]: v for n, v in pv.items()}
    y0 = {y: p[v] if isinstance(v, str) else v for y, v in plan['init'].items()}
    s = np.asarray(ts, dtype=float) - plan['t0']
    out = f(s, float(plan['t0']), p, y0)
    return {plan['m'][y]: np.broadcast_to(v, s.shape) for y, v in out.items()}


class Boom(Exception):
    pass


class Legs(object):
    """Stands in front of solve_ivp: counts the legs and makes one fail."""
    def __init__(self, fault, leg=None):
        self.f, self.n, self.fired = fault, 0, None

    def __call__(self, orig, *args, **kwargs):
        self.n += 1
        f = self.f
        if f is None or self.n != f['leg'] or self.fired:
            return orig(*args, **kwargs)
        self.fired = f['kind']
        if f['kind'] == 'raise':
            raise Boom('leg %d' % self.n)
        if f['kind'] == 'event':
            kw = dict(kwargs)
            lo, hi = kw['t_span']
            at = lo + (hi - lo) * (0.05 + 0.9 * f['keep'])

            def event(t, y, *a):
                return t - at
            event.terminal = True
            kw['events'] = event
            return orig(*args, **kw)
        out = orig(*args, **kwargs)
        keep = int(f['keep'] * (out.y.shape[1] + 0.999))
        out.y = np.array(out.y[:, :keep])
        out.t = np.array(out.t[:keep])
        if f['keep'] > 0.6:                       # the full range, but wrong
            out.y = np.full((out.y.shape[0], len(kwargs['t_eval'])), 0.77)
            out.t = np.array(kwargs['t_eval'])
        out.success, out.status, out.message = False, -1, 'simulated: step size too small'
        return out


def as_time(q, t0):
    ts = [t + t0 for t in q['ts']]
    if q.get('int'):
        return np.array([int(t) for t in ts])
    if q['form'] == 'float':
        return float(ts[0])
    if q['form'] == 'numpy':
        return np.float64(ts[0])
    if q['form'] == '0d':
        return np.array(float(ts[0]))
    return np.array(ts, dtype=float)


def execute(plan, rec):
    import pickle
    import random
    import faults
    spec = build_spec(plan)
    sym = gen.make_symbols(spec)
    model = gen.make_model(spec, sym)
    names = sorted(spec['params'])
    comps = sorted(spec['comps'])
    if [p.name for p in model.params] != names or [v.name for v in model.dependent_vars] != comps:
        raise Violation('wrong order', str((model.params, model.dependent_vars)))
    if any(isinstance(v, str) for v in plan['init'].values()):
        rec.probes['fitted initial value'] += 1
    failed = False
    explicit = json.loads(json.dumps(plan))
    compared = []
    arrays = {}
    for n, q in enumerate(plan['queries']):
        if not q['ts']:
            continue
        pv = dict(q['p'])
        for p in plan['fixed']:
            if spec['params'][p]['fixed']:
                pv[p] = spec['params'][p]['value']
        t = as_time(q, plan['t0'])
        if isinstance(t, np.ndarray) and t.ndim and q.get('reuse') and not q.get('sing'):
            key = (t.dtype.kind, t.shape)
            if key in arrays:
                arrays[key][...] = t
                t = arrays[key]
                rec.faults['time array refilled'] += 1
            arrays[key] = t
        if q.get('sing'):
            ky = truth(plan, spec, [plan['t0']], pv)
            y0 = float(list(ky.values())[0][0])
            k = pv[plan['m']['k']]
            t = np.array([plan['t0'] + 0.02, plan['t0'] + q['sing'] / (k * y0)])
        ta = np.atleast_1d(np.asarray(t, dtype=float))
        if np.any(np.diff(ta) <= 0):
            continue
        lo, hi = bool(np.any(ta < plan['t0'])), bool(np.any(ta > plan['t0']))
        inc = bool(np.any(ta == plan['t0']))
        nlegs = lo + hi
        f = q.get('fault')
        kind = q['k']
        if q.get('sing'):
            kind, f = 'eval', None
        want = truth(plan, spec, ta, pv)
        if kind in ('obj', 'fit', 'grad'):
            if np.ndim(t) == 0:
                kind = 'eval'
        tn = spec['vars'][0]
        m = model
        if kind == 'pickle':
            m = pickle.loads(pickle.dumps(model))
            rec.probes['pickled'] += 1
        legs = Legs(f if f and f['kind'] != 'interrupt' else None)

        def call():
            kw = dict(pv)
            kw[tn] = t
            if kind in ('eval', 'pickle'):
                if q['pos']:
                    out = m(t, *[pv[p] for p in names])
                else:
                    out = m(**kw)
                return [np.asarray(getattr(out, c)) for c in comps]
            if kind == 'grad':
                return [np.asarray(g) for g in m.eval_jacobian(**kw)]
            return fit_value(plan, spec, sym, m, q, t, want, pv, kind)
        boot.HOOKS['solve_ivp'] = legs
        try:
            if f and f['kind'] == 'interrupt':
                fa = explicit['queries'][n]['fault']
                fa = faults.resolve(dict(kind='line', exc='KeyboardInterrupt', seed=f['seed']) if 'site' not in fa else fa['site'], call)
                explicit['queries'][n]['fault']['site'] = fa
                rec.explicit = explicit
                if fa is None:
                    continue
                p, outcome, v = faults.attempt(fa, call)
                rec.ev(str(n), kind, 'interrupt', str(p.fired), outcome)
                if p.fired:
                    rec.faults['interrupted'] += 1
                    failed = True
                if outcome == 'other':
                    raise Violation('another exception came out: ' + type(v).__name__, repr(v))
                if outcome == 'injected':
                    continue
                got, err = v, None
            else:
                try:
                    with np.errstate(all='ignore'):
                        got, err = call(), None
                except Violation:
                    raise
                except Exception as e:
                    got, err = None, e
        finally:
            boot.HOOKS.clear()
        must_fail = bool(legs.fired) or bool(q.get('sing'))
        rec.ev(str(n), kind, engine.dig(ta), str(legs.fired), type(err).__name__)
        if legs.fired:
            rec.faults[{'fail': 'leg reports failure', 'raise': 'leg raises',
                        'event': 'leg stopped early by an event'}[legs.fired]] += 1
            if kind in ('obj', 'fit', 'grad'):
                rec.faults['failure while fitting'] += 1
            if nlegs == 2 and kind in ('eval', 'pickle'):
                rec.probes['first leg of two failed' if f['leg'] == 1 else 'second leg of two failed'] += 1
        if q.get('sing'):
            rec.faults['singularity'] += 1
        if must_fail:
            failed = True
            if err is None:
                raise Violation('numbers from a failed integration',
                                '%s at %s after %s: %s' % (kind, ta.tolist(), legs.fired or 'a singularity', str(got)[:500]))
            continue
        if err is not None:
            raise Violation('an evaluation failed: ' + type(err).__name__, '%s at %s: %r' % (kind, ta.tolist(), err))
        check(plan, spec, kind, got, want, ta, pv, comps, names, t)
        if q.get('reuse'):
            for g in got:
                if g.ndim and g.flags.writeable:
                    g[...] = 123.0
                    rec.faults['returned array overwritten'] += 1
        compared.append((kind, len(ta), lo, hi, inc, failed))
        if failed:
            rec.probes['answer after a failure'] += 1
        note(rec, kind, q, lo, hi, inc, t)
    rec.steps = len(plan['queries'])
    if len(compared) > 1:
        rec.nontrivial(plan['fam'], plan['integ']['method'], plan['t0'], compared, plan['init'])


def fit_value(plan, spec, sym, model, q, t, want, pv, kind):
    """Value of the least squares objective at pv, as an optimiser gets it."""
    comps = sorted(spec['comps'])
    data = {spec['vars'][0]: t}
    for c in comps:
        data[c] = np.asarray(want[c]) + 0.25
        data['sigma_' + c] = 0.5
    got = {}

    def handler(call, orig, args, kwargs):
        x = np.array([pv[p] for p in names_free(spec)])
        got['f'] = float(np.squeeze(call.fun(x)))
        return peer.result(call, x, got['f'])
    for p in model.params:
        if p.fixed:
            p.value = pv[p.name]
    fit = gen.make_fit(spec, model=model, data=data, minimizer=gen.mins('NelderMead'))
    if kind == 'obj':
        return [np.asarray(float(np.squeeze(fit.objective([pv[p] for p in names_free(spec)]))))]
    peer.install(handler)
    try:
        res = fit.execute()
    finally:
        for k in boot.OPTIMISERS:
            boot.HOOKS.pop(k, None)
    if {k: float(v) for k, v in res.params.items()} != {p: pv[p] for p in sorted(pv)}:
        raise Violation('wrong parameters of a fit', str(res.params))
    return [np.asarray(float(res.objective_value))]


def names_free(spec):
    return gen.free(spec)


def check(plan, spec, kind, got, want, ta, pv, comps, names, t):
    if kind in ('obj', 'fit'):
        # every residual is 0.25 / 0.5
        v = 0.5 * 0.25 * len(comps) * len(ta)
        if not ref.close(got[0], v, rtol=1e-3, atol=1e-3):
            raise Violation('wrong objective', 'got %s, expected %s' % (got, v))
        return
    if kind == 'grad':
        for k, c in enumerate(comps):
            g = np.asarray(got[k])
            for j, p in enumerate(names):
                h = 1e-5
                up, dn = dict(pv), dict(pv)
                up[p] += h
                dn[p] -= h
                w = (truth(plan, spec, ta, up)[c] - truth(plan, spec, ta, dn)[c]) / (2 * h)
                scale = max(1.0, float(np.max(np.abs(want[c]))), float(np.max(np.abs(w))))
                if not ref.bclose(np.squeeze(g[j]), np.squeeze(w), rtol=1e-2, atol=2e-2, scale=scale):
                    raise Violation('wrong gradient of an ODE model', '%s by %s: %s, expected %s' % (c, p, g[j], w))
        return
    top = max(1.0, max(float(np.max(np.abs(w))) for w in want.values()))
    for c, g in zip(comps, got):
        if g.shape != ta.shape:
            raise Violation('wrong number of values', '%s for %d times' % (g.shape, len(ta)))
        if not ref.close(g, want[c], rtol=2e-5, atol=2e-5, scale=top):
            raise Violation('wrong trajectory', '%s at %s: %s, expected %s' % (c, ta.tolist(), g, want[c]))


def note(rec, kind, q, lo, hi, inc, t):
    P = rec.probes
    if lo and hi:
        P['both sides'] += 1
    elif hi:
        P['after the initial point'] += 1
    elif lo:
        P['before the initial point'] += 1
    else:
        P['only the initial point'] += 1
    if inc and (lo or hi):
        P['initial point included'] += 1
    if q.get('int'):
        P['integer times'] += 1
    if np.size(t) == 1:
        P['single time as a scalar' if not isinstance(t, np.ndarray) else
          'single time as a 0-d array' if t.ndim == 0 else 'single time as an array'] += 1
    if kind in ('obj',):
        P['objective of a fit'] += 1
    elif kind == 'fit':
        P['fit executed'] += 1
    elif kind == 'grad':
        P['gradient'] += 1
