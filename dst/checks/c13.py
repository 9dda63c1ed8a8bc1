"""C13: interactive guessing keeps sliders, parameters and curves consistent."""
import json
import math
import random
import sys
import warnings
import numpy as np
import boot
import engine
import faults
import gen
import jobs
import ops
import peer
import ref
import symfit
from engine import Violation, Discard
from checks import common

id = 'C13'
RUNS = dict(quick=300, thorough=20000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run opens the interactive guess window on a random model and data (matplotlib with its Agg canvas), feeds it '
        'a seeded sequence of slider settings, pointer events, resets, redraws and repeated updates, during some of '
        'which the model fails, possibly closes it and opens another one, and executes a fit. After every event '
        'sliders, ranges, parameters and the drawn curves are compared with each other and with the reference model. '
        'Non-trivial: at least one slider was moved. Distinct: different (model, event sequence).')
FAULTS = ['model raised in an update: user component', 'model raised in an update: source line',
          'model raised in an update: integrator', 'model raised while opening']
PROBES = ['one independent variable', 'several independent variables', 'several components', 'ODE model', 'fixed parameter',
          'slider set', 'pointer drag', 'pointer outside the range', 'slider reset', 'redraw', 'same position again',
          'second window', 'fit afterwards', 'negative range', 'error bars checked']
REAL = common.REAL_ALL + ['matplotlib with the Agg canvas: sliders, callbacks, figures']
STUB = ['the window system and the pointer (simulated matplotlib events)', 'the optimiser of the fit (simulated peer)',
        'user-supplied numerical components (generated)', 'the instant of model failures']
ASSUMES = ['The model fails in an update through an exception during its evaluation; exceptions between the event and '
           'the evaluation are not injected.']
TIME_UNIT = 'window events'
SPOT = 3


def usable(spec):
    """Every component has to depend on every independent variable it is drawn over."""
    if spec['kind'] == 'ODE':
        return True
    rm = {y: closure(spec, y) for y in spec['top']}
    if any(not (set(spec['vars']) & rm[y]) for y in spec['top']):
        return False
    d = spec['data']
    shapes = {tuple(d[v]['shape']) for v in spec['vars']} | {
        tuple(d[y]['shape']) for y in spec['top'] if d.get(y) is not None}
    return len(shapes) == 1 and all(d.get(y) is not None for y in spec['top']) and len(list(shapes)[0]) == 1 \
        and list(shapes)[0][0] > 3


def closure(spec, y):
    out, todo = set(), [y]
    while todo:
        c = todo.pop()
        for n in ref.names(spec['comps'][c]):
            if n not in out:
                out.add(n)
                if n in spec['comps']:
                    todo.append(n)
    return out


def plan(rng, i, tier):
    while True:
        r = rng.random()
        if r < 0.12:
            spec = gen.fit_spec(rng, 'ode')
        elif r < 0.4:
            spec = gen.fit_spec(rng, rng.choice(['line', 'decay', 'gauss', 'two', 'inter', 'num']))
        else:
            spec = gen.random_spec(rng, objective='LeastSquares', max_params=4)
            if spec['objective'] == 'LeastSquares' and spec['vars']:
                if len(spec['vars']) > 1:
                    grow(rng, spec)
        if usable(spec):
            break
    for p, d in spec['params'].items():                 # the guess has to lie in the range of its slider
        if rng.random() < 0.1:
            d['min'], d['max'] = -3.0, -0.5
            d['value'] = round(rng.uniform(-2.5, -1.0), 2)
            if spec['kind'] == 'ODE' or spec.get('template'):
                d['min'], d['max'], d['value'] = None, None, 0.8
        lo = 0 if d['min'] is None else d['min']
        hi = 2 * d['value'] if d['max'] is None else d['max']
        if not lo < d['value'] < hi:
            d['min'], d['max'] = None, None
            d['value'] = abs(d['value']) or 1.0
    events = []
    free = list(spec['params'])
    for _ in range(rng.choice([2, 3, 4, 5, 7])):
        k = rng.choice(['set', 'set', 'set', 'drag', 'drag', 'reset', 'draw', 'again'])
        e = dict(kind=k, p=rng.choice(free), u=round(rng.random(), 3))
        if k == 'set' and rng.random() < 0.2:
            e['u'] = rng.choice([0.0, 1.0])
        if k == 'drag':
            e['path'] = [round(rng.uniform(-0.3, 1.3) if rng.random() < .3 else rng.random(), 3)
                         for _ in range(rng.choice([1, 2, 3]))]
        if k in ('set', 'drag', 'reset', 'again') and rng.random() < 0.3:
            kinds = ['line', 'line'] + (['user'] * 3 if spec['numeric'] else []) + (['lib'] * 3 if spec['kind'] == 'ODE' else [])
            kind = rng.choice(kinds)
            e['fault'] = dict(kind=kind, exc=rng.choice(faults.EXCS if kind == 'line' else faults.USER_EXCS), u=rng.random())
        events.append(e)
    if rng.random() < 0.2:
        events.insert(rng.randrange(1, len(events) + 1), dict(kind='reopen'))
    return dict(spec=spec, events=events, n=rng.choice([5, 10, 50]) if len(spec['vars']) < 2 else rng.choice([4, 6]),
                percentile=rng.choice([None, [5, 95], [10, 80], [25, 75]]), log=rng.random() < .5, fit=rng.random() < 0.6,
                openfault=rng.random() < 0.08, kw=rng.random(), _lists=['events'])


def grow(rng, spec):
    """Enough points for a density of the data."""
    for k, d in spec['data'].items():
        if isinstance(d, dict):
            d['shape'] = [12]
            lo, hi = (0.2, 2.5) if k.startswith('sigma') else (-2.0, 2.0)
            d['vals'] = [round(rng.uniform(lo, hi), 3) for _ in range(12)]


# ------------------------------------------------------------------- window
class Boom(object):
    """Makes the evaluation of the model fail once during an update."""
    def __init__(self, fault):
        self.f = fault
        self.total = 0
        self.n = 0
        self.fired = None

    def throw(self, what):
        self.fired = what
        raise faults.TYPES[self.f['exc']]('injected at ' + what)

    def line(self, code, line):
        st = boot.site(code, line)
        if not st.startswith('core/models.py'):
            return
        if boot.fault_allowed(code, line) and self.evaluating():
            self.tick('source line')

    @staticmethod
    def evaluating():
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_name in ('__call__', 'eval_components') and f.f_code.co_filename.endswith('core/models.py'):
                return True
            f = f.f_back
        return False

    def user(self, label):
        if self.f['kind'] == 'user':
            self.tick('user component')

    def lib(self, orig, *a, **k):
        if self.f['kind'] == 'lib':
            self.tick('integrator')
        return orig(*a, **k)

    def tick(self, what):
        self.total += 1
        if 'n' in self.f and self.total == self.f['n'] and self.fired is None:
            self.throw(what)

    def __enter__(self):
        if self.f['kind'] == 'user':
            gen.USER_HOOK = self.user
        elif self.f['kind'] == 'lib':
            boot.HOOKS['solve_ivp'] = self.lib
        else:
            boot.set_line_hook(self.line)
        return self

    def __exit__(self, *a):
        gen.USER_HOOK = None
        boot.set_line_hook(None)
        boot.HOOKS.pop('solve_ivp', None)
        return False


def resolve(f, act):
    """The number of the chosen instant, counted in a fork."""
    if 'n' in f:
        return f

    def count():
        with Boom(f) as b:
            act()
        return b.total
    total = ops.solo_or_none(count)
    if not total:
        return None
    return dict(f, n=1 + int(f['u'] * (total - 1)))


class Window(object):
    def __init__(self, plan, sym, model, rec):
        import matplotlib.pyplot as plt
        import matplotlib.widgets as W
        from symfit.contrib.interactive_guess import InteractiveGuess
        self.plan, self.spec, self.sym, self.model, self.rec = plan, plan['spec'], sym, model, rec
        made = []
        orig = W.Slider.__init__

        def init(slf, *a, **k):
            orig(slf, *a, **k)
            made.append(slf)
        data = gen.np_data(self.spec)
        data = {k: v for k, v in data.items() if v is not None or not k.startswith('sigma_')}
        kw = dict(n_points=plan['n'], log_contour=plan['log'])
        if plan['percentile']:
            kw['percentile'] = plan['percentile']
        W.Slider.__init__ = init
        before = set(plt.get_fignums())
        self.at_open = {p: float(sym[p].value) for p in sorted(self.spec['params'])}
        try:
            self.ig = InteractiveGuess(model, **kw, **data)
        finally:
            W.Slider.__init__ = orig
        new = set(plt.get_fignums()) - before
        if len(new) != 1:
            raise Violation('opening does not make one window', str(new))
        self.fig = plt.figure(new.pop())
        self.sliders = {s.ax.get_label(): s for s in made}
        if sorted(self.sliders) != sorted(self.spec['params']) or len(made) != len(self.sliders):
            raise Violation('not one slider for every parameter', str([s.ax.get_label() for s in made]))
        self.range = {}
        for p, d in self.spec['params'].items():
            lo = 0 if d['min'] is None else d['min']
            hi = 2 * self.at_open[p] if d['max'] is None else d['max']
            self.range[p] = (lo, hi)
            s = self.sliders[p]
            if (float(s.valmin), float(s.valmax)) != (float(lo), float(hi)):
                raise Violation('wrong range of a slider', '%s: %s, expected %s' % (p, (s.valmin, s.valmax), (lo, hi)))

    def values(self):
        return {p: float(s.val) for p, s in sorted(self.sliders.items())}

    # -- events
    def event(self, e):
        from matplotlib.backend_bases import MouseEvent
        s = self.sliders[e['p']]
        lo, hi = self.range[e['p']]
        if e['kind'] == 'set':
            s.set_val(min(max(lo + e['u'] * (hi - lo), lo), hi))
            self.rec.probes['slider set'] += 1
        elif e['kind'] == 'again':
            s.set_val(s.val)
            self.rec.probes['same position again'] += 1
        elif e['kind'] == 'reset':
            s.reset()
            self.rec.probes['slider reset'] += 1
        elif e['kind'] == 'draw':
            self.fig.canvas.draw()
            self.rec.probes['redraw'] += 1
        elif e['kind'] == 'drag':
            c = self.fig.canvas
            pos = lambda u: s.ax.transData.transform((lo + u * (hi - lo), 0.5))
            path = e['path']
            first = min(max(path[0], 0.02), 0.98)
            try:
                x, y = pos(first)
                c.callbacks.process('button_press_event', MouseEvent('button_press_event', c, x, y, 1))
                for u in path[1:]:
                    x, y = pos(u)
                    if not 0 <= u <= 1:
                        self.rec.probes['pointer outside the range'] += 1
                    c.callbacks.process('motion_notify_event', MouseEvent('motion_notify_event', c, x, y, 1))
            finally:
                c.callbacks.process('button_release_event', MouseEvent('button_release_event', c, x, y, 1))
            self.rec.probes['pointer drag'] += 1

    # -- invariants
    def consistent(self, when):
        for p, s in sorted(self.sliders.items()):
            lo, hi = self.range[p]
            if not lo <= s.val <= hi:
                raise Violation('a slider left its range', '%s: %r not in %r %s' % (p, s.val, (lo, hi), when))
            if float(self.sym[p].value) != float(s.val):
                raise Violation('a parameter does not hold the position of its slider',
                                '%s = %r, slider at %r %s' % (p, self.sym[p].value, s.val, when))

    def curves(self, when):
        spec = self.spec
        vals = self.values()
        projections = [(x, y) for x in sorted(spec['vars']) for y in sorted(spec['top'])]
        axes = [a for a in self.fig.axes if a not in [s.ax for s in self.sliders.values()]]
        if len(axes) != len(projections):
            raise Violation('not one plot for every projection', '%d for %d' % (len(axes), len(projections)))
        red = [0.0 + c for c in (1, 0, 0)]
        import matplotlib.colors
        lines = []
        for ax in axes:
            ls = [l for l in ax.lines if list(matplotlib.colors.to_rgb(l.get_color())) == red and len(l.get_xdata()) > 1]
            if len(ls) != 1:
                raise Violation('not one curve in every plot', str(len(ls)))
            lines.append(ls[0])
        data = gen.np_data(spec)
        grids = {}
        for (x, y), l in zip(projections, lines):
            g = np.asarray(l.get_xdata(), dtype=float)
            if len(g) != self.plan['n'] or np.any(np.diff(g) <= 0):
                raise Violation('the curve is not drawn over an increasing grid', str(g[:6]))
            if g[0] > np.min(data[x]) + 1e-9 or g[-1] < np.max(data[x]) - 1e-9:
                raise Violation('the curve does not cover the data', str((x, g[0], g[-1])))
            grids[x] = g
        if spec['kind'] == 'ODE':
            want = ode(spec, vals, grids)
        else:
            mesh = np.meshgrid(*[grids[x] for x in sorted(spec['vars'])], indexing='ij')
            full = gen.ref_model(spec).values(vals, dict(zip(sorted(spec['vars']), mesh)))
            want = {y: np.broadcast_to(np.asarray(full[y], dtype=float), mesh[0].shape) for y in spec['top']}
        for k, ((x, y), l) in enumerate(zip(projections, lines)):
            w = want[y]
            if len(spec['vars']) > 1:
                ax = sorted(spec['vars']).index(x)
                other = tuple(j for j in range(w.ndim) if j != ax)
                q = self.plan['percentile'] or [5, 95]
                lohi = np.percentile(np.moveaxis(w, ax, 0).reshape(len(grids[x]), -1), q, axis=1)
                w = w.mean(axis=other)
                bars = self.bars(axes[k], len(grids[x]))
                if bars is not None:
                    got = np.array([[s[0][1], s[1][1]] for s in bars]).T
                    if not ref.close(got, lohi, rtol=1e-6, atol=1e-8):
                        raise Violation('the error bars are not the percentiles of the model', '%s(%s) %s: %s, expected %s' % (
                            y, x, when, got[:, :3].tolist(), lohi[:, :3].tolist()))
                    self.rec.probes['error bars checked'] += 1
            got = np.asarray(l.get_ydata(), dtype=float)
            tol = dict(rtol=2e-3, atol=2e-3) if spec['kind'] == 'ODE' else dict(rtol=1e-7, atol=1e-9)
            if not ref.close(got, w, **tol):
                raise Violation('the curve is not the model at the values of the sliders', '%s(%s) %s at %s: %s, expected %s' % (
                    y, x, when, vals, got[:4].tolist(), np.asarray(w)[:4].tolist()))

    @staticmethod
    def bars(ax, n):
        """Vertical error bars, as segments."""
        from matplotlib.collections import LineCollection
        for c in ax.collections:
            if type(c) is LineCollection:
                segs = [np.asarray(s) for s in c.get_segments()]
                if len(segs) == n and all(s.shape == (2, 2) and s[0][0] == s[1][0] for s in segs):
                    return segs
        return None


def ode(spec, vals, grids):
    """Closed form of the template (two linear equations)."""
    t = np.asarray(grids[spec['vars'][0]])
    y, z = spec['comps']                      # y' = -k y; z' = k y - 0.4 z
    k = vals[list(spec['params'])[0]]
    y0, z0 = [vals[v] if isinstance(v, str) else v for v in (spec['initial'][y], spec['initial'][z])]
    yy = y0 * np.exp(-k * t)
    if abs(k - 0.4) > 1e-3:
        a = k * y0 / (0.4 - k)
        zz = a * (np.exp(-k * t) - np.exp(-0.4 * t)) + z0 * np.exp(-0.4 * t)
    else:
        raise Discard('degenerate')
    return {y: yy, z: zz}


# ------------------------------------------------------------------ execute
def execute(plan, rec):
    import matplotlib.pyplot as plt
    spec = plan['spec']
    plt.close('all')
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            session(plan, rec, plt)
        finally:
            plt.close('all')


def opened(w, when):
    """Opening changes no parameter whose value lies within the range of its slider."""
    for p, v in w.at_open.items():
        lo, hi = w.range[p]
        if lo <= v <= hi and float(w.sym[p].value) != v:
            raise Violation('opening the window changes a parameter', '%s: %r -> %r' % (p, v, w.sym[p].value))


def session(plan, rec, plt):
    spec = plan['spec']
    explicit = json.loads(json.dumps(plan))
    sym = gen.make_symbols(spec)
    model = gen.make_model(spec, sym)
    if plan['openfault'] and spec['numeric']:
        f = dict(kind='user', exc='SimFault', n=1)
        before = {p: float(sym[p].value) for p in spec['params']}
        with Boom(f) as b:
            try:
                Window(plan, sym, model, rec)
            except faults.SimFault:
                pass
        plt.close('all')
        if b.fired:
            rec.faults['model raised while opening'] += 1
            if {p: float(sym[p].value) for p in spec['params']} != before:
                raise Violation('failing to open the window changes a parameter', str(before))
    w = Window(plan, sym, model, rec)
    opened(w, 'at opening')
    w.consistent('at opening')
    w.curves('at opening')
    if any(v < 0 for v, _ in w.range.values()):
        rec.probes['negative range'] += 1
    moved, fresh = False, True
    for k, e in enumerate(plan['events']):
        rec.steps += 1
        if e['kind'] == 'reopen':
            plt.close(w.fig)
            w = Window(plan, sym, model, rec)
            rec.probes['second window'] += 1
            opened(w, 'at reopening')
            w.consistent('at reopening')
            w.curves('at reopening')
            fresh = True
            rec.ev('reopen', engine.dig(w.values()))
            continue
        f = e.get('fault')
        if f is not None:
            f = resolve(f, lambda: w.event(e))
            explicit['events'][k]['fault'] = f
            if f is None:
                explicit['events'][k].pop('fault')
        rec.explicit = explicit
        failed, fired, before = False, False, w.values()
        if f is not None:
            with Boom(f) as b:
                try:
                    w.event(e)
                except BaseException as err:
                    if b.fired is None or type(err) is not faults.TYPES[f['exc']]:
                        raise
                    failed = True
            if b.fired:
                rec.faults['model raised in an update: ' + b.fired] += 1
                fired = True
        else:
            w.event(e)
        if e['kind'] != 'draw':
            moved = True
        when = 'after event %d (%s%s)' % (k, e['kind'], ', failed' if failed else '')
        rec.ev(e['kind'], str(failed), engine.dig(w.values()))
        w.consistent(when)
        if failed:
            fresh = False
        elif fired:
            fresh = True                 # no error was reported
        elif e['kind'] in ('set', 'again') or w.values() != before:
            fresh = True                 # matplotlib drops events that move nothing
        if fresh:
            w.curves(when)
    if plan['fit'] and spec['kind'] != 'ODE':
        after(plan, rec, w)
    rec.probes['several independent variables' if len(spec['vars']) > 1 else 'one independent variable'] += 1
    if len(spec['top']) > 1:
        rec.probes['several components'] += 1
    if spec['kind'] == 'ODE':
        rec.probes['ODE model'] += 1
    if any(d['fixed'] for d in spec['params'].values()):
        rec.probes['fixed parameter'] += 1
    if moved:
        rec.nontrivial(spec['comps'], spec['kind'], plan['events'], plan['n'])


def after(plan, rec, w):
    """A fit executed afterwards starts from the guess."""
    spec = json.loads(json.dumps(plan['spec']))
    for p, v in w.values().items():
        spec['params'][p]['value'] = v
    seen = []

    def handler(call, orig, args, kwargs):
        seen.append(1)
        o = peer.Oracle(spec, 'LeastSquares')
        peer.check_handover(call, o, call.minimizer_name())
        x = np.array([spec['params'][p]['value'] for p in gen.free(spec)])
        req = peer.Requests(call, o, rec)
        if call.key != 'least_squares':
            req.check_f(x, call.fun(x.copy()))
        return peer.result(call, x, np.asarray(call.fun(x)))
    peer.install(handler)
    try:
        gen.make_fit(spec, model=w.model, minimizer=gen.mins('SLSQP')).execute()
    finally:
        boot.HOOKS.clear()
    if not seen:
        raise engine.HarnessError('the fit did not reach the optimiser')
    rec.probes['fit afterwards'] += 1
