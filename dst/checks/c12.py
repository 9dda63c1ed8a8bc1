"""C12: results do not depend on what ran earlier in the process."""
import json
import pickle
import random
import warnings
import numpy as np
import sympy
from sympy.core.cache import clear_cache
import boot
import engine
import faults
import gen
import jobs
import ops
import ref
import symfit
import zygote
from engine import Violation, Discard
from checks import common

id = 'C12'
RUNS = dict(quick=1100, thorough=40000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run takes a random model or fit as subject and computes its answers in a fork that has done nothing else. '
        'Then a seeded history of other work is done in one process, before the subject is built, between building and '
        'using it, between its operations, inside its user-supplied components and at seeded source lines of its '
        'evaluation: other models and fits (names in the same or in other roles), interrupted ones, failing '
        'constructions, restored pickles, cleared and evicted symbolic caches; the answers are compared. One of the '
        'other models is verified in the same way afterwards. Non-trivial: some history was done. Distinct: different '
        '(subject, history, moments).')
FAULTS = ['other work interrupted', 'construction failed', 'symbolic cache cleared', 'symbolic cache evicted',
          'symbolic cache cleared inside an evaluation', 'symbolic cache cleared in the middle of a fit']
PROBES = ['other model', 'other fit', 'restored pickle', 'same name in another role', 'same name in the same role',
          'same name with other settings', 'subject built before history', 'history inside a user call',
          'model built on the same symbols', 'fit as subject', 'ODE as subject', 'other model verified afterwards',
          'unnamed arguments', 'symbols re-declared', 'settings changed after building', 'the same work done before',
          'same expressions in another model', 'nearly the same data']
REAL = common.REAL_ALL + ['real optimisers of scipy', 'symbolic cache of sympy', 'pickle']
STUB = ['user-supplied numerical components (generated)', 'the instant of exceptions and cache clearing']
ASSUMES = ['A fork of a process that has only imported symfit answers as a fresh process.',
           'Declaring a Parameter again under the name of one that is still in use, with other settings, is the known '
           'finding D5 and happens in the dedicated probe only.']
TIME_UNIT = 'operations and pieces of other work done'

D5 = 'D5-redeclared-parameter'


# ------------------------------------------------------------------- plan
def related(rng, sub, i, same_only):
    """Another job, with names taken from the subject."""
    fit = rng.random() < 0.45
    if fit:
        job = jobs.random_job(rng, cheap=True)
    else:
        job = dict(spec=gen.random_spec(rng), constraints=[], minimizer=None, options={})
    spec = job['spec']
    names = list(spec['params']) + list(spec['vars']) + list(spec['comps']) + list(spec.get('condata', []))
    sp = sub['spec']
    pool_p, pool_v, pool_c = list(sp['params']), list(sp['vars']), list(sp['comps'])
    mapping, taken, notes = {}, set(), []
    for n in names:
        role = 'p' if n in spec['params'] else 'c' if n in spec['comps'] else 'v'
        r = rng.random()
        same = {'p': pool_p, 'v': pool_v, 'c': pool_c}[role]
        other = [x for x in pool_p + pool_v + pool_c if x not in same]
        cand = same if r < 0.5 else other if r < 0.75 else []
        cand = [x for x in cand if x not in taken]
        if cand:
            new = rng.choice(cand)
            notes.append('same' if new in same else 'role')
        else:
            new = rng.choice([x for x in gen.PNAMES + gen.VNAMES + gen.YNAMES
                              if x not in taken and x not in pool_p + pool_v + pool_c and 'sigma_' + x not in taken])
        taken.add(new)
        mapping[n] = new
    out = gen.rename_spec(rng, spec, mapping)
    for p in list(out['params']):
        if p in sp['params']:
            if same_only:
                out['params'][p] = dict(sp['params'][p])
            else:
                notes.append('settings')
    if all(d['fixed'] for d in out['params'].values()):
        return related(rng, sub, i, same_only)
    job['spec'] = out
    job['constraints'] = [[c[0], ren(c[1], mapping), ren(c[2], mapping)] for c in job['constraints']]
    return job, fit, sorted(set(notes))


def ren(e, m):
    if isinstance(e, str):
        return m.get(e, e)
    if isinstance(e, list):
        return [e[0]] + [ren(s, m) for s in e[1:]]
    return e


def event(rng, sub, i, after):
    """One piece of other work. After the subject was built, symbols of its names keep
    their settings (see ASSUMES)."""
    k = rng.choice(['model', 'model', 'fit', 'fault', 'pickle', 'clear', 'clear', 'evict', 'bad', 'unnamed', 'same',
                    'twin', 'twin', 'again', 'cousin'])
    if not after and rng.random() < 0.12:
        k = 'again'
    e = dict(kind=k)
    if k == 'clear':
        return e
    if k == 'evict':
        e['n'] = rng.choice([50, 300, 1500])
        return e
    if k == 'bad':
        e['how'] = rng.choice(['role', 'bounds', 'data', 'constraint', 'nofunc', 'shape'])
        return e
    if k == 'unnamed':
        e['n'] = rng.choice([1, 4])
        return e
    if k == 'cousin':
        if sub['spec'].get('template') is None:
            return dict(kind='clear')
        e['data'] = gen.cousin(rng, sub['spec']['data'])
        return e
    if k == 'again':
        e['clear'], e['late'] = rng.random() < 0.6, rng.random() < 0.4
        return e if not after else dict(kind='clear')
    if k == 'twin':
        sp = sub['spec']
        e['comps'] = {c: x for c, x in sp['comps'].items() if c not in sp['numeric']}
        if not e['comps']:
            return dict(kind='clear')
        syms = sorted(set().union(*[ref.names(x) for x in e['comps'].values()]) - set(sp['params']))
        e['t'] = rng.choice(syms) if syms and rng.random() < 0.8 else 'twin_t'
        e['as'] = rng.choice(['ode', 'ode', 'model', 'roles', 'roles'])
        roles = syms if len(sp['params']) < 2 else syms + sorted(sp['params'])
        e['swap'] = rng.choice([n for n in roles if n not in e['comps']] or [''])
        if e['as'] == 'roles' and not e['swap']:
            e['as'] = 'ode'
        e['integ'] = rng.choice([{}, {}, dict(method='RK45'), dict(rtol=1e-4), dict(method='RK23', atol=1e-3)])
        e['order'] = rng.sample(sorted(e['comps']), len(e['comps']))
        e['p'] = gen.point(rng, sp)
        return e
    if k == 'same':
        if not after:
            return dict(kind='clear')
        sp = sub['spec']
        e['expr'] = gen.expression(rng, list(sp['params']), list(sp['vars']), 2)
        e['p'] = gen.point(rng, sp)
        e['redeclare'] = rng.random() < 0.5
        return e
    job, fit, notes = related(rng, sub, i, after)
    e.update(job=job, notes=notes)
    if k in ('fit', 'fault') and not fit:
        e['kind'] = k = 'model' if k == 'fit' else k
    m = [o for o in ops.menu(job['spec']) if o not in ('pickle', 'pickleobj', 'new', 'connew', 'conpickle')]
    e['ops'] = [ops.random_op(rng, job['spec'], m) for _ in range(rng.choice([1, 2]))]
    if k == 'fault':
        e['fault'] = faults.random_fault(rng)
        e['fit'] = fit and rng.random() < 0.5
    if k == 'pickle':
        e['what'] = rng.choice(['model', 'objective'] + (['fit', 'result'] if fit else []))
    return e


def plan(rng, i, tier):
    if i % 500 == 0:
        return dict(what='d5')
    fit = rng.random() < 0.45
    if fit:
        job = jobs.random_job(rng, cheap=rng.random() < 0.9)
    else:
        job = dict(spec=common.make_spec(rng, ode=0.05), constraints=[], minimizer=None, options={})
    spec = job['spec']
    late = {}
    if rng.random() < 0.4:
        for p in rng.sample(sorted(spec['params']), min(2, len(spec['params']))):
            d = spec['params'][p]
            s = late[p] = dict(value=d['value'], fixed=d['fixed'])
            if rng.random() < 0.6 and not (d['min'] is not None or d['max'] is not None):
                s['value'] = round(d['value'] * rng.uniform(0.9, 1.1), 4)
            if rng.random() < 0.5:
                s['fixed'] = not d['fixed']
        if all(d['fixed'] for d in settle(spec, late)['params'].values()):
            late = {}
    first, job = job, dict(job, spec=settle(spec, late))
    spec = job['spec']
    m = [o for o in ops.menu(spec) if o not in ('new', 'connew')]
    todo = [ops.random_op(rng, spec, m) for _ in range(rng.choice([1, 2, 3]))]
    if fit:
        todo.insert(rng.randrange(len(todo) + 1), dict(op='fit'))
    hist = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        after = rng.random() < 0.6
        e = event(rng, job, i, after)
        e['at'] = -1 if not after else rng.randrange(len(todo))
        if after and e['kind'] == 'model' and rng.random() < 0.3 and spec['numeric']:
            e['inside'] = rng.choice([1, 1, 2, 5])
        if after and e['kind'] in ('clear', 'evict') and rng.random() < 0.7:
            e['line'] = rng.random()
        hist.append(e)
    return dict(what='run', job=first, late=late, ops=todo, hist=hist, verify=rng.random() < 0.4, _lists=['hist', 'ops'])


def settle(spec, late):
    """The problem after its settings were changed."""
    return dict(spec, params={p: dict(d, **late.get(p, {})) for p, d in spec['params'].items()})


# ------------------------------------------------------------------ history
def plain(x):
    return json.loads(json.dumps(x, default=engine._jsonable))


def evict(n):
    for k in range(n):
        s = sympy.Symbol('junk_%d' % k)
        if k % 5 == 0:
            sympy.sin(s * k) + s ** 2


def bad(how):
    """A construction that fails."""
    a, b = symfit.Parameter('bad_a', value=1.0), symfit.Parameter('bad_b', value=2.0)
    x, y = symfit.Variable('bad_x'), symfit.Variable('bad_y')
    if how == 'role':
        symfit.Model({a: b * x, y: a * x})
    elif how == 'bounds':
        symfit.Parameter('bad_c', value=1.0, min=3, max=2)
    elif how == 'data':
        symfit.Fit({y: a * x}, bad_x=np.arange(3.0), nonsense=np.arange(3.0))
    elif how == 'constraint':
        symfit.Fit({y: a * x}, bad_x=np.arange(3.0), bad_y=np.arange(3.0), constraints=[symfit.Ge(b, 1)])
    elif how == 'nofunc':
        symfit.Model({y: sympy.Function('nofunc')(x) * a})(bad_x=np.arange(3.0), bad_a=1.0)
    elif how == 'shape':
        symfit.Fit({y: a * x}, bad_x=np.arange(3.0), bad_y=np.arange(5.0)).execute()


def work(e, st, rec):
    """Do one piece of other work; its own failures do not matter."""
    k = e['kind']
    rec.steps += 1
    with np.errstate(all='ignore'):
        if k == 'clear':
            clear_cache()
            rec.faults['symbolic cache cleared'] += 1
        elif k == 'evict':
            evict(e['n'])
            rec.faults['symbolic cache evicted'] += 1
        elif k == 'bad':
            try:
                bad(e['how'])
            except Exception as err:
                rec.faults['construction failed'] += 1
                rec.ev('bad', e['how'], type(err).__name__)
        elif k == 'unnamed':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ps = [symfit.Parameter(value=1.5) for _ in range(e['n'])]
                vs = [symfit.Variable() for _ in range(e['n'])]
                m = symfit.Model([p * v for p, v in zip(ps, vs)])
                m(**dict({p.name: 1.0 for p in ps}, **{v.name: np.arange(2.0) for v in vs}))
            rec.probes['unnamed arguments'] += 1
        elif k == 'again':
            s = make(dict(st['plan'], late=st['plan']['late'] if e['late'] else {}))
            for op in st['plan']['ops']:
                s.do(op)
            rec.probes['the same work done before'] += 1
            del s
            if e['clear']:
                clear_cache()
                rec.faults['symbolic cache cleared'] += 1
        elif k == 'cousin':
            if e.get('want') is None:
                return
            sub = st['subject']
            job = dict(st['plan']['job'])
            if sub is not None:
                job['spec'] = settle(job['spec'], st['plan']['late'])
            job['spec'] = dict(job['spec'], data=e['data'])
            fit = jobs.build(job) if sub is None else jobs.build(job, sym=sub.sym, model=sub.model)
            got = plain(jobs.observe(job, jobs.execute(job, fit)))
            rec.probes['nearly the same data'] += 1
            d = ops.differ(got, e['want'], rtol=1e-7)
            if d:
                raise Violation('a fit of other data on the same model depends on what ran earlier', d)
        elif k == 'twin':
            if e.get('want') is None:
                return
            got = plain(twin(st['plan'], e, st['subject'] is not None))
            d = ops.differ(got, e['want'], rtol=1e-7)
            if d:
                raise Violation('the answer of a model of the same expressions depends on what ran earlier', d)
            rec.probes['same expressions in another model'] += 1
        elif k == 'same':
            sub = st['subject']
            if sub is None:
                return
            spec = sub.spec
            sym = gen.make_symbols(spec) if e['redeclare'] else sub.sym
            if e['redeclare']:
                rec.probes['symbols re-declared'] += 1
            m = symfit.Model({symfit.Variable('other_y'): ref.ev(e['expr'], sym, sympy) + sympy.S.Zero})
            first = sub.base[spec['vars'][0]] if spec['vars'] else 1.0     # one shape for all
            kw = {v.name: first for v in m.independent_vars}
            kw.update({p.name: e['p'][p.name] for p in m.params})
            got = ops.enc(m(**kw))
            want = ref.ev(e['expr'], kw, np)
            # shapes follow from the expression
            if not ref.close(np.asarray(got['other_y'][2]), np.ravel(np.asarray(want, dtype=float)), rtol=1e-9):
                raise Violation('a model built on the same symbols is wrong', str(e['expr']))
            m.eval_jacobian(**kw)
            rec.probes['model built on the same symbols'] += 1
        else:
            for n in e['notes']:
                rec.probes[{'same': 'same name in the same role', 'role': 'same name in another role',
                            'settings': 'same name with other settings'}[n]] += 1
            try:
                other(e, st, rec)
            except (Violation, Discard, engine.HarnessError):
                raise
            except Exception as err:
                rec.ev('other work failed', type(err).__name__)


def twin(plan, e, late):
    """Another model made of the expressions of the subject: an ODE whose states and time
    are its variables, or a model of which they are the components under other names."""
    spec = plan['job']['spec']
    if late:
        spec = settle(spec, plan['late'])
    sym = gen.make_symbols(dict(spec, vars=[], comps=[], condata={}))
    names = set(e['comps']).union(*[ref.names(x) for x in e['comps'].values()]) - set(spec['params'])
    for n in names | {e['t']}:
        sym[n] = symfit.Variable(n)
    ex = {c: ref.ev(e['comps'][c], sym, sympy) + sympy.S.Zero for c in e['order']}
    pv = dict(e['p'])
    if e['as'] == 'roles':
        # the same names and expressions, but a parameter is a variable or the other way around
        n = e['swap']
        sym[n] = symfit.Variable(n) if n in spec['params'] else symfit.Parameter(n, value=0.7)
        pv.setdefault(n, 0.7)
        ex = {c: ref.ev(e['comps'][c], sym, sympy) + sympy.S.Zero for c in e['order']}
        m = symfit.Model({sym[c]: x for c, x in ex.items()})
        kw = {v.name: np.array([0.4, 0.9]) + 0.1 * k for k, v in enumerate(m.independent_vars)}
        kw.update((p.name, pv[p.name]) for p in m.params)
        return [ops.enc(m(**kw)), ops.enc(m.eval_jacobian(**kw)), ops.enc(m.eval_hessian(**kw))]
    if e['as'] == 'model':
        md = {symfit.Variable('twin_' + c): x for c, x in ex.items()}
        m = symfit.Model(md)
        kw = {v.name: np.array([0.4, 0.9]) + 0.1 * k for k, v in enumerate(m.independent_vars)}
        kw.update((p.name, pv[p.name]) for p in m.params)
        return [ops.enc(m(**kw)), ops.enc(m.eval_jacobian(**kw))]
    t = sym[e['t']]
    states = [n for n in e['order'] if n != e['t']] + sorted(names - set(e['comps']) - {e['t']})
    md = {symfit.D(sym[n], t): ex.get(n, sympy.Rational(1, 10)) for n in states}
    init = {t: 0.2}
    init.update((sym[n], 0.5) for n in states)
    m = symfit.ODEModel(md, initial=init, **e['integ'])
    kw = {p.name: pv[p.name] for p in m.params}
    kw[e['t']] = np.array([0.2, 0.25, 0.3])
    return ops.enc(m(**kw))


def other(e, st, rec):
    k, job = e['kind'], e['job']
    if k == 'model':
        b = ops.Bench(job['spec'])
        st['others'].append((job, b, e))
        rec.probes['other model'] += 1
        for op in e['ops']:
            b.do(op)
    elif k == 'fit':
        rec.probes['other fit'] += 1
        jobs.run(job)
    elif k == 'fault':
        def fn():
            if e['fit']:
                return jobs.run(job)
            b = ops.Bench(job['spec'])
            for op in e['ops']:
                b.do(op)
        f = faults.resolve(e['fault'], fn)
        e['fault'] = f if f is not None else e['fault']
        if f is not None:
            p, outcome, v = faults.attempt(f, fn)
            if p.fired:
                rec.faults['other work interrupted'] += 1
    elif k == 'pickle':
        def make():
            if e['what'] in ('fit', 'result'):
                fit = jobs.build(job)
                return zygote.b64(pickle.dumps(jobs.execute(job, fit) if e['what'] == 'result' else fit))
            b = ops.Bench(job['spec'])
            for op in e['ops']:
                b.do(op)
            return zygote.b64(pickle.dumps(b.model if e['what'] == 'model' else b.objective))
        blob = ops.solo_or_none(make)
        if blob is None:
            return
        obj = pickle.loads(zygote.unb64(blob))
        rec.probes['restored pickle'] += 1
        if e['what'] == 'fit':
            jobs.execute(job, obj)
        elif e['what'] == 'model':
            b = ops.Bench.__new__(ops.Bench)
            b.spec, b.sym, b.model, b.base = job['spec'], None, obj, gen.np_data(job['spec'])
            b.op_call(e['ops'][0])


# ------------------------------------------------------------------ subject
class Subject(ops.Bench):
    def __init__(self, job, late):
        ops.Bench.__init__(self, job['spec'])
        for p, d in late.items():
            self.sym[p].value, self.sym[p].fixed = d['value'], d['fixed']
        self.spec = settle(job['spec'], late)
        self.job = dict(job, spec=self.spec)
        self.fit = None

    def prepare(self):
        self.fit = jobs.build(self.job, sym=self.sym, model=self.model)

    def op_fit(self, op):
        if self.fit is None:
            self.prepare()
        return [jobs.observe(self.job, jobs.execute(self.job, self.fit)),
                [type(self.fit.minimizer).__name__, type(self.fit.objective).__name__]]

    def answer(self, op):
        return plain(self.finish(op, self.do(op)))


def make(plan):
    s = Subject(plan['job'], plan['late'])
    if any(o['op'] == 'fit' for o in plan['ops']):
        s.prepare()
    return s


def execute(plan, rec):
    if plan['what'] == 'd5':
        return known(rec)
    spec = settle(plan['job']['spec'], plan['late'])

    def fresh():
        s = make(plan)
        return [s.answer(o) for o in plan['ops']]
    want = ops.solo(fresh)
    alone = {}
    if plan['verify']:
        for k, e in enumerate(plan['hist']):
            if e['kind'] == 'model' and len(alone) < 2 and not settings_clash(e['job']['spec'], spec):
                def fn():
                    c = ops.Bench(e['job']['spec'])
                    return plain([c.do(o) for o in e['ops']])
                alone[k] = ops.solo_or_none(fn)
    st = dict(subject=None, others=[], plan=plan)
    hist = json.loads(json.dumps(plan['hist']))
    for k, e in enumerate(hist):
        e['k'] = k
        if e['kind'] == 'cousin':
            def near():
                job = dict(plan['job'], spec=dict(
                    plan['job']['spec'] if e['at'] < 0 else spec, data=e['data']))
                return plain(jobs.observe(job, jobs.execute(job, jobs.build(job))))
            e['want'] = ops.solo_or_none(near)
        if e['kind'] == 'twin':
            def alike():
                with np.errstate(all='ignore'):
                    return plain(twin(plan, e, e['at'] >= 0))
            e['want'] = ops.solo_or_none(alike)
    if plan['late']:
        rec.probes['settings changed after building'] += 1
    explicit = json.loads(json.dumps(plan))
    explicit['hist'] = hist
    rec.explicit = explicit

    for e in hist:
        if e['at'] < 0:
            work(e, st, rec)
    sub = st['subject'] = make(plan)
    for k, op in enumerate(plan['ops']):
        now = [e for e in hist if e['at'] == k]
        for e in now:
            if 'inside' not in e and 'line' not in e:
                work(e, st, rec)
                rec.probes['subject built before history'] += 1
        got = disturbed(sub, op, now, st, rec)
        rec.ev('op', op['op'], engine.dig(got))
        rec.steps += 1
        d = ops.differ(got, want[k], rtol=1e-7)
        if d:
            raise Violation('the answer depends on what ran earlier: ' + op['op'], d)
    if plan['verify']:
        for job, b, e in st['others']:
            w = alone.get(e['k'])
            if w is None or any(settings_clash(job['spec'], h['job']['spec']) for h in hist if 'job' in h):
                continue
            with np.errstate(all='ignore'):
                got = plain([b.do(o) for o in e['ops']])
            d = ops.differ(got, w, rtol=1e-7)
            if d:
                raise Violation('the answer of another model depends on what ran later', d)
            rec.probes['other model verified afterwards'] += 1
    if any(o['op'] == 'fit' for o in plan['ops']):
        rec.probes['fit as subject'] += 1
    if spec['kind'] == 'ODE':
        rec.probes['ODE as subject'] += 1
    if hist:
        rec.nontrivial(jobs.name(plan['job']), spec['comps'], [o['op'] for o in plan['ops']],
                       [(e['kind'], e['at'], e.get('line'), e.get('inside'), e.get('notes')) for e in hist])


def settings_clash(a, b):
    return any(p in b['params'] and b['params'][p] != d for p, d in a['params'].items())


def disturbed(sub, op, now, st, rec):
    """One operation of the subject, with other work done inside it."""
    inside = [e for e in now if 'inside' in e]
    lines = [e for e in now if 'line' in e]
    total = None
    if lines and any('nth' not in e for e in lines):
        def count():
            n = [0]

            def hook(code, line):
                n[0] += 1
            boot.set_line_hook(hook)
            try:
                sub.do(op)
            finally:
                boot.set_line_hook(None)
            return n[0]
        total = ops.solo(count)
        for e in lines:
            e.setdefault('nth', 1 + int(e['line'] * max(total - 1, 0)))
    calls, busy, n = [0], [False], [0]

    def user(label):
        if busy[0]:
            return
        calls[0] += 1
        for e in inside:
            if e['inside'] == calls[0]:
                busy[0] = True
                saved = boot.LINE_HOOK
                boot.set_line_hook(None)
                try:
                    work(e, st, rec)
                    rec.probes['history inside a user call'] += 1
                finally:
                    busy[0] = False
                    boot.set_line_hook(saved)

    def hook(code, line):
        n[0] += 1
        for e in lines:
            if e['nth'] == n[0]:
                clear_cache() if e['kind'] == 'clear' else evict(e['n'])
                rec.faults['symbolic cache cleared in the middle of a fit' if op['op'] == 'fit' else
                           'symbolic cache cleared inside an evaluation'] += 1
    if inside:
        gen.USER_HOOK = user
    if lines:
        boot.set_line_hook(hook)
    try:
        with np.errstate(all='ignore'):
            raw = sub.do(op)
    finally:
        boot.set_line_hook(None)
        gen.USER_HOOK = None
    return plain(sub.finish(op, raw))


# ----------------------------------------------------------- known finding
def known(rec):
    """D5: sympy keeps one object per name, so declaring a parameter again changes the
    one that is already in use."""
    x = np.linspace(1, 3, 5)

    def run(redeclare):
        a, X, y = symfit.Parameter('a', value=1.0), symfit.Variable('x'), symfit.Variable('y')
        fit = symfit.Fit({y: a * X}, x=x, y=2.0 * x)
        if redeclare:
            symfit.Parameter('a', value=7.0, fixed=True)
        try:
            return [float(fit.execute().value(a))]
        except Exception as e:
            return ['error', type(e).__name__]
    want = ops.solo(lambda: run(False))
    got = ops.solo(lambda: run(True))
    rec.ev('d5', str(want), str(got))
    rec.steps += 2
    if ops.differ(got, want, rtol=1e-6):
        rec.known.append(D5)
