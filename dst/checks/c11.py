"""C11: orderings and results do not depend on hash order."""
import json
import random
import numpy as np
import sympy
import boot
import engine
import faults
import gen
import jobs
import ops
import peer
import ref
import zygote
from engine import Violation, Discard
from checks import common

id = 'C11'
RUNS = dict(quick=750, thorough=40000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run draws a random model (or a list of unnamed components), data, constraints and operations and lets '
        'processes with different string-hash seeds build it with seeded supply orders (model dictionary, symbol '
        'creation, data keywords or positional data, constraints, initial values, call arguments), some of them after '
        'an interrupted first attempt, and compares names, orders, texts and numbers with those of this process and '
        'with the alphabetical orders. Non-trivial: at least one other process answered. Distinct: different (model, '
        'supply orders, servers, operations).')
FAULTS = ['first construction interrupted']
PROBES = ['Model', 'GradientModel', 'CallableModel', 'Numerical', 'NumGrad', 'ODE', 'unnamed list',
          'positional data', 'positional call', 'constraints permuted', 'fit compared', 'requests compared',
          'components in another order', 'symbols in another order', 'constraint with data of its own']
REAL = common.REAL_ALL + ['real optimisers of scipy', 'real processes started with other hash seeds']
STUB = ['user-supplied numerical components (generated)', 'the optimiser, where permuted constraints are compared '
        '(simulated peer)']
ASSUMES = ['A process forked from a server that has only imported symfit is a freshly started one.',
           'The hash seed of the server is the only source of set and dictionary order differences.']
TIME_UNIT = 'operations compared'
SPOT = 4

POOL = None


def setup():
    global POOL
    if POOL is None:
        POOL = zygote.Pool()


def teardown():
    global POOL
    if POOL is not None:
        POOL.close()
        POOL = None


def variant(rng, job):
    spec = job['spec']
    names = list(spec['params']) + spec['vars'] + list(spec['comps']) + list(spec.get('condata', []))
    sh = lambda l: rng.sample(list(l), len(l))
    v = dict(server=rng.randrange(3), comps=sh(spec['order']), syms=sh(names), params=sh(spec['params']),
             data=sh(list(spec.get('data', {})) + list(spec.get('condata', []))), cons=sh(range(len(job['constraints']))), positional=rng.random() < 0.3 and ('data' not in job['spec'] or may_be_positional(job)),
             call=sh(list(spec['params']) + spec['vars']), callpos=rng.random() < 0.3,
             fault=faults.random_fault(rng, ('line',)) if rng.random() < 0.15 else None)
    if 'initial' in spec:
        v['initial'] = sh(spec['initial'])
    return v


def plan(rng, i, tier):
    if rng.random() < 0.1:                           # unnamed components
        n = rng.choice([1, 2, 3, 5, 11, 12, 14])
        ps = rng.sample(gen.PNAMES, rng.randrange(1, 4))
        vs = rng.sample([v for v in gen.VNAMES if v not in ps], 1)
        comps = [gen.expression(rng, ps, vs, 1) for _ in range(n)]
        for p in ps:
            if not any(p in ref.names(c) for c in comps):
                comps[0] = ['+', comps[0], ['*', p, vs[0]]]
        if not any(vs[0] in ref.names(c) for c in comps):
            comps[0] = ['+', comps[0], ['*', ps[0], vs[0]]]
        return dict(what='list', comps=comps, params={p: gen.const(rng) for p in ps}, vars=vs,
                    x=[gen.const(rng) for _ in range(3)], pre=rng.choice([0, 0, 1, 5]), cls=rng.choice(['Model', 'CallableModel']),
                    servers=[rng.randrange(3) for _ in range(2)], _lists=['servers'])
    fit = rng.random() < 0.45
    if fit:
        job = jobs.random_job(rng)
    else:
        job = dict(spec=common.make_spec(rng, ode=0.06), constraints=[], minimizer=None, options={})
    spec = job['spec']
    m = [o for o in ops.menu(spec) if o not in ('new', 'pickle', 'pickleobj', 'connew', 'conpickle')]
    todo = [ops.random_op(rng, spec, m) for _ in range(rng.randrange(2, 5))]
    if not any(o['op'] == 'order' for o in todo):
        todo.append(ops.random_op(rng, spec, ['order']))
    return dict(what='fit' if fit else 'model', job=job, ops=todo, variants=[variant(rng, job) for _ in range(2)],
                points=[gen.point(rng, spec) for _ in range(2)], _lists=['ops', 'variants', 'job.constraints'])


def build(job, v):
    spec = job['spec']
    if v is None:
        sym = gen.make_symbols(spec)
        return sym, gen.make_model(spec, sym)
    sym = {}
    for n in v['syms']:
        if n in spec['params']:
            d = spec['params'][n]
            sym[n] = gen.Parameter(n, value=d['value'], min=d['min'], max=d['max'], fixed=d['fixed'])
        else:
            sym[n] = gen.Variable(n)
    if 'initial' in v:
        spec = dict(spec, initial={k: spec['initial'][k] for k in v['initial'] if k in spec['initial']})
    return sym, gen.make_model(spec, sym, order=[c for c in v['comps'] if c in spec['comps']])


def positional(job, data):
    """Data in the documented order; that of a constraint after that of the model."""
    spec = job['spec']
    deps = sorted(spec['top'])
    seq = [data[x] for x in sorted(spec['vars'])]
    con = [spec['condata'][x] for x in sorted(spec['condata'])] if job['constraints'] and 'condata' in spec else []
    if spec['objective'] not in ('LogLikelihood', 'MinimizeModel'):
        return seq + [data[y] for y in deps] + con + [data['sigma_' + y] for y in deps]
    return seq


def may_be_positional(job):
    """Without data for the dependent variables nothing can come after them."""
    return job['spec']['objective'] not in ('LogLikelihood', 'MinimizeModel') \
        or not (job['constraints'] and 'condata' in job['spec'])


class B(ops.Bench):
    def __init__(self, job, v):
        spec = job['spec']
        self.spec, self.v = spec, v
        self.sym, self.model = build(job, v)
        self.base = gen.np_data(spec)
        self.objective = gen.make_objective(spec, self.model) if 'data' in spec else None

    def args(self, op):
        kw = ops.Bench.args(self, op)
        if self.v is not None:
            kw = {k: kw[k] for k in self.v['call'] if k in kw}
        return kw

    def op_call(self, op):
        if self.v is not None and self.v['callpos']:
            kw = self.args(op)
            seq = [kw[x] for x in sorted(self.spec['vars'])] + [kw[p] for p in sorted(self.spec['params'])]
            out = self.model(*seq)
            return [ops.enc(out), [str(s) for s in out.variables]]
        return ops.Bench.op_call(self, op)


def perform(q):
    """All answers of one supply order, as plain data."""
    job, v = q['job'], q['variant']
    spec = job['spec']
    out = []
    with np.errstate(all='ignore'):
        b = B(job, v)
        for op in q['ops']:
            out.append([op['op'], b.do(op)])
        out.append(['expr', expression(b, q['points'][0])])
        if q['what'] == 'fit':
            data = gen.np_data(spec)
            if job['constraints']:
                data.update(spec.get('condata', {}))
            if v is not None:
                data = {k: data[k] for k in v['data'] if k in data}
            cons = list(enumerate(job['constraints']))
            if v is not None:
                cons = [cons[k] for k in v['cons'] if k < len(cons)]
            permuted = len(cons) > 1
            sub = dict(job, constraints=[c for _, c in cons])
            if v is not None and v['positional']:
                fit = make_positional(sub, b, data)
            else:
                fit = jobs.build(sub, sym=b.sym, model=b.model, data=data)
            out.append([type(fit.minimizer).__name__, type(fit.objective).__name__,
                        [p.name for p in fit.minimizer.params], [p.name for p in fit.minimizer.parameters]])
            # what an optimiser gets
            seen = []

            def handler(call, orig, args, kwargs):
                got = dict(n=len(call.cons), b=str(call.bounds) if call.key != 'minimize' else call.bound_list(
                    len(gen.free(spec))))
                if call.x0 is not None:
                    got['x0'] = ops.enc(call.x0)
                for j, pt in enumerate(q['points']):
                    x = np.array([pt[p] for p in gen.free(spec)])
                    got['f%d' % j] = ops.enc(call.fun(x.copy()))
                    if callable(call.jac):
                        got['g%d' % j] = ops.enc(call.jac(x.copy()))
                    if callable(call.hess):
                        got['h%d' % j] = ops.enc(call.hess(x.copy()))
                    for k in range(len(call.cons)):
                        kind, f, g, h = call.constraint(k)
                        i = cons[k][0]
                        got['c%d.%d' % (i, j)] = [kind, ops.enc(f(x.copy())),
                                                  None if g is None else ops.enc(g(x.copy()))]
                seen.append(dict(sorted(got.items())))
                x = np.array([q['points'][0][p] for p in gen.free(spec)])
                return peer.result(call, x, np.asarray(call.fun(x)))
            peer.install(handler)
            try:
                fit.execute(**json.loads(json.dumps(job['options'])))
            finally:
                boot.HOOKS.clear()
            out.append(seen)
            if not permuted:
                res = jobs.execute(sub, fit)
                out.append(jobs.observe(sub, res))
                out.append([l.split()[0] for l in str(res).splitlines() if l.strip()])   # the rest holds addresses
    return out


def expression(b, pt):
    """The components as expressions, called with values in the documented order."""
    out = []
    spec = b.spec
    for c in sorted(spec['comps']):
        if c in spec['numeric']:
            continue
        names = ref.names(spec['comps'][c])
        e = ref.ev(spec['comps'][c], b.sym, sympy) + sympy.S.Zero
        if {str(s) for s in e.free_symbols} != names:
            continue
        vs = sorted(names - set(spec['params']))
        val = dict(pt, **{n: 0.3 + 0.1 * k for k, n in enumerate(vs)})
        seq = vs + sorted(names & set(spec['params']))
        out.append([c, float(e(*[val[n] for n in seq])), float(e(**val)), float(ref.ev(spec['comps'][c], val, np))])
    return out


def make_positional(job, b, data):
    spec = job['spec']
    orig = gen.symfit.Fit

    def fit(model, **kw):
        for k in data:
            kw.pop(k, None)
        return orig(model, *positional(job, data), **kw)
    gen.symfit.Fit = fit
    try:
        return jobs.build(job, sym=b.sym, model=b.model, data=data)
    finally:
        gen.symfit.Fit = orig


def unnamed(q):
    for _ in range(q['pre']):
        gen.Variable()
    sym = {p: gen.Parameter(p, value=v) for p, v in q['params'].items()}
    for v in q['vars']:
        sym[v] = gen.Variable(v)
    exprs = [ref.ev(c, sym, sympy) + sympy.S.Zero for c in q['comps']]
    m = getattr(gen.symfit, q['cls'])(exprs if len(exprs) > 1 else exprs[0])
    x = np.array(q['x'])
    with np.errstate(all='ignore'):
        out = m(**dict({v: x for v in q['vars']}, **q['params']))
        jac = ops.enc(m.eval_jacobian(**dict({v: x for v in q['vars']}, **q['params']))) if q['cls'] == 'Model' else None
    return [[ops.enc(np.broadcast_to(o, x.shape)) for o in out.output], jac]


def remote(q):
    """Runs in the other process."""
    fired = 0
    if q['what'] == 'list':
        return dict(out=unnamed(q), fired=0)
    f = q['variant']['fault']
    if f is not None:
        def first():
            b = B(q['job'], q['variant'])
            for op in q['ops']:
                b.do(op)
        f = faults.resolve(f, first)
        if f is not None:
            fired = int(bool(faults.attempt(f, first)[0].fired))
    return dict(out=perform(q), fired=fired)


def plain(x):
    return json.loads(json.dumps(x, default=engine._jsonable))


def ask(k, q):
    try:
        return POOL.call(k, 'checks.c11:remote', q)
    except zygote.Remote as e:
        raise Violation('failed in the other process: ' + e.cls.split(':')[0], e.trace)


def execute(plan, rec):
    if POOL is None:
        raise engine.HarnessError('no servers')
    if plan['what'] == 'list':
        x = np.array(plan['x'])
        want = [ops.enc(np.broadcast_to(np.asarray(ref.ev(c, dict({v: x for v in plan['vars']}, **plan['params']), np),
                                                   dtype=float), x.shape)) for c in plan['comps']]
        for k in plan['servers']:
            got = ask(k, plan)
            rec.ev('list', k, engine.dig(got['out']))
            d = ops.differ(plain(got['out'][0]), plain(want), rtol=1e-9)
            if d:
                raise Violation('unnamed components do not keep the order of the list', d)
        rec.steps = len(want)
        rec.probes['unnamed list'] += 1
        rec.nontrivial('list', plan['comps'], plan['servers'])
        return
    job = plan['job']
    spec = job['spec']
    base = dict(what=plan['what'], job=job, ops=plan['ops'], points=plan['points'], variant=None)
    want = plain(ops.solo(lambda: perform(base)))
    orders(spec, plan['ops'], want)
    for v in plan['variants']:
        got = ask(v['server'], dict(base, variant=v))
        rec.ev('variant', v['server'], engine.dig(got['out']))
        if got['fired']:
            rec.faults['first construction interrupted'] += 1
        d = compare(got['out'], want)
        if d:
            raise Violation('the session or the order of supply changes the answers', d)
        if v['positional'] and plan['what'] == 'fit':
            rec.probes['positional data'] += 1
        if v['callpos'] and any(o['op'] == 'call' for o in plan['ops']):
            rec.probes['positional call'] += 1
        if len(job['constraints']) > 1 and v['cons'] != sorted(v['cons']):
            rec.probes['constraints permuted'] += 1
        if v['comps'] != spec['order']:
            rec.probes['components in another order'] += 1
        if v['params'] != list(spec['params']):
            rec.probes['symbols in another order'] += 1
    rec.steps = len(want) * (1 + len(plan['variants']))
    rec.probes[spec['kind']] += 1
    if job['constraints'] and 'condata' in spec:
        rec.probes['constraint with data of its own'] += 1
    if plan['what'] == 'fit':
        rec.probes['requests compared'] += 1
        if len(job['constraints']) < 2:
            rec.probes['fit compared'] += 1
    if plan['variants']:
        rec.nontrivial(jobs.name(job), spec['comps'], plan['variants'], [o['op'] for o in plan['ops']])


def compare(a, b):
    return ops.differ(a, b, rtol=1e-6)


def orders(spec, todo, want):
    """The documented orders, from the names alone."""
    for c, pos, kw, true in want[len(todo)][1]:
        if not ref.close(pos, true, rtol=1e-9) or not ref.close(kw, true, rtol=1e-9):
            raise Violation('an expression does not take its values in alphabetical order', str([c, pos, kw, true]))
    for op, (name, got) in zip(todo, want):
        if name == 'call' and spec['kind'] != 'ODE':
            if got[1] != sorted(spec['comps']):
                raise Violation('components are not in alphabetical order', str(got[1]))
        if name == 'order':
            params, indep, dep, inter, free, keys, sig = got[:7]
            if params != sorted(spec['params']):
                raise Violation('parameters are not in alphabetical order', str(params))
            if free != gen.free(spec):
                raise Violation('free parameters are not in alphabetical order', str(free))
            if indep != sorted(indep) or sorted(indep) != sorted(spec['vars']):
                raise Violation('independent variables are not in alphabetical order', str(indep))
            if spec['kind'] != 'ODE':
                if keys != sorted(spec['comps']):
                    raise Violation('components are not in alphabetical order', str(keys))
                if dep != sorted(dep) or inter != sorted(inter) or sorted(dep + inter) != sorted(spec['comps']):
                    raise Violation('variables are not in alphabetical order', str([dep, inter]))
            if sig != indep + params:
                raise Violation('the signature is not in the documented order', str(sig))
