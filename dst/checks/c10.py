"""C10: work farmed out to worker processes equals serial work."""
import json
import os
import pickle
import random
import numpy as np
import boot
import engine
import faults
import gen
import jobs
import ops
import zygote
from engine import Violation, Discard
from checks import common

id = 'C10'
RUNS = dict(quick=500, thorough=20000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run sends whole fits, or the objective evaluations of a DifferentialEvolution, to a simulated pool of '
        'persistent worker processes (each with its own string-hash seed and history of tasks). A seeded scheduler '
        'decides the placement of tasks, chunks, the order in which they are done and results come back, and which '
        'tasks are delivered twice, done again because their worker died at a seeded line, or retried after an error '
        'inside the worker; results are compared with those of the same work done serially. Non-trivial: at least two '
        'tasks were done by workers. Distinct: different (work, placement, faults).')
FAULTS = ['worker died before the task', 'worker died in the middle of the task', 'worker died after the task',
          'task delivered twice', 'error inside the worker', 'tasks done out of order', 'results received out of order']
PROBES = ['whole fits', 'objective evaluations of DifferentialEvolution', 'evaluations of a pickled objective',
          'bound method of a fit', 'same model, several data sets', 'same parameters, several guesses', 'chain of minimisers',
          'constrained fit', 'stochastic minimiser with seed', 'worker did several tasks', 'originals re-executed']
REAL = common.REAL_ALL + ['real optimisers of scipy', 'pickle', 'real worker processes']
STUB = ['the pool: task queue, placement, completion order and deaths (simulated, in place of multiprocessing.Pool)',
        'user-supplied numerical components (generated)']
ASSUMES = ['Worker processes share no memory, so tasks overlap only in their placement and order; each is run to its end '
           'or to its death before the next begins.']
TIME_UNIT = 'tasks delivered to workers'
SPOT = 3

POOL = None


def setup():
    global POOL
    if POOL is None:
        POOL = zygote.Pool()


def teardown():
    global POOL
    if POOL is not None:
        POOL.close()
        POOL = None


# --------------------------------------------------------------------- plan
def plan(rng, i, tier):
    what = rng.choice(['fits', 'fits', 'fits', 'same', 'same', 'guesses', 'de', 'de', 'objective'])
    p = dict(what=what, workers=rng.choice([1, 2, 2, 3, 4]), seed=rng.randrange(1 << 30),
             proto=rng.choice([2, 4, 5]), bound=rng.random() < 0.3,
             servers=[rng.randrange(3) for _ in range(4)], _lists=['jobs', 'mishaps', 'points'])
    if what == 'fits':
        p['jobs'] = []
        for k in range(rng.choice([2, 3, 4])):
            p['jobs'].append(jobs.random_job(rng, cheap=True))
        unify(p['jobs'])
    elif what in ('same', 'guesses'):
        job = jobs.random_job(rng, cheap=True)
        p['jobs'] = [job]
        for k in range(rng.choice([1, 2, 3])):
            new = json.loads(json.dumps(job))
            if what == 'same':
                if rng.random() < 0.5:
                    rework(rng, new['spec'])
                else:
                    new['spec']['data'] = gen.cousin(rng, new['spec']['data'])
            else:
                for d in new['spec']['params'].values():
                    if not d['fixed']:
                        v = d['value'] * rng.uniform(.8, 1.25)
                        if (d['min'] is None or v > d['min']) and (d['max'] is None or v < d['max']):
                            d['value'] = round(v, 4)
            p['jobs'].append(new)
    elif what == 'de':
        spec = gen.fit_spec(rng, rng.choice(['line', 'decay', 'gauss', 'two', 'inter', 'num', 'logl']), bounds=True)
        p['jobs'] = [dict(spec=spec, constraints=[], minimizer='DifferentialEvolution',
                          options=dict(seed=rng.randrange(1000), popsize=3, maxiter=rng.choice([2, 3]), tol=0.1,
                                       updating='deferred', polish=False))]
        p['chunk'] = rng.choice([2, 3, 5])
    else:
        spec = common.make_spec(rng)
        p['jobs'] = [dict(spec=spec, constraints=[], minimizer=None, options={})]
        p['points'] = [gen.point(rng, spec) for _ in range(rng.choice([3, 6]))]
        p['chunk'] = rng.choice([1, 2])
    n = 40 if what == 'de' else 12
    p['mishaps'] = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        p['mishaps'].append(dict(task=rng.randrange(n if rng.random() < .5 else 4), kind=rng.choice(
            ['before', 'middle', 'middle', 'after', 'twice', 'error']), u=rng.random(), seed=rng.randrange(1 << 30)))
    return p


def unify(js):
    """Jobs whose parameters share a name use different names, or the same settings."""
    seen = {}
    for j in js:
        for p, d in list(j['spec']['params'].items()):
            if p in seen and seen[p] != d:
                taken = set(seen) | set(j['spec']['params']) | set(j['spec']['vars']) | set(j['spec']['comps']) | set(
                    j['spec'].get('condata', []))
                new = [q for q in gen.PNAMES if q not in taken and q not in seen]
                if new:
                    m = {p: new[0]}
                    for n in list(j['spec']['params']) + j['spec']['vars'] + list(j['spec']['comps']):
                        m.setdefault(n, n)
                    j['spec'] = gen.rename_spec(None, j['spec'], m)
                    j['constraints'] = [[c[0], ren(c[1], m), ren(c[2], m)] for c in j['constraints']]
                    p = new[0]
            seen.setdefault(p, d)


def ren(e, m):
    if isinstance(e, str):
        return m.get(e, e)
    if isinstance(e, list):
        return [e[0]] + [ren(s, m) for s in e[1:]]
    return e


def rework(rng, spec):
    """Other data for the same model."""
    for y in spec['top']:
        d = spec['data'].get(y)
        if isinstance(d, dict):
            d['vals'] = [round(v * rng.uniform(.95, 1.05) + rng.uniform(-.05, .05), 6) for v in d['vals']]


# ------------------------------------------------------------ in the worker
def work(q):
    """One task, in a worker process."""
    n = [0]
    die = q.get('die')
    if die is not None:
        if die == 'before':
            os._exit(17)

        def hook(code, line):
            n[0] += 1
            if n[0] == die:
                os._exit(17)
        if isinstance(die, int):
            boot.set_line_hook(hook)
    try:
        with np.errstate(all='ignore'):
            fn, args = pickle.loads(zygote.unb64(q['blob']))
            err = q.get('error')
            fired = 0
            if err is not None:
                f = faults.resolve(err, lambda: [fn(*a[0], **a[1]) for a in args])
                if f is not None:
                    fired = int(bool(faults.attempt(f, lambda: [fn(*a[0], **a[1]) for a in args])[0].fired))
                fn, args = pickle.loads(zygote.unb64(q['blob']))
            out = [fn(*a[0], **a[1]) for a in args]
    finally:
        boot.set_line_hook(None)
    if q.get('count'):
        pass
    blob = zygote.b64(pickle.dumps(out, q['proto']))
    if die == 'after':
        os._exit(17)
    return dict(blob=blob, fired=fired)


class SimPool(object):
    """A pool of workers under the control of a seeded scheduler."""
    def __init__(self, plan, rec):
        self.plan, self.rec = plan, rec
        self.rng = random.Random(plan['seed'])
        self.workers = [None] * plan['workers']
        self.did = [0] * plan['workers']
        self.born = 0
        self.n = 0                                   # tasks issued
        self.mishaps = {}
        for m in plan['mishaps']:
            self.mishaps.setdefault(m['task'], m)

    def worker(self, w):
        if self.workers[w] is None:
            srv = self.plan['servers'][self.born % len(self.plan['servers'])]
            self.workers[w] = POOL.session(srv)
            self.born += 1
            self.did[w] = 0
        return self.workers[w]

    def deliver(self, q):
        """Send one task to some worker, until one answers."""
        w = self.rng.randrange(len(self.workers))
        self.rec.steps += 1
        try:
            ans = self.worker(w).call('checks.c10:work', q)
        except zygote.Died:
            self.rec.ev('died', w)
            self.workers[w].close()
            self.workers[w] = None
            return None
        except zygote.Remote as e:
            raise Violation('failed in a worker: ' + e.cls.split(':')[0], e.trace)
        self.did[w] += 1
        if self.did[w] > 1:
            self.rec.probes['worker did several tasks'] += 1
        self.rec.ev('done', w)
        if ans['fired']:
            self.rec.faults['error inside the worker'] += 1
        return ans

    def run(self, calls, chunk=1):
        """calls: [(callable, args, kwargs)], results in that order."""
        groups = [calls[k:k + chunk] for k in range(0, len(calls), chunk)]
        tasks = []
        for k, g in enumerate(groups):
            fn = g[0][0]
            tasks.append((self.n + k, dict(blob=zygote.b64(pickle.dumps((fn, [(a, kw) for _, a, kw in g]),
                                                                        self.plan['proto'])), proto=self.plan['proto'])))
        base = self.n
        self.n += len(groups)
        order = list(range(len(tasks)))
        self.rng.shuffle(order)
        if order != sorted(order):
            self.rec.faults['tasks done out of order'] += 1
        got = {}
        for k in order:
            num, q = tasks[k]
            m = self.mishaps.get(num)
            kind = m['kind'] if m else None
            if kind in ('before', 'middle', 'after'):
                die = kind if kind != 'middle' else 1 + int(m['u'] ** 3 * 3000)
                ans = self.deliver(dict(q, die=die))
                if ans is None:
                    self.rec.faults['worker died ' + {'before': 'before the task', 'after': 'after the task',
                                                      'middle': 'in the middle of the task'}[kind]] += 1
                    ans = self.deliver(q)
            elif kind == 'error':
                ans = self.deliver(dict(q, error=dict(kind='line', exc='MemoryError', seed=m['seed'])))
            else:
                ans = self.deliver(q)
            if kind == 'twice':
                second = self.deliver(q)
                self.rec.faults['task delivered twice'] += 1
                if m['u'] < 0.5:
                    ans = second
            got[k] = ans['blob']
        back = list(got)
        self.rng.shuffle(back)
        if back != sorted(back):
            self.rec.faults['results received out of order'] += 1
        out = {k: pickle.loads(zygote.unb64(got[k])) for k in back}
        return [v for k in range(len(groups)) for v in out[k]]

    def map(self, fn, items):
        items = list(items)
        if not items:
            return []
        return self.run([(fn, (x,), {}) for x in items], self.plan.get('chunk', 1))

    def close(self):
        for s in self.workers:
            if s is not None:
                s.close()


def run_fit(fit, **options):
    return fit.execute(**options)


# ------------------------------------------------------------------ execute
def options(job):
    return json.loads(json.dumps(job['options']))


def execute(plan, rec):
    if POOL is None:
        raise engine.HarnessError('no servers')
    pool = SimPool(plan, rec)
    try:
        with np.errstate(all='ignore'):
            dict(fits=whole, same=whole, guesses=whole, de=evolution, objective=objective)[plan['what']](plan, rec, pool)
    finally:
        pool.close()
    if pool.n > 1 or plan['what'] != 'de':
        rec.nontrivial(plan['what'], [jobs.name(j) for j in plan['jobs']], [j['spec']['comps'] for j in plan['jobs']],
                       plan['workers'], plan['seed'], plan['mishaps'])


def whole(plan, rec, pool):
    what, js = plan['what'], plan['jobs']
    want = [ops.solo(lambda: jobs.run(j)) for j in js]
    if what == 'same':
        rec.probes['same model, several data sets'] += 1
        sym = jobs.sym_of(js[0])
        model = gen.make_model(js[0]['spec'], sym)
        fits = [jobs.build(j, sym=sym, model=model, data=gen.np_data(j['spec'])) for j in js]
        calls = [call(plan, f, j) for f, j in zip(fits, js)]
        got = pool.run(calls)
    elif what == 'guesses':
        rec.probes['same parameters, several guesses'] += 1
        # parameters are set before each task is sent
        sym = jobs.sym_of(js[0])
        fit = jobs.build(js[0], sym=sym)
        got = []
        for j in js:
            for p, d in j['spec']['params'].items():
                sym[p].value = d['value']
            got += pool.run([call(plan, fit, j)])
    else:
        fits = [jobs.build(j) for j in js]
        got = pool.run([call(plan, f, j) for f, j in zip(fits, js)])
    for j, g, w in zip(js, got, want):
        o = jobs.observe(j, g)
        rec.ev('result', engine.dig(o))
        d = gen.same_result(json.loads(json.dumps(o)), json.loads(json.dumps(w)))
        if d:
            raise Violation('the result from a worker differs from the serial one', d)
    if what in ('same', 'fits'):
        k = plan['seed'] % len(js)
        o = jobs.observe(js[k], jobs.execute(js[k], fits[k]))
        d = gen.same_result(json.loads(json.dumps(o)), json.loads(json.dumps(want[k])))
        if d:
            raise Violation('the original fit is changed by the work in workers', d)
        rec.probes['originals re-executed'] += 1
    rec.probes['whole fits'] += len(js)
    for j in js:
        if isinstance(j['minimizer'], list):
            rec.probes['chain of minimisers'] += 1
        if j['constraints']:
            rec.probes['constrained fit'] += 1
        if 'seed' in j['options']:
            rec.probes['stochastic minimiser with seed'] += 1


def call(plan, fit, job):
    if plan['bound']:
        return (fit.execute, (), options(job))
    return (run_fit, (fit,), options(job))


def evolution(plan, rec, pool):
    job = plan['jobs'][0]

    def serial():
        fit = jobs.build(job)
        return jobs.observe(job, fit.execute(workers=map, **options(job)))
    want = ops.solo(serial)
    fit = jobs.build(job)
    used = []

    def pmap(fn, items):
        used.append(1)
        return pool.map(fn, items)
    got = jobs.observe(job, fit.execute(workers=pmap, **options(job)))
    if not used:
        raise Violation('the workers option does not reach the minimiser', jobs.name(job))
    rec.ev('result', engine.dig(got))
    d = gen.same_result(json.loads(json.dumps(got)), json.loads(json.dumps(want)))
    if d:
        raise Violation('evaluations in workers change the result', d)
    rec.probes['objective evaluations of DifferentialEvolution'] += 1


def objective(plan, rec, pool):
    spec = plan['jobs'][0]['spec']
    free = gen.free(spec)
    xs = [[p[q] for q in free] for p in plan['points']]

    def serial():
        b = ops.Bench(spec)
        return [ops.enc(b.objective(list(x))) for x in xs]
    want = ops.solo(serial)
    b = ops.Bench(spec)
    got = [ops.enc(v) for v in pool.map(b.objective, xs)]
    rec.ev('values', engine.dig(got))
    d = ops.differ(json.loads(json.dumps(got)), json.loads(json.dumps(want)))
    if d:
        raise Violation('an objective answers differently in a worker', d)
    rec.probes['evaluations of a pickled objective'] += 1
