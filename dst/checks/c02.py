"""C02: fits run in parallel threads."""
import json
import threading
import warnings
import boot
import engine
import gen
import jobs
import ops
import sched
import numpy as np
from engine import Violation
from checks import common

id = 'C02'
RUNS = dict(quick=620, thorough=30000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run executes 2-3 fits (random problem, minimiser or chain, constraints, options) in simulated '
        'threads, with separate models or one shared model/parameters/data, some built inside their '
        'thread, plus threads that create unnamed arguments; non-trivial: at least one preemption in '
        'symfit or user code. Distinct: different (jobs, sharing, preemption sites).')
FAULTS = ['preemption at a source line', 'preemption inside user code', 'stall until the others finish',
          'matrix inversion failed']
PROBES = ['preempted inside an objective', 'preempted while building a fit', 'preempted while reporting',
          'shared model', 'shared model, nearly the same data', 'lock contended', 'same minimiser in two threads', 'unnamed arguments created']
REAL = common.REAL_ALL + ['real optimisers of scipy', 'real Python threads, parked and released one at a time']
STUB = ['thread scheduler (seeded)', 'threading.Lock/RLock (scheduler-aware)']
ASSUMES = ['Preemption points are the source lines of symfit, calls of user components and contended locks.',
           'MINPACK "lm" and LSODA, which keep state in Fortran, are not used.']


def plan(rng, i, tier):
    shared = rng.random() < 0.5
    nt = rng.choice([2, 2, 2, 3])
    threads, used = [], set()
    base = None
    alike = rng.random() < 0.4
    for t in range(nt):
        data = None
        used0 = set(used)
        if shared and base is not None:
            spec = base
        else:
            for _ in range(20):
                job = jobs.random_job(rng)
                names = set(job['spec']['params'])
                if not names & used:
                    break
            used |= names
            spec = job['spec']
            if base is None:
                base = spec
        if shared:
            job = jobs.random_job(rng, spec=spec)
        if threads and alike:
            job = like(rng, threads[0]['job'], job, used0 if not shared else None)
            used |= set(job['spec']['params'])
        if shared:
            if rng.random() < 0.4:
                data = gen.cousin(rng, spec['data'])
        threads.append(dict(job=job, data=data, inside=rng.random() < 0.7, repeat=rng.choice([1, 1, 1, 2]),
                            inv=rng.choice([1, 1, 2]) if rng.random() < 0.35 else 0))
    if rng.random() < 0.15:
        threads = threads[:1] if rng.random() < 0.5 else []
        for _ in range(rng.choice([2, 3])):
            threads.append(dict(unnamed=[rng.choice('pv') for _ in range(rng.randrange(1, 5))]))
    return dict(shared=shared, sharedata=rng.random() < 0.7, threads=threads,
                policy=common.random_policy(rng),
                _lists=['threads', 'policy.switches', 'threads.*.job.constraints', 'threads.*.unnamed'])


def like(rng, first, job, used):
    """Another job for the minimiser of the first one, where there is one."""
    for _ in range(25):
        if job['minimizer'] == first['minimizer']:
            break
        if used is None:
            spec = json.loads(json.dumps(first['spec']))
            new = jobs.random_job(rng, spec=spec)
            if new['spec'] != first['spec']:
                continue
            new['spec'] = first['spec']
        else:
            new = jobs.random_job(rng)
            if set(new['spec']['params']) & used:
                continue
        if new['minimizer'] == first['minimizer']:
            return new
    return job


class Inversions:
    """numpy.linalg.inv that fails the first times a thread asks for it."""
    def __init__(self):
        self.left = {}
        self.failed = 0

    def __call__(self, orig, a):
        me = threading.get_ident()
        if self.left.get(me):
            self.left[me] -= 1
            self.failed += 1
            raise np.linalg.LinAlgError('Singular matrix')
        return orig(a)

    def run(self, n, f, *args):
        me = threading.get_ident()
        self.left[me] = n
        try:
            return f(*args)
        finally:
            self.left[me] = 0


def execute(plan, rec):
    threads = plan['threads']
    jobs_ = [t['job'] for t in threads if 'job' in t]
    if not threads or (plan['shared'] and len({json.dumps(j['spec'], sort_keys=True) for j in jobs_}) > 1):
        raise engine.Discard('no threads')
    pol = plan['policy']

    def own(t):
        """The job of a thread, with its own data."""
        if t.get('data') is None:
            return t['job']
        return dict(t['job'], spec=dict(t['job']['spec'], data=t['data']))

    def alone(t):
        def f():
            prof = {}
            out = []

            def body():
                fit = jobs.build(own(t))
                inv = boot.HOOKS['inv'] = Inversions()
                for _ in range(t['repeat']):
                    out.append(jobs.observe(t['job'], inv.run(t.get('inv', 0), jobs.execute, t['job'], fit)))
            if pol['kind'] == 'sites':
                prof = common.profile_lines(body)
            else:
                body()
            return [out, prof]
        return f
    want, prof = [], {}
    for t in threads:
        if 'job' not in t:
            want.append(None)
            if pol['kind'] == 'sites':
                prof.update(ops.solo(lambda: common.profile_lines(lambda: make_unnamed('pv'))))
            continue
        w, p = ops.solo(alone(t))
        want.append(w)
        for k, v in p.items():
            prof[k] = max(v, prof.get(k, 0))

    group = None
    if plan['shared'] and jobs_:
        spec = jobs_[0]['spec']
        sym = gen.make_symbols(spec)
        group = dict(sym=sym, model=gen.make_model(spec, sym),
                     data=gen.np_data(spec) if plan['sharedata'] else None)
        rec.probes['shared model'] += 1
    results = [None] * len(threads)

    def make(t):
        if group is not None:
            if t.get('data') is not None:
                rec.probes['shared model, nearly the same data'] += 1
                return jobs.build(own(t), **dict(group, data=None))
            return jobs.build(t['job'], **group)
        return jobs.build(own(t))
    pre = [make(t) if 'job' in t and not t['inside'] else None for t in threads]

    def body(k):
        t = threads[k]

        def f():
            if 'unnamed' in t:
                results[k] = make_unnamed(t['unnamed'])
                return
            fit = pre[k] if pre[k] is not None else make(t)
            results[k] = []
            for _ in range(t['repeat']):
                r = inv.run(t.get('inv', 0), jobs.execute, t['job'], fit)
                results[k].append((r, jobs.observe(t['job'], r)))
        return f
    inv = boot.HOOKS['inv'] = Inversions()
    S = sched.Sched(common.policy_of(pol, prof))
    for k in range(len(threads)):
        S.spawn(body(k))
    gen.USER_HOOK = lambda label: sched.user_point('user:' + label)
    tasks = S.run()
    gen.USER_HOOK = None
    boot.HOOKS.pop('inv')
    rec.steps = S.step
    if inv.failed:
        rec.faults['matrix inversion failed'] += inv.failed
    ms = [json.dumps(t['job']['minimizer']) for t in threads if 'job' in t]
    if len(set(ms)) < len(ms):
        rec.probes['same minimiser in two threads'] += 1
    rec.explicit = dict(plan, policy=dict(kind='listed', switches=S.switches))
    note(rec, S, plan)
    common.check_threads(tasks)
    names = []
    for k, t in enumerate(threads):
        if 'unnamed' in t:
            rec.probes['unnamed arguments created'] += len(results[k])
            names += results[k]
            rec.ev('thread', str(k), results[k])
            continue
        for (res, got), w in zip(results[k], want[k]):
            got = json.loads(json.dumps(got))
            rec.ev('thread', str(k), jobs.name(t['job']), engine.dig(got['params']), str(got['nit']))
            d = gen.same_result(got, w, rtol=1e-9)
            if d:
                raise Violation('fit reports another result in parallel: ' + d.split(':')[0].split(' ')[0],
                                '%s: %s' % (jobs.name(t['job']), d))
            # the result must stay what it is once all threads are done
            again = json.loads(json.dumps(jobs.observe(t['job'], res)))
            d = gen.same_result(again, w, rtol=1e-9)
            if d:
                raise Violation('result changed after the threads ended', d)
    dup = sorted({n for n in names if names.count(n) > 1})
    if dup:
        raise Violation('generated name used twice', str(dup))


def make_unnamed(kinds):
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k in kinds:
            out.append(str((gen.Parameter if k == 'p' else gen.Variable)()))
    return out


def note(rec, S, plan):
    for where in S.trace:
        if where.startswith('user'):
            rec.faults['preemption inside user code'] += 1
        elif where == 'lock':
            rec.probes['lock contended'] += 1
        else:
            rec.faults['preemption at a source line'] += 1
            if 'objectives.py' in where:
                rec.probes['preempted inside an objective'] += 1
            elif '__init__' in where or '_init_' in where:
                rec.probes['preempted while building a fit'] += 1
            elif 'fit_results.py' in where or 'ovariance' in where:
                rec.probes['preempted while reporting'] += 1
    if plan['policy']['kind'] == 'sites':
        rec.faults['stall until the others finish'] += len(S.trace)
    if S.trace:
        rec.nontrivial(plan['shared'], [jobs.name(t['job']) if 'job' in t else t['unnamed'] for t in plan['threads']],
                       S.trace[:400])


def shrinks(plan):
    for k, t in enumerate(plan['threads']):
        for key, v in (('repeat', 1), ('inside', False), ('inv', 0)):
            if t.get(key) not in (None, v):
                c = json.loads(json.dumps(plan))
                c['threads'][k][key] = v
                yield c
