"""C01: threads sharing a model or objective."""
import json
import boot
import engine
import gen
import ops
import sched
from engine import Violation
from checks import common

id = 'C01'
RUNS = dict(quick=1200, thorough=40000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds 1-2 random models and their objectives, shared by 2-4 simulated threads doing '
        '1-4 random operations each (first use included) under a seeded schedule; non-trivial: at '
        'least one preemption happened inside symfit or user code while another thread was unfinished. '
        'Distinct: different (model kind, objective, operations, preemption sites).')
FAULTS = ['preemption at a source line', 'preemption inside user code', 'stall until the others finish']
PROBES = ['preempted while building a cached property', 'preempted inside an evaluation',
          'two threads inside the same cached property', 'lock contended']
REAL = common.REAL_ALL + ['real Python threads, parked and released one at a time']
STUB = ['thread scheduler (seeded)', 'threading.Lock/RLock (scheduler-aware)', 'user-supplied numerical components (generated)']
ASSUMES = ['Preemption points are the source lines of symfit, calls of user components and contended locks; '
           'code inside sympy, numpy and scipy is executed without preemption.']


def plan(rng, i, tier):
    specs = [common.make_spec(rng)]
    if rng.random() < 0.25:
        used = set(specs[0]['params']) | set(specs[0]['vars']) | set(specs[0]['comps'])
        specs.append(gen.random_spec(rng, avoid=used))
    focus = rng.random()
    threads = []
    nt = rng.choice([2, 2, 2, 3, 4])
    shared = ops.random_op(rng, specs[0])['op']
    for t in range(nt):
        todo = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            m = rng.randrange(len(specs))
            # often all threads use the same operation first, with different inputs
            only = [shared] if focus < 0.5 and m == 0 else None
            todo.append(dict(m=m, **ops.random_op(rng, specs[m], only)))
        threads.append(dict(ops=todo))
    warm = [dict(m=m, **ops.random_op(rng, specs[m])) for m in range(len(specs))
            if rng.random() < 0.3]
    after = [dict(m=m, **ops.random_op(rng, specs[m])) for m in range(len(specs)) for _ in range(2)]
    return dict(specs=specs, threads=threads, warm=warm, after=after,
                policy=common.random_policy(rng),
                _lists=['threads', 'threads.*.ops', 'warm', 'after', 'policy.switches'])


def execute(plan, rec):
    boot_benches = [ops.Bench(s) for s in plan['specs']]      # nothing evaluated yet

    def run(benches, op):
        b = benches[op['m']]
        return b.finish(op, b.do(op))

    def sequential():
        prof = {}
        out = []
        for op in plan['warm']:
            run(boot_benches, op)
        for t in plan['threads']:
            res = []

            def body():
                for op in t['ops']:
                    res.append(boot_benches[op['m']].do(op))
            if plan['policy']['kind'] == 'sites':
                # the profile is taken on fresh objects for every thread
                p = common.profile_lines(body)
                for k, v in p.items():
                    prof[k] = max(prof.get(k, 0), v)
            else:
                body()
            out.append([boot_benches[op['m']].finish(op, r) for op, r in zip(t['ops'], res)])
        aft = [run(boot_benches, op) for op in plan['after']]
        return [prof, out, aft]
    prof, want, want_after = ops.solo(sequential)
    benches = boot_benches
    for op in plan['warm']:
        run(benches, op)
    results = [[] for _ in plan['threads']]

    def body(k):
        def f():
            for op in plan['threads'][k]['ops']:
                results[k].append(benches[op['m']].do(op))
        return f
    S = sched.Sched(common.policy_of(plan['policy'], prof))
    for k in range(len(plan['threads'])):
        S.spawn(body(k))
    gen.USER_HOOK = lambda label: sched.user_point('user:' + label)
    tasks = S.run()
    gen.USER_HOOK = None
    rec.steps = S.step
    rec.explicit = dict(plan, policy=dict(kind='listed', switches=S.switches))
    note(rec, S, plan)
    common.check_threads(tasks)
    for k, t in enumerate(plan['threads']):
        for op, r, w in zip(t['ops'], results[k], want[k]):
            got = json.loads(json.dumps(benches[op['m']].finish(op, r)))
            rec.ev('thread', str(k), op['op'], engine.dig(got))
            d = ops.differ(got, w)
            if d:
                raise Violation('wrong answer under threads: ' + op['op'],
                                'thread %d %s: %s' % (k, op['op'], d))
    for op, w in zip(plan['after'], want_after):
        got = json.loads(json.dumps(run(benches, op)))
        rec.ev('after', op['op'], engine.dig(got))
        d = ops.differ(got, w)
        if d:
            raise Violation('model answers differently afterwards: ' + op['op'], d)


def note(rec, S, plan):
    for where in S.trace:
        if where.startswith('user'):
            rec.faults['preemption inside user code'] += 1
        elif where == 'lock':
            rec.probes['lock contended'] += 1
        else:
            rec.faults['preemption at a source line'] += 1
            if 'support.py' in where and '__get__' in where:
                rec.probes['preempted while building a cached property'] += 1
            elif 'eval_' in where or '__call__' in where:
                rec.probes['preempted inside an evaluation'] += 1
    if plan['policy']['kind'] == 'sites':
        rec.faults['stall until the others finish'] += len(S.trace)
    if S.trace:
        rec.nontrivial([s['kind'] + s['objective'] for s in plan['specs']],
                       [[o['op'] for o in t['ops']] for t in plan['threads']], S.trace[:400])


def shrinks(plan):
    """Simplify operations and parameter values."""
    for k, t in enumerate(plan['threads']):
        for j, op in enumerate(t['ops']):
            if op['s'] != 1.0:
                c = json.loads(json.dumps(plan))
                c['threads'][k]['ops'][j]['s'] = 1.0
                yield c
