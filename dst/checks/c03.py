"""C03: an interrupted evaluation never corrupts later answers."""
import json
import traceback
import boot
import engine
import faults
import gen
import ops
from engine import Violation
from checks import common

id = 'C03'
RUNS = dict(quick=900, thorough=40000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds random models and objectives (building itself may be the operation), and does 1-4 '
        'operations each under 1-3 injected exceptions before it is done undisturbed, then further '
        'operations on the same objects and on newly built ones; non-trivial: at least one fault fired. '
        'Distinct: different (model kind, objective, operations, fault instants).')
FAULTS = ['%s at %s' % (e, w) for e in ('KeyboardInterrupt', 'MemoryError', 'SimFault')
          for w in ('a source line', 'a user call', 'the solve_ivp boundary')] + [
          '%s at a user call' % e for e in faults.COMMON_EXCS + [
              'ZeroDivisionError', 'OverflowError']]
PROBES = ['fault inside a cached property', 'fault inside an evaluation', 'fault while building',
          'fault while pickling or printing', 'call absorbed the fault', 'fault in finite differences']
REAL = common.REAL_ALL
STUB = ['user-supplied numerical components (generated)', 'the instant of exceptions']
ASSUMES = ['Exceptions strike at the start of an executed source line of symfit, in a user call, or at the '
           'boundary of scipy.integrate.solve_ivp; not inside finally/except bodies or on a with line.']


def plan(rng, i, tier):
    specs = [common.make_spec(rng, ode=0.12)]
    if rng.random() < 0.3:
        used = set(specs[0]['params']) | set(specs[0]['vars']) | set(specs[0]['comps'])
        specs.append(gen.random_spec(rng, avoid=used))
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        m = rng.randrange(len(specs))
        op = dict(m=m, **ops.random_op(rng, specs[m]))
        if rng.random() < 0.15:
            op['op'] = 'build'
        steps.append(dict(op=op, faults=[faults.random_fault(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]))
    after = [dict(m=m, **ops.random_op(rng, specs[m])) for m in range(len(specs)) for _ in range(2)]
    fresh = [dict(m=m, **ops.random_op(rng, specs[m])) for m in range(len(specs))]
    return dict(specs=specs, steps=steps, after=after, fresh=fresh,
                _lists=['steps', 'steps.*.faults', 'after', 'fresh'])


def execute(plan, rec):
    benches = [ops.Bench(s) for s in plan['specs']]

    def do(op, fresh=False):
        if op['op'] == 'build':
            b = ops.Bench(plan['specs'][op['m']])
            op = dict(op, op='call')
        else:
            b = benches[op['m']] if not fresh else ops.Bench(plan['specs'][op['m']])
        return b, op

    def plain(op, fresh=False):
        b, op = do(op, fresh)
        return json.loads(json.dumps(b.finish(op, b.do(op))))

    want = ops.solo(lambda: [[plain(s['op']) for s in plan['steps']],
                             [plain(o) for o in plan['after']],
                             [plain(o, True) for o in plan['fresh']]])
    explicit = json.loads(json.dumps(plan))
    sig = []
    for k, st in enumerate(plan['steps']):
        op = st['op']

        def raw():
            b, o = do(op)
            return b, o, b.do(o)
        for j, f in enumerate(st['faults']):
            f = faults.resolve(f, raw)
            explicit['steps'][k]['faults'][j] = f
            if f is None:
                continue
            p, outcome, v = faults.attempt(f, raw)
            rec.steps += p.steps
            rec.ev('step', str(k), op['op'], faults.label(f), str(p.fired), outcome)
            if p.fired:
                rec.faults[faults.label(f)] += 1
                if ops.LEFT:
                    raise Violation('an interrupted call leaves changed: ' + ops.LEFT, '%s under %s' % (op['op'], p.fired))
                sig.append((op['op'], p.fired, f['exc']))
                note(rec, p.fired, op, v if outcome == 'injected' else None)
            if outcome == 'other':
                raise Violation('another exception came out: ' + type(v).__name__,
                                '%s under %s: %s' % (op['op'], p.fired, ''.join(
                                    traceback.format_exception(type(v), v, v.__traceback__))[-2000:]))
            if outcome == 'value':
                if p.fired:
                    rec.probes['call absorbed the fault'] += 1
                b, o, r = v
                d = ops.differ(json.loads(json.dumps(b.finish(o, r))), want[0][k])
                if d:
                    raise Violation('wrong answer from a call that was hit by a fault: ' + op['op'],
                                    '%s: %s' % (p.fired, d))
        got = plain(op)
        rec.ev('step', str(k), op['op'], engine.dig(got))
        d = ops.differ(got, want[0][k])
        rec.explicit = explicit
        if d:
            raise Violation('wrong answer after an interrupted call: ' + op['op'], d)
    rec.explicit = explicit
    for o, w in zip(plan['after'], want[1]):
        got = plain(o)
        rec.ev('after', o['op'], engine.dig(got))
        d = ops.differ(got, w)
        if d:
            raise Violation('wrong answer from the same objects later: ' + o['op'], d)
    for o, w in zip(plan['fresh'], want[2]):
        got = plain(o, True)
        rec.ev('fresh', o['op'], engine.dig(got))
        d = ops.differ(got, w)
        if d:
            raise Violation('wrong answer from a model built afterwards: ' + o['op'], d)
    if sig:
        rec.nontrivial([s['kind'] + s['objective'] for s in plan['specs']], sig)


def note(rec, fired, op, exc=None):
    if exc is not None and any(f.name == '__get__' and f.filename.endswith('support.py')
                               for f in traceback.extract_tb(exc.__traceback__)):
        rec.probes['fault inside a cached property'] += 1
    if 'eval_' in fired or '__call__' in fired:
        rec.probes['fault inside an evaluation'] += 1
    if '__init__' in fired or '_init_' in fired or op['op'] in ('build', 'new'):
        rec.probes['fault while building'] += 1
    if op['op'] in ('pickle', 'pickleobj', 'str'):
        rec.probes['fault while pickling or printing'] += 1
    if 'finite_difference' in fired:
        rec.probes['fault in finite differences'] += 1
