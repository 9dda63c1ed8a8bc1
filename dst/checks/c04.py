"""C04: a failed or interrupted fit reports nothing, changes nothing, can be re-run."""
import json
import os
import random
import traceback
import warnings
import numpy as np
import boot
import engine
import faults
import gen
import jobs
import ops
from engine import Violation
from checks import common

id = 'C04'
RUNS = dict(quick=800, thorough=40000)
SOFT = dict(quick=120, thorough=3000)
RULE = ('A run builds one fit (random problem, minimiser or chain, constraints, options) and executes it along '
        'a random history of undisturbed and interrupted executions, the last one undisturbed; non-trivial: '
        'at least one fault fired. Distinct: different (job, fault instants).')
FAULTS = ['%s at %s' % (e, w) for e in ('KeyboardInterrupt', 'MemoryError', 'SimFault')
          for w in ('a source line', 'a user call', 'the minimize boundary', 'the inv boundary',
                    'the least_squares boundary', 'the differential_evolution boundary', 'the basinhopping boundary',
                    'the solve_ivp boundary')] + [
          '%s at %s' % (e, w) for e in faults.COMMON_EXCS for w in ('a user call', 'the minimize boundary')]
PROBES = ['fault in a later stage of a chain', 'fault after the optimiser finished', 'fault inside an objective',
          'fault while building the fit', 'fault inside a constraint', 'guess or bound changed in between',
          'other options in the failed execution']
REAL = common.REAL_ALL + ['real optimisers of scipy']
STUB = ['user-supplied numerical components (generated)', 'the instant of exceptions']
ASSUMES = ['Exceptions strike at the start of an executed source line of symfit, in a user call, or at the '
           'boundary of the scipy optimisers, solve_ivp and numpy.linalg.inv.']


def plan(rng, i, tier):
    r = rng.random()
    job = jobs.random_job(rng, template='num' if r < 0.25 else None)
    hist = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.35:
            hist.append(None)
        if rng.random() < 0.15:
            hist.append(change(rng, job['spec']))
        f = faults.random_fault(rng, ('line', 'user', 'lib', 'user', 'user', 'late') if r < 0.25 else
                                ('line', 'line', 'lib', 'user', 'lib', 'late'))
        if rng.random() < 0.2 and job['minimizer'] is not None:
            # with other options than the execution that counts
            f['options'] = gen.min_options(rng, job['minimizer'])
            if isinstance(job['minimizer'], str) and job['minimizer'] in MORE:
                f['options'].update(rng.choice(MORE[job['minimizer']]))
        hist.append(f)
    if rng.random() < 0.25:
        hist.append(change(rng, job['spec']))
    return dict(job=job, hist=hist, build=rng.random() < 0.1, _lists=['hist', 'job.constraints'])


MORE = dict([(m, [dict(tol=1e-2), dict(options=dict(maxiter=3)), dict(options=dict(maxiter=5), tol=1e-4)])
             for m in ('BFGS', 'SLSQP', 'COBYLA', 'LBFGSB', 'NelderMead', 'Powell', 'TrustConstr')] + [
                 ('MINPACK', [dict(max_nfev=4), dict(ftol=1e-2, xtol=1e-2), dict(loss='soft_l1')])])


def change(rng, spec):
    """The user sets another guess, or another bound, between two executions."""
    p = rng.choice(gen.free(spec))
    d = spec['params'][p]
    what = 'value'
    if d['min'] is not None and d['max'] is not None and rng.random() < 0.3:
        what = rng.choice(['min', 'max'])
        to = d[what] + (0.3 if what == 'min' else -0.3) * abs(d['value'] - d[what])
    elif d['min'] is not None and d['max'] is not None:
        to = d['value'] + rng.uniform(-.4, .4) * min(d['value'] - d['min'], d['max'] - d['value'])
    else:
        to = d['value'] * rng.uniform(.9, 1.1)
    return dict(kind='set', p=p, what=what, to=round(to, 4))


def snapshot(fit, sym):
    return dict(pars={n: [repr(s.value), repr(s.min), repr(s.max), s.fixed] for n, s in sym.items()
                      if isinstance(s, gen.Parameter)},
                data={str(k): None if v is None else np.asarray(v).tolist() for k, v in fit.data.items()},
                cons=[str(c) for c in fit.constraints],
                geterr=np.geterr(), random=str(np.random.get_state()[1:]), pyrandom=str(hash(random.getstate())),
                warnings=[str(w) for w in warnings.filters], environ=sorted(os.environ.items()), cwd=os.getcwd(),
                minimizer=minimizer(fit.minimizer))


def minimizer(m):
    """What a user reads from the minimiser of a fit."""
    out = dict(kind=type(m).__name__, params=[str(p) for p in m.params],
               guesses=[float(v) for v in m.initial_guesses], bounds=repr(getattr(m, 'bounds', None)))
    if hasattr(m, 'minimizers'):
        # (the stages take their guesses from the stage before)
        out['stages'] = [dict(minimizer(s), guesses=None) for s in m.minimizers]
    return out


def execute(plan, rec):
    job = plan['job']
    want = ops.solo(lambda: undisturbed(job, plan['hist']))
    sym = jobs.sym_of(job)
    explicit = json.loads(json.dumps(plan))
    sig = []
    if plan['build']:
        f = explicit['build'] if isinstance(explicit['build'], dict) else dict(
            kind='line', exc='SimFault', seed=len(json.dumps(job)))
        f = faults.resolve(f, lambda: jobs.build(job, sym))
        if f is not None:
            explicit['build'] = f
            p, outcome, v = faults.attempt(f, lambda: jobs.build(job, sym))
            rec.ev('build', str(p.fired), outcome)
            if outcome == 'other':
                raise Violation('another exception came out of building a fit: ' + type(v).__name__,
                                tb(v))
            if p.fired:
                rec.probes['fault while building the fit'] += 1
                sig.append(p.fired)
    fit = jobs.build(job, sym)
    for k, f in enumerate(plan['hist'] + [None]):
        if f is not None and f['kind'] == 'set':
            setattr(sym[f['p']], f['what'], f['to'])
            rec.probes['guess or bound changed in between'] += 1
            continue
        before = snapshot(fit, sym)

        options = f.get('options') if f is not None else None

        def run():
            return jobs.execute(job, fit, options)
        if f is not None:
            f = faults.resolve(dict(f, kind='line') if f['kind'] == 'late' else f,
                               run) if f['kind'] != 'late' else late(f, run)
            explicit['hist'][k] = f
            if f is not None and options is not None:
                f['options'] = options
                rec.probes['other options in the failed execution'] += 1
        if f is None:
            got = json.loads(json.dumps(jobs.observe(job, run())))
            rec.ev('execute', engine.dig(got['params']), str(got['nit']), got['message'])
            d = gen.same_result(got, want.pop(0), rtol=1e-9)
            rec.explicit = explicit
            if d:
                raise Violation('another result after a failed execution: ' + d.split(':')[0].split(' ')[0], d)
        else:
            rec.explicit = explicit
            p, outcome, v = faults.attempt(f, run)
            rec.steps += p.steps
            rec.ev('execute', faults.label(f), str(p.fired), outcome)
            if p.fired:
                rec.faults[faults.label(f)] += 1
                sig.append(p.fired)
                note(rec, p)
            if p.fired and outcome == 'value':
                raise Violation('a result is reported although the execution was cut short',
                                '%s gave %s' % (p.fired, str(v)[:500]))
            if outcome == 'other' and not chained(v):
                raise Violation('another exception came out: ' + type(v).__name__,
                                '%s: %s' % (p.fired, tb(v)))
        after = snapshot(fit, sym)
        for key in before:
            if before[key] != after[key]:
                raise Violation('execution changed ' + key, '%s -> %s' % (before[key], after[key]))
    if sig:
        rec.nontrivial(jobs.name(job), sig)


def undisturbed(job, hist):
    """What the executions of a history report that are not disturbed, without the others."""
    sym = jobs.sym_of(job)
    fit = jobs.build(job, sym)
    out = []
    for f in hist + [None]:
        if f is None:
            out.append(jobs.observe(job, jobs.execute(job, fit)))
        elif f['kind'] == 'set':
            setattr(sym[f['p']], f['what'], f['to'])
    return out


def late(f, run):
    """A line fault among the lines executed after the optimiser has returned: chosen
    from the lines of the results and the covariance."""
    def profile():
        with faults.Probe() as p:
            run()
        return {s: n for s, n in p.sites.items()
                if 'fit_results.py' in s or 'ovariance' in s or '_pack_output' in s or 'fit.py' in s}
    sites = ops.solo(profile)
    if not sites:
        return None
    rng = random.Random(f['seed'])
    st = sorted(sites)[rng.randrange(len(sites))]
    exc = f['exc'] if f['exc'] in faults.EXCS else 'SimFault'
    return dict(kind='site', exc=exc, site=st, n=rng.randrange(1, sites[st] + 1))


def chained(e):
    while e is not None:
        if 'injected at' in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


def tb(v):
    return ''.join(traceback.format_exception(type(v), v, v.__traceback__))[-2000:]


def note(rec, p):
    w = p.fired
    if 'objectives.py' in w:
        rec.probes['fault inside an objective'] += 1
    if 'fit_results.py' in w or 'ovariance' in w or 'inv' in w or w.startswith('after'):
        rec.probes['fault after the optimiser finished'] += 1
    if sum(p.libs.get(k, 0) for k in boot.OPTIMISERS) > 1:
        rec.probes['fault in a later stage of a chain'] += 1
    if 'constraint' in w:
        rec.probes['fault inside a constraint'] += 1
