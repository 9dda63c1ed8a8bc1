"""
Command line of the simulator.

  main.py check ID            run the campaign of one property (VERIF_SEED, VERIF_TIER)
  main.py replay FILE         re-execute a replay file
  main.py determinism ID N    run N plans twice (fresh processes, other worker count,
                              other PYTHONHASHSEED) and compare the event logs
  main.py run ID I            execute run I once and print its record
"""
import os
import sys

ENV = dict(PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1')
if __name__ == '__main__' and os.environ.get('DST_BOOTED') != '1':
    env = dict(os.environ)
    hs = env.get('DST_HASHSEED')
    env.update(ENV)
    if hs:
        env['PYTHONHASHSEED'] = hs
    env['DST_BOOTED'] = '1'
    env.pop('PYTHONPATH', None)
    if 'MPLCONFIGDIR' not in env:
        env['MPLCONFIGDIR'] = '/opt/venv/mplconfig' if os.path.isdir('/opt/venv/mplconfig') else '/tmp'
    py = os.environ.get('DST_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)
    os.execve(py, [py, '-u', os.path.abspath(__file__)] + sys.argv[1:], env)

import json            # noqa: E402
import time            # noqa: E402
import shutil          # noqa: E402
import importlib       # noqa: E402
import subprocess      # noqa: E402
import traceback       # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
WORKERS = int(os.environ.get('DST_WORKERS', '8'))


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def known_findings(pid):
    with open(os.path.join(VERIF, 'known_findings.json')) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == pid]


def write_replay(pid, plan, cls, detail, seed, run):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, '%s-%d-%d.json' % (pid, seed, n))):
        n += 1
    path = os.path.join(d, '%s-%d-%d.json' % (pid, seed, n))
    with open(path, 'w') as fh:
        json.dump(dict(property=pid, seed=seed, run=run, violation=cls, detail=detail, plan=plan),
                  fh, indent=1)
    return path


def cmd_replay(path):
    import engine
    with open(path) as fh:
        rep = json.load(fh)
    check = load(rep['property'])
    if hasattr(check, 'setup'):
        check.setup()
    try:
        res = engine.run_plan(check, rep['plan'])
    finally:
        if hasattr(check, 'teardown'):
            check.teardown()
    print('replay of %s: %s %s log=%s' % (path, res['status'], res['cls'], res['hash']))
    if res['status'] == 'violation':
        print(res['detail'])
        for line in res['log'][-20:]:
            print('   |', line)
        if res['cls'] == rep['violation']:
            print('VIOLATION property=%s replay=%s' % (rep['property'], path))
            return 1
        print('another violation than the recorded %s' % rep['violation'])
        return 1
    return 0 if res['status'] in ('ok', 'discard') else 2


def reproduces(path, cls):
    """Replay in a fresh interpreter."""
    env = {k: v for k, v in os.environ.items() if k != 'DST_BOOTED'}
    p = subprocess.run([sys.executable, os.path.join(HERE, 'main.py'), 'replay', path],
                       capture_output=True, text=True, env=env, timeout=400)
    return p.returncode == 1 and 'VIOLATION property=' in p.stdout


def cmd_check(pid):
    import engine
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    print('property %s seed %d tier %s' % (pid, seed, tier))
    check = load(pid)
    if hasattr(check, 'setup'):
        check.setup()
    try:
        return _check(engine, check, pid, seed, tier, t0)
    finally:
        if hasattr(check, 'teardown'):
            check.teardown()


def _check(engine, check, pid, seed, tier, t0):
    runs = int(os.environ.get('DST_RUNS', check.RUNS[tier]))
    soft = float(os.environ.get('DST_SOFT', check.SOFT[tier]))
    agg = engine.campaign(check, seed, tier, runs, WORKERS, t0 + soft)
    t_search = time.time() - t0

    # ---- violations -> shrink -> replay file -> replay in a fresh process
    lines, unconfirmed, done = [], [], set()
    for v in agg['violations']:
        if v['cls'] in done or len(done) >= 2:
            continue
        done.add(v['cls'])
        start = v['explicit'] or v['plan']
        best, tries = v['plan'], 0
        for cand in ([v['explicit']] if v['explicit'] else []) + [v['plan']]:
            res = engine.run_plan(check, cand)
            if res['status'] == 'violation' and res['cls'] == v['cls']:
                best, tries = engine.shrink(check, cand, v['cls'], time.time() + 90)
                break
        res = engine.run_plan(check, best)
        if res['cls'] != v['cls']:
            best, res = v['plan'], v
        path = write_replay(pid, best, v['cls'], res['detail'], seed, v['i'])
        ok = reproduces(path, v['cls'])
        if not ok and best is not v['plan']:
            path = write_replay(pid, v['plan'], v['cls'], v['detail'], seed, v['i'])
            ok = reproduces(path, v['cls'])
        print('run %d violates: %s\n%s\n(minimised in %d tries; replay confirmed in a fresh process: %s)'
              % (v['i'], v['cls'], res['detail'], tries, ok))
        for line in res['log'][-12:]:
            print('   |', line)
        (lines if ok else unconfirmed).append('VIOLATION property=%s replay=%s' % (pid, path))
    if not lines and unconfirmed and len(agg['violations']) > 1:
        lines = unconfirmed

    # ---- determinism spot check: the first runs again, compared by event log
    mism = []
    if not agg['violations']:
        for i in sorted(agg['hashes'])[:check.SPOT if hasattr(check, 'SPOT') else 6]:
            res = engine.run_plan(check, check.plan(engine.rng_for(seed, pid, i), i, tier))
            if res['hash'] != agg['hashes'][i]:
                mism.append(i)
    wall = time.time() - t0
    cov = dict(
        evaluations=agg['evaluations'], distinct_nontrivial=len(agg['sigs']), rule=check.RULE,
        samples=agg['samples'] or [dict(note='no run completed')],
        planned_runs=runs, truncated_by_deadline=agg['truncated'], discarded=agg['discards'],
        nontrivial_runs=agg['nontrivial'],
        runs_per_hour=round(agg['evaluations'] / max(t_search, 1e-9) * 3600),
        seeds_per_hour=round(agg['evaluations'] / max(t_search, 1e-9) * 3600),
        simulated_time_steps=agg['steps'],
        simulated_time_unit=getattr(check, 'TIME_UNIT', 'executed source lines of symfit and user-code calls'),
        faults_injected=dict(sorted(dict({k: 0 for k in check.FAULTS}, **agg['faults']).items())),
        probes=dict(sorted(dict({k: 0 for k in getattr(check, 'PROBES', [])}, **agg['probes']).items())),
        distinct_interleavings=len(agg['sigs']),
        distinct_measure=getattr(check, 'MEASURE', 'distinct signatures of (plan shape, executed schedule, faults fired)'),
        real_components=check.REAL, stubbed_components=check.STUB,
        determinism=dict(respun_runs=min(len(agg['hashes']), getattr(check, 'SPOT', 6)) if not agg['violations'] else 0,
                         event_log_mismatches=mism))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=check.ASSUMES, wall_s=round(wall, 2), violations=len(agg['violations']))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')

    for k in known_findings(pid):
        if agg['known'].get(k['id']):
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']))
    print('%d runs (%d distinct non-trivial) in %.1f s, faults %s' % (
        agg['evaluations'], len(agg['sigs']), wall, dict(agg['faults'])))
    print('probes %s' % dict(agg['probes']))
    if mism:
        print('NON-DETERMINISTIC runs: %s' % mism)
    for h in agg['harness'][:3]:
        print('HARNESS ERROR in run %d: %s' % (h['i'], h['detail']))
    if lines:
        for line in lines:
            print(line)
        return 1
    if unconfirmed:
        print('a violation was seen but its replay file did not reproduce it')
        return 2
    if agg['harness']:
        return 2
    if agg['evaluations'] == 0:
        print('no run completed')
        return 2
    return 0


def cmd_determinism(pid, n):
    """Event logs of n runs at two worker counts and two hash seeds."""
    seed = os.environ.get('VERIF_SEED', '1')
    outs = []
    for workers, hs in (('8', '0'), ('3', '17')):
        env = {k: v for k, v in os.environ.items() if k != 'DST_BOOTED'}
        env.update(DST_WORKERS=workers, DST_HASHSEED=hs)
        p = subprocess.run([sys.executable, os.path.join(HERE, 'main.py'), '_hashes', pid, str(n)],
                           env=env, capture_output=True, text=True)
        if p.returncode:
            print(p.stdout[-2000:], p.stderr[-2000:])
            return 2
        outs.append(json.loads(p.stdout.splitlines()[-1]))
    a, b = outs
    diff = [i for i in a if a[i] != b.get(i)]
    print('%s seed %s: %d runs compared, %d differ %s' % (pid, seed, len(a), len(diff), diff[:20]))
    return 1 if diff or len(a) != len(b) else 0


def cmd_hashes(pid, n):
    import engine
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check = load(pid)
    if hasattr(check, 'setup'):
        check.setup()
    try:
        agg = engine.campaign(check, seed, os.environ.get('VERIF_TIER', 'quick'), n, WORKERS,
                              time.time() + 3600, False)
    finally:
        if hasattr(check, 'teardown'):
            check.teardown()
    print(json.dumps(agg['hashes']))
    return 0


def cmd_run(pid, i):
    import engine
    check = load(pid)
    if hasattr(check, 'setup'):
        check.setup()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    plan = check.plan(engine.rng_for(seed, pid, i), i, os.environ.get('VERIF_TIER', 'quick'))
    os.environ['DST_LOG'] = '1'
    t = time.time()
    res = engine.run_plan(check, plan)
    if hasattr(check, 'teardown'):
        check.teardown()
    print(json.dumps(plan)[:6000])
    for line in res.pop('log'):
        print('   |', line)
    res.pop('explicit')
    d = res.pop('detail')
    print(json.dumps(res))
    print(d)
    print('%.2f s' % (time.time() - t))
    return 0


def main(argv):
    cmd = argv[0]
    if cmd == 'setup':
        import boot
        print('symfit %s loaded from %s' % (boot.symfit.__version__, boot.SRC))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        return 0
    if cmd == 'check':
        return cmd_check(argv[1])
    if cmd == 'replay':
        return cmd_replay(argv[1])
    if cmd == 'determinism':
        return cmd_determinism(argv[1], int(argv[2]))
    if cmd == '_hashes':
        return cmd_hashes(argv[1], int(argv[2]))
    if cmd == 'run':
        return cmd_run(argv[1], int(argv[2]))
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
