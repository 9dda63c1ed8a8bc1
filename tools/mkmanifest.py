"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('seeded simulation of thread interleavings at source-line granularity, against sequential execution of the same calls', 'threads'),
 'C02': ('seeded simulation of thread interleavings of whole fits, against each fit run alone', 'threads'),
 'C03': ('seeded fault injection (exception at a chosen executed line, user call or library boundary) with recovery check against fault-free execution', 'faults'),
 'C04': ('seeded fault injection into whole fits, re-execution compared to a fault-free fit', 'faults'),
 'C05': ('simulated optimiser peer issuing seeded request schedules with buffer scribbling and failures, answers checked against an independent reference model', 'peer'),
 'C06': ('simulated optimiser peer stopping anywhere with any output, results checked against an independent reference model', 'peer'),
 'C07': ('simulated optimiser peers as chain stages with early stops and failures, history of calls checked against the chain protocol', 'peer'),
 'C08': ('seeded query histories with integrator faults per leg, against closed-form solutions', 'faults'),
 'C09': ('simulated process boundary: snapshot at seeded instants, restore in fresh interpreters with other hash seeds', 'process'),
 'C10': ('simulated worker pool with seeded task placement, completion order, duplicates and worker crashes', 'process'),
 'C11': ('same seeded workload in interpreters with different hash seeds and insertion orders, histories compared', 'process'),
 'C12': ('seeded histories of other work, cache faults and failures in one process, against a pristine process', 'history'),
 'C13': ('simulated pointer/redraw events with model faults, state invariants after every event', 'events'),
 'C14': ('interleaved draws on the global random stream and seeded early stops, against an undisturbed run', 'faults'),
 'C15': ('seeded histories of shared inputs with injected faults, deep snapshots after every step', 'history'),
 'C16': ('seeded histories of setting changes, executions and failures, against a newly built fit', 'history'),
}
NOTE = {
 'threads': 'Samples schedules; every preemption point is a source line of symfit, a user call or a contended lock. Code inside sympy/numpy/scipy is not preempted.',
 'faults': 'Samples fault positions among the executed source lines of symfit, user calls and library boundaries. Faults inside clean-up code (finally/except bodies) are not injected.',
 'peer': 'Samples request schedules and outputs of the optimiser. Trusts the independent reference model (own second-order automatic differentiation).',
 'process': 'Samples configurations of processes. Real interpreters, forked from pre-started servers per hash seed; trusts the operating system pipes between them.',
 'history': 'Samples histories. The oracle is the same operation in a pristine forked process.',
 'events': 'Samples event sequences on the Agg canvas of matplotlib; no window system is involved.',
}
PURE = ('A pure function of its input: no schedule, clock, fault, history or process boundary enters, so a '
        'simulator has nothing to decide.')
have = [c for c in sorted(T) if os.path.exists(os.path.join(HERE, 'dst', 'checks', c.lower() + '.py'))]
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./check setup',
         checks=[dict(property=c, quick_cmd='./check %s' % c, thorough_cmd='VERIF_TIER=thorough ./check %s' % c,
                      evidence_file='evidence/%s.json' % c, technique=T[c][0], level='exploration',
                      level_note=NOTE[T[c][1]]) for c in have],
         not_applicable=[dict(property=p, reason=PURE if p > 'C16' else 'check under construction')
                         for p in props if p not in have],
         notes='No hooks in /repo: every seam is reached from outside (sys.monitoring line events, dispatchers '
               'on scipy.optimize, scipy.integrate, numpy.linalg.inv and threading locks). See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(have)
