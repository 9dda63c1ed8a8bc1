"""
Fault injection: one exception raised at a chosen instant of a call.

A fault is plain data:
  {'kind': 'line', 'exc': E, 'seed': s}            resolved against a profile of the call
  {'kind': 'site', 'exc': E, 'site': S, 'n': n}    n-th visit of a source line
  {'kind': 'user', 'exc': E, 'n': n}               n-th call of user code
  {'kind': 'lib', 'exc': E, 'key': k, 'n': n, 'when': 'before'|'after'}   library boundary
"""
import random
import sys
import weakref
import numpy as np
import boot
import gen
import ops

EXCS = ['KeyboardInterrupt', 'MemoryError', 'SimFault', 'SimFault']


class SimFault(Exception):
    """An error symfit knows nothing about, as raised by user code or a back end."""


TYPES = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, SimFault=SimFault,
             ValueError=ValueError, ZeroDivisionError=ZeroDivisionError, OverflowError=OverflowError,
             TypeError=TypeError, KeyError=KeyError, IndexError=IndexError, RuntimeError=RuntimeError,
             FloatingPointError=FloatingPointError, LinAlgError=np.linalg.LinAlgError)
# errors user code typically raises; symfit handles some of them for its own purposes, so
# these strike in user calls only
COMMON_EXCS = ['ValueError', 'RuntimeError', 'FloatingPointError', 'LinAlgError', 'TypeError', 'KeyError', 'IndexError']
USER_EXCS = EXCS + COMMON_EXCS + ['ZeroDivisionError', 'OverflowError']
# and at the boundary of an optimiser or integrator (not numpy.linalg.inv)
LIB_EXCS = EXCS + COMMON_EXCS


class Probe(object):
    """Counts visits of lines, user calls and library boundaries during a call, and
    raises at the chosen one."""
    def __init__(self, fault=None, watch=False):
        self.fault = fault
        self.watched = {} if watch else None
        self.changes = []           # [object, site, visit]: an object had just changed there
        self.sites, self.users, self.libs = {}, 0, {}
        self.cache = {}
        self.fired = None
        self.mark = 0               # user calls made by the time the last optimiser returned
        self.ids = set()
        self.steps = 0
        self.count = 0

    def throw(self, what):
        self.fired = what
        raise TYPES[self.fault['exc']]('injected at %s' % what)

    def line(self, code, line):
        self.steps += 1
        k = (code, line)
        st = self.cache.get(k)
        if st is None:
            st = self.cache[k] = (boot.site(code, line) if boot.fault_allowed(code, line) else '')
        if not st:
            return
        f = self.fault
        if f is None:
            self.sites[st] = self.sites.get(st, 0) + 1
            if self.watched is not None:
                self.watch(code, st)
        elif f['kind'] == 'site' and f['site'] == st:
            self.count += 1
            if self.count == f['n'] and self.fired is None:
                self.throw('line ' + st)

    def watch(self, code, st):
        """Note which of the symfit objects in sight have changed since the line before."""
        fr = sys._getframe(2)
        while fr is not None and fr.f_code is not code:
            fr = fr.f_back
        if fr is None:
            return
        for k, w in self.watched.items():
            o = w[0]()
            if o is not None:
                state = fingerprint(o)
                if state != w[1]:
                    w[1] = state
                    self.changes.append([k, st, self.sites[st]])
        for o in list(fr.f_locals.values()):
            if (type(o).__module__ or '').startswith('symfit') and id(o) not in self.ids:
                try:
                    w = [weakref.ref(o), fingerprint(o)]
                except (TypeError, AttributeError):
                    continue
                if len(self.watched) < 60:
                    self.ids.add(id(o))
                    self.watched['%s %d' % (type(o).__name__, len(self.watched))] = w

    def user(self, label):
        self.users += 1
        f = self.fault
        if f is not None and f['kind'] == 'user' and self.users == f['n'] and self.fired is None:
            self.throw('user call %d' % self.users)

    def lib(self, key):
        def hook(orig, *args, **kwargs):
            self.libs[key] = self.libs.get(key, 0) + 1
            f = self.fault
            mine = (f is not None and f['kind'] == 'lib' and f['key'] == key
                    and f['n'] == self.libs[key] and self.fired is None)
            if mine and f['when'] == 'before':
                self.throw('before %s call %d' % (key, f['n']))
            out = orig(*args, **kwargs)
            if key in boot.OPTIMISERS:
                self.mark = self.users
            if mine:
                self.throw('after %s call %d' % (key, f['n']))
            return out
        return hook

    def __enter__(self):
        self.saved = (gen.USER_HOOK, dict(boot.HOOKS))
        gen.USER_HOOK = self.user
        for key in list(boot.OPTIMISERS) + ['solve_ivp', 'inv']:
            if key not in boot.HOOKS:
                boot.HOOKS[key] = self.lib(key)
        boot.set_line_hook(self.line)
        return self

    def __exit__(self, *a):
        boot.set_line_hook(None)
        gen.USER_HOOK = self.saved[0]
        boot.HOOKS.clear()
        boot.HOOKS.update(self.saved[1])
        return False


def fingerprint(o):
    """What an object holds, to the extent that it can be seen at a glance."""
    if not hasattr(o, '__dict__'):
        return (getattr(o, 'value', None), getattr(o, 'fixed', None),
                getattr(o, 'min', None), getattr(o, 'max', None))
    out = []
    for k, v in list(o.__dict__.items()):
        out.append((k, id(v), len(v) if isinstance(v, (list, dict)) else
                    v.tobytes() if isinstance(v, np.ndarray) and v.size <= 32 and v.dtype != object else 0))
    return out


def random_fault(rng, kinds=('line', 'line', 'line', 'user', 'lib')):
    k = rng.choice(kinds)
    excs = USER_EXCS if k == 'user' else LIB_EXCS if k == 'lib' else EXCS
    return dict(kind=k, exc=rng.choice(excs), seed=rng.randrange(1 << 30))


def resolve(fault, fn):
    """Pick the instant of a seeded fault by executing fn in a fork of this process.
    Returns a concrete fault (with an explicit instant), or None if there is none."""
    if 'seed' not in fault:
        return fault

    rng = random.Random(fault['seed'])
    aim = rng.choice(['any', 'any', 'any', 'cold', 'change', 'change']) if fault['kind'] == 'line' else 'any'

    def profile():
        runs = []
        for k in range(2 if aim == 'cold' else 1):
            with Probe(watch=aim == 'change') as p:
                try:
                    out = fn()
                except Exception:
                    out = None
            runs.append(p)
        p, q = runs[0], runs[-1]
        by = {}
        if aim == 'cold':
            # lines visited less often the second time belong to what the first call built;
            # a function that built something, then a line of it: short functions count as
            # much as long ones
            for st in sorted(st for st, n in p.sites.items() if n > q.sites.get(st, 0)):
                by.setdefault(st.rsplit(':', 1)[0], []).append([st, 0])
        elif aim == 'change':
            # right after an object that is still there at the end was changed
            for k, st, n in p.changes:
                if p.watched[k][0]() is not None:
                    by.setdefault(k, []).append([st, n])
        del out
        return [p.sites, p.users, p.libs, p.mark, by]
    sites, users, libs, mark, by = ops.solo(profile)
    kind = fault['kind']
    if kind == 'user' and not users:
        kind = 'line'
    if kind == 'lib' and not libs:
        kind = 'line'
    if kind == 'user':
        n = rng.randrange(1, users + 1)
        if mark < users and rng.random() < 0.4:
            n = rng.randrange(mark + 1, users + 1)
        return dict(kind='user', exc=fault['exc'], n=n)
    key = rng.choice(sorted(libs)) if kind == 'lib' else None
    if fault['exc'] not in EXCS and (kind != 'lib' or key == 'inv'):
        fault = dict(fault, exc='SimFault')
    if kind == 'lib':
        return dict(kind='lib', exc=fault['exc'], key=key, n=rng.randrange(1, libs[key] + 1),
                    when=rng.choice(['before', 'after']))
    if not sites:
        return None
    if by:
        st, n = rng.choice(by[rng.choice(sorted(by))])
        if n:
            return dict(kind='site', exc=fault['exc'], site=st, n=n)
    else:
        st = sorted(sites)[rng.randrange(len(sites))]
    n = rng.choice([1, 1, sites[st], rng.randrange(1, sites[st] + 1)])
    return dict(kind='site', exc=fault['exc'], site=st, n=n)


def attempt(fault, fn):
    """Execute fn under a concrete fault. Returns (probe, outcome, value):
    outcome 'value', 'injected' (the injected exception came out) or 'other'."""
    with Probe(fault) as p:
        try:
            v = fn()
            return p, 'value', v
        except BaseException as e:
            if p.fired is not None and type(e) is TYPES[fault['exc']] and 'injected at' in str(e):
                return p, 'injected', e
            return p, 'other', e


def label(f):
    if f is None:
        return 'none'
    return '%s at %s' % (f['exc'], {'site': 'a source line', 'user': 'a user call',
                                    'lib': 'the %s boundary' % f.get('key')}[f['kind']])
