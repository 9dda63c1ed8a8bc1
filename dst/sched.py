"""
Deterministic scheduler for real threads: exactly one runs at a time, and which one
is decided here, at every LINE event of symfit, at every call of user-supplied code
and at every contended lock.
"""
import time
import _thread
from _thread import get_ident
import boot


class StepBudget(BaseException):
    """Raised inside a simulated thread when the run exceeds its step budget."""


class Deadlock(BaseException):
    pass


class _Task(object):
    __slots__ = ('i', 'fn', 'gate', 'done', 'value', 'exc', 'blocked', 'steps')

    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.value = self.exc = None
        self.blocked = False
        self.steps = 0


class RandomWalk(object):
    """Switch with probability p at every step."""
    def __init__(self, rng, p):
        self.rnd, self.p, self.rng = rng.random, p, rng

    def decide(self, s, t, code, line):
        if self.rnd() < self.p:
            others = [o for o in s.tasks if not o.done and o is not t]
            if others:
                return others[self.rng.randrange(len(others))]
        return None


class Listed(object):
    """Switch exactly at the listed steps: [[step, target], ...]."""
    def __init__(self, switches):
        self.at = {int(st): int(tg) for st, tg in switches}

    def decide(self, s, t, code, line):
        tg = self.at.get(s.step)
        if tg is None or tg >= len(s.tasks):
            return None
        o = s.tasks[tg]
        return None if o.done or o is t else o


class AtSites(object):
    """Switch at the n-th visit of chosen source lines: {(site): [n, target]}."""
    def __init__(self, wanted):
        self.wanted = {}
        for st, n, tg in wanted:
            self.wanted.setdefault(st, []).append([n, tg])
        self.count = {}
        self.cache = {}

    def decide(self, s, t, code, line):
        if code is None:
            return None
        key = (code, line)
        st = self.cache.get(key)
        if st is None:
            st = self.cache[key] = boot.site(code, line)
        w = self.wanted.get(st)
        if w is None:
            return None
        k = (st, t.i)
        c = self.count[k] = self.count.get(k, 0) + 1
        for n, tg in w:
            if n == c and len(s.tasks) > 1:
                m = len(s.tasks)
                for d in range(m - 1):
                    o = s.tasks[(t.i + 1 + (tg + d) % (m - 1)) % m]
                    if not o.done:
                        return o
        return None


class Sched(object):
    def __init__(self, policy, budget=3000000):
        self.policy = policy
        self.budget = budget
        self.tasks = []
        self.by_ident = {}
        self.step = 0
        self.cur = None
        self.switches = []          # [step, target]
        self.trace = []             # sites of the switches
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.stuck = 0
        self.abort = None

    def spawn(self, fn):
        self.tasks.append(_Task(len(self.tasks), fn))

    def in_task(self):
        return get_ident() in self.by_ident

    def _body(self, t):
        self.by_ident[get_ident()] = t
        t.gate.acquire()
        try:
            t.value = t.fn()
        except BaseException as e:       # reported to the caller of run()
            t.exc = e
        t.done = True
        del self.by_ident[get_ident()]
        self.stuck = 0
        nxt = next((o for o in self.tasks if not o.done), None)
        if nxt is None:
            self.main.release()
        else:
            self.cur = nxt
            nxt.gate.release()

    def run(self):
        boot.CUR_SCHED = self
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        while len(self.by_ident) < len(self.tasks):
            time.sleep(0.0001)            # until all threads are parked at their gate
        boot.set_line_hook(self.line)
        self.cur = self.tasks[0]
        self.cur.gate.release()
        self.main.acquire()
        boot.set_line_hook(None)
        boot.CUR_SCHED = None
        return self.tasks

    def _goto(self, t, o, where):
        self.switches.append([self.step, o.i])
        self.trace.append(where)
        self.cur = o
        o.gate.release()
        t.gate.acquire()
        if self.abort is not None:
            raise self.abort

    def line(self, code, line):
        t = self.by_ident.get(get_ident())
        if t is None:
            return
        self.step += 1
        t.steps += 1
        if self.step > self.budget:
            self.abort = StepBudget('more than %d steps' % self.budget)
            raise self.abort
        self.stuck = 0
        o = self.policy.decide(self, t, code, line)
        if o is not None:
            self._goto(t, o, boot.site(code, line) if code else str(line))

    def user(self, label):
        """Preemption point inside user-supplied code."""
        self.line(None, label)

    def block(self, timeout):
        t = self.by_ident[get_ident()]
        t.blocked = True
        self.stuck += 1
        live = [o for o in self.tasks if not o.done]
        if self.stuck > 3 * len(live) + 3:
            if timeout is not None and timeout >= 0:
                t.blocked = False
                self.stuck = 0
                return False
            self.abort = Deadlock('all threads wait for a lock')
            raise self.abort
        others = [o for o in live if o is not t]
        if not others:
            self.abort = Deadlock('waiting for a lock nobody will release')
            raise self.abort
        # round robin over the others, so that the owner of the lock gets to run
        o = next((o for o in others if o.i > t.i), others[0])
        self.step += 1
        self._goto(t, o, 'lock')
        return True

    def unblock(self):
        self.by_ident[get_ident()].blocked = False
        self.stuck = 0


def user_point(label='user'):
    s = boot.CUR_SCHED
    if s is not None:
        s.user(label)
