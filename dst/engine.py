"""
Campaign engine: seeded plans, one forked child per simulated run, shrinking,
replay files and evidence.
"""
import os
import sys
import json
import time
import random
import re
import select
import signal
import struct
import hashlib
import traceback
from collections import Counter

import boot
from boot import HarnessError

VERIF = boot.VERIF
TIMEOUT = 240          # seconds of wall time for one simulated run: harness error


class Violation(Exception):
    """The property does not hold: cls is the class kept while shrinking."""
    def __init__(self, cls, detail=''):
        super(Violation, self).__init__(cls)
        self.cls, self.detail = cls, detail


class Discard(Exception):
    """The plan asks for something outside the property (not counted)."""


class Rec(object):
    """Record of one simulated run."""
    def __init__(self):
        self.log = []
        self.faults = Counter()      # fault kind -> times it fired
        self.probes = Counter()      # rare condition -> times it was hit
        self.steps = 0               # simulated time: scheduler / line steps
        self.sig = []                # what makes this run distinct
        self.trivial = True
        self.explicit = None         # plan with the schedule written out
        self.known = []              # identifiers of known findings met

    def ev(self, *items):
        self.log.append(' '.join(i if isinstance(i, str) else dig(i) for i in items))

    def nontrivial(self, *sig):
        self.trivial = False
        self.sig.append('|'.join(str(s) for s in sig))

    def hash(self):
        return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]


_ID = re.compile(r'_0*\d+_\d{9,}')     # names symfit derives from id()


def dig(x):
    """Short stable text for a value in the event log."""
    import numpy as np
    if isinstance(x, (list, tuple)) and len(x) == 3 and x[0] == '#a' and len(x[2]) > 4:
        return 'a%s#%s' % (x[1], hashlib.sha1(','.join('%.9g' % v for v in x[2]).encode()).hexdigest()[:8])
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(dig(i) for i in x) + ']'
    if isinstance(x, dict):
        return '{' + ','.join('%s:%s' % (_ID.sub('_#', str(k)), dig(v)) for k, v in x.items()) + '}'
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return dig(x.tolist())
        return '%s#%s' % (x.shape, hashlib.sha1(np.round(x, 9).astype(complex).tobytes()).hexdigest()[:8]
                          if x.dtype.kind in 'iufc' else repr(x.tolist()))
    if isinstance(x, (float, np.floating)):
        return '%.9g' % x
    return _ID.sub('_#', str(x))


def rng_for(seed, prop, i):
    return random.Random('%s:%s:%s' % (seed, prop, i))


# ------------------------------------------------------------------ one run
def run_inline(check, plan):
    """Execute a plan in this process. Returns the result record (a dict)."""
    rec = Rec()
    out = dict(status='ok', cls=None, detail='')
    try:
        check.execute(plan, rec)
    except Violation as v:
        out.update(status='violation', cls=v.cls, detail=str(v.detail)[:3000])
    except Discard as d:
        out.update(status='discard', detail=str(d))
    except (HarnessError, OSError, EOFError) as e:
        out.update(status='harness', detail=traceback.format_exc()[-3000:])
    except BaseException as e:
        tb = traceback.format_exc()
        where = ''
        for fr in traceback.extract_tb(e.__traceback__):
            if fr.filename.startswith(boot.SRC):
                where = fr.name
        out.update(status='violation',
                   cls='exception:%s@%s' % (type(e).__name__, where),
                   detail=tb[-3000:])
    finally:
        boot.set_line_hook(None)
        boot.HOOKS.clear()
        boot.CUR_SCHED = None
    rec.ev('end', out['status'], str(out['cls']))
    out.update(hash=rec.hash(), faults=dict(rec.faults), probes=dict(rec.probes),
               steps=rec.steps, trivial=rec.trivial,
               sig=hashlib.sha1('\n'.join(rec.sig).encode()).hexdigest()[:16],
               explicit=rec.explicit, known=rec.known, nlog=len(rec.log),
               log=rec.log if out['status'] != 'ok' or os.environ.get('DST_LOG') else rec.log[-3:])
    return out


def _read_all(fd, pid, timeout):
    buf, end = [], time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            return None
        r, _, _ = select.select([fd], [], [], left)
        if r:
            b = os.read(fd, 1 << 16)
            if not b:
                return b''.join(buf)
            buf.append(b)


def in_child(fn, timeout=TIMEOUT):
    """Run fn() in a forked child; returns its JSON-able value, or None if it hung."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            if not os.environ.get('DST_LOUD'):
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
            data = json.dumps(fn(), default=_jsonable).encode()
            o = 0
            while o < len(data):
                o += os.write(w, data[o:])
            code = 0
        except BaseException:
            try:
                os.write(w, json.dumps(dict(
                    status='harness', detail=traceback.format_exc()[-2000:])).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data = _read_all(r, pid, timeout)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data is None:
        return dict(status='harness', detail='run exceeded %ds of wall time' % timeout)
    if not data:
        return dict(status='harness', detail='run died, wait status %d' % st)
    return json.loads(data)


def _jsonable(x):
    import numpy as np
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return repr(x)


def run_plan(check, plan, timeout=TIMEOUT):
    res = in_child(lambda: run_inline(check, plan), timeout)
    for k, v in dict(cls=None, detail='', hash='', faults={}, probes={}, steps=0,
                     trivial=True, sig='', explicit=None, known=[], log=[], nlog=0).items():
        res.setdefault(k, v)
    return res


# ----------------------------------------------------------------- campaign
def campaign(check, seed, tier, runs, workers, deadline, stop_on_violation=True):
    """Runs 0..runs-1 spread over worker processes; returns aggregated results."""
    pipes = []
    sys.stdout.flush()
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr, _ in pipes:
                os.close(rr)
            try:
                _worker(check, seed, tier, k, workers, runs, w, deadline, stop_on_violation)
            except BaseException:
                traceback.print_exc()
                os._exit(1)
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((r, pid))
    agg = dict(evaluations=0, discards=0, nontrivial=0, sigs=set(), faults=Counter(),
               probes=Counter(), steps=0, violations=[], harness=[], samples=[],
               known=Counter(), truncated=False, hashes={})
    bufs = {r: b'' for r, _ in pipes}
    open_ = set(bufs)
    while open_:
        rs, _, _ = select.select(list(open_), [], [], 5)
        for r in rs:
            b = os.read(r, 1 << 16)
            if not b:
                open_.discard(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 4:
                n = struct.unpack('>I', bufs[r][:4])[0]
                if len(bufs[r]) < 4 + n:
                    break
                _take(agg, json.loads(bufs[r][4:4 + n]))
                bufs[r] = bufs[r][4 + n:]
    for r, pid in pipes:
        os.close(r)
        if os.waitpid(pid, 0)[1]:
            agg['harness'].append(dict(i=-1, detail='a worker process died'))
    if time.time() > deadline:
        agg['truncated'] = True
    agg['violations'].sort(key=lambda v: v['i'])
    return agg


def _take(agg, res):
    if res['status'] == 'discard':
        agg['discards'] += 1
        return
    agg['evaluations'] += 1
    agg['hashes'][res['i']] = res['hash']
    agg['faults'].update(res['faults'])
    agg['probes'].update(res['probes'])
    agg['known'].update(res['known'])
    agg['steps'] += res['steps']
    if not res['trivial']:
        agg['nontrivial'] += 1
        agg['sigs'].add(res['sig'])
    if res['status'] == 'violation':
        agg['violations'].append(res)
    elif res['status'] == 'harness':
        agg['harness'].append(res)
    if res.get('sample') is not None and len(agg['samples']) < 3:
        agg['samples'].append(res['sample'])


def _worker(check, seed, tier, k, workers, runs, w, deadline, stop):
    found = 0
    for i in range(k, runs, workers):
        if time.time() > deadline:
            break
        try:
            plan = check.plan(rng_for(seed, check.id, i), i, tier)
        except Exception:
            plan = None
            res = dict(status='harness', detail=traceback.format_exc()[-2000:], faults={}, probes={},
                       known=[], steps=0, trivial=True, sig='', hash='', log=[], cls=None)
        else:
            res = run_plan(check, plan)
        res['i'] = i
        res['plan'] = plan if res['status'] not in ('ok', 'discard') else None
        if i < 3:
            res['sample'] = dict(run=i, plan=_trim(plan), last_events=res['log'][-3:])
        data = json.dumps(res).encode()
        data = struct.pack('>I', len(data)) + data
        o = 0
        while o < len(data):
            o += os.write(w, data[o:])
        if res['status'] in ('violation', 'harness'):
            found += 1
            if stop and found >= 2:
                break


def _trim(x, depth=0):
    """A plan, shortened for the evidence file."""
    if isinstance(x, dict):
        return {k: _trim(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 8 and all(isinstance(i, (int, float)) for i in x):
            return ['%d numbers, first %r' % (len(x), x[0])]
        return [_trim(v, depth + 1) for v in x[:12]]
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + '...'
    return x


# ------------------------------------------------------------------ shrinking
def generic_shrinks(plan, path=()):
    """Candidates with list elements removed: lists are marked by being under a key
    named in plan['_lists'] (paths as 'a.b')."""
    for lp in plan.get('_lists', []):
        keys = lp.split('.')
        try:
            targets = _find(plan, keys)
        except (KeyError, TypeError):
            continue
        for t_idx, lst in enumerate(targets):
            n = len(lst)
            if n == 0:
                continue
            size = n
            while size >= 1:
                for start in range(0, n, size):
                    cand = json.loads(json.dumps(plan))
                    l2 = _find(cand, keys)[t_idx]
                    del l2[start:start + size]
                    yield cand
                size //= 2


def _find(obj, keys):
    cur = [obj]
    for k in keys:
        nxt = []
        for o in cur:
            if k == '*':
                nxt.extend(o if isinstance(o, list) else list(o.values()))
            elif isinstance(o, dict) and k in o:
                nxt.append(o[k])
        cur = nxt
    return [c for c in cur if isinstance(c, list)]


def shrink(check, plan, cls, deadline, max_tries=400):
    tries = 0
    best = plan
    improved = True
    while improved and tries < max_tries and time.time() < deadline:
        improved = False
        gens = [check.shrinks(best)] if hasattr(check, 'shrinks') else []
        gens.append(generic_shrinks(best))
        for gen in gens:
            for cand in gen:
                if tries >= max_tries or time.time() > deadline:
                    break
                tries += 1
                res = run_plan(check, cand, timeout=90)
                if res['status'] == 'violation' and res['cls'] == cls:
                    best = res['explicit'] or cand
                    improved = True
                    break
            if improved:
                break
    return best, tries


def jsize(plan):
    return len(json.dumps(plan))
