"""
Boot of the simulator: puts every seam in place *before* symfit is imported.

* threading.Lock / RLock -> SimLock, a lock the scheduler knows about;
* scipy.optimize.{minimize,least_squares,differential_evolution,basinhopping},
  scipy.integrate.solve_ivp and numpy.linalg.inv -> dispatchers, so that a simulated
  peer can take their place or a fault can be injected at the boundary;
* symfit itself is compiled from the sources of $DST_REPO (default /repo), never
  from a .pyc file;
* a sys.monitoring LINE event for every line of symfit is the preemption and
  fault point.
"""
import os
import sys
import functools
import threading
import _thread
import warnings

REPO = os.path.realpath(os.environ.get('DST_REPO', '/repo'))
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class HarnessError(Exception):
    """The harness (not symfit) failed."""


# --------------------------------------------------------------------- locks
CUR_SCHED = None      # scheduler of the simulated threads, if one is active


class SimLock(object):
    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s = CUR_SCHED
        if s is None or not s.in_task():
            return self._l.acquire(True, timeout)
        while True:
            if not s.block(timeout):
                return False
            if self._l.acquire(False):
                s.unblock()
                return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _patch_locks():
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = threading._PyRLock


_patch_locks()

warnings.simplefilter('ignore')

import numpy as np                     # noqa: E402
import scipy.optimize                  # noqa: E402
import scipy.integrate                 # noqa: E402
import scipy.linalg                    # noqa: E402
import sympy                           # noqa: E402

# ------------------------------------------------------------ scipy boundary
HOOKS = {}                 # key -> callable(orig, *args, **kwargs)
_tls = _thread._local()
OPTIMISERS = ('minimize', 'least_squares', 'differential_evolution', 'basinhopping')


def _dispatcher(orig, key):
    is_opt = key in OPTIMISERS

    @functools.wraps(orig)
    def dispatch(*args, **kwargs):
        hook = HOOKS.get(key)
        if hook is None:
            return orig(*args, **kwargs)
        if is_opt and getattr(_tls, 'depth', 0):
            return orig(*args, **kwargs)      # an optimiser used inside an optimiser
        if not is_opt:
            return hook(orig, *args, **kwargs)
        _tls.depth = 1
        try:
            return hook(orig, *args, **kwargs)
        finally:
            _tls.depth = 0
    return dispatch


def _patch_scipy():
    for name in OPTIMISERS:
        setattr(scipy.optimize, name, _dispatcher(getattr(scipy.optimize, name), name))
    scipy.integrate.solve_ivp = _dispatcher(scipy.integrate.solve_ivp, 'solve_ivp')
    np.linalg.inv = _dispatcher(np.linalg.inv, 'inv')


_patch_scipy()

# -------------------------------------------------- loading symfit from source
import importlib.abc                   # noqa: E402
import importlib.machinery             # noqa: E402
import importlib.util                  # noqa: E402


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'symfit' and not fullname.startswith('symfit.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=_Loader(fullname, base + '.py'))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


sys.meta_path.insert(0, _Finder())
sys.dont_write_bytecode = True

import symfit                          # noqa: E402
import symfit.core.minimizers          # noqa: E402
import symfit.core.objectives          # noqa: E402
import symfit.core.printing            # noqa: E402
import symfit.distributions            # noqa: E402

SRC = os.path.join(REPO, 'symfit') + os.sep
if not os.path.realpath(symfit.__file__).startswith(SRC):
    raise HarnessError('symfit was not loaded from ' + SRC)

# ----------------------------------------------------- line events of symfit
_mon = sys.monitoring
TOOL = _mon.PROFILER_ID
LINE_HOOK = None            # callable(code, line)
_instrumented = set()


def _on_line(code, line):
    h = LINE_HOOK
    if h is not None:
        h(code, line)


def _codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            yield from _codes(c)


def instrument():
    """(Re-)discover all code of symfit and switch LINE events on for it."""
    import gc
    import types
    for obj in gc.get_objects():
        if type(obj) is types.FunctionType and obj.__code__.co_filename.startswith(SRC):
            for c in _codes(obj.__code__):
                if c not in _instrumented or True:
                    _mon.set_local_events(TOOL, c, _mon.events.LINE)
                    _instrumented.add(c)


_mon.use_tool_id(TOOL, 'dst')
_mon.register_callback(TOOL, _mon.events.LINE, _on_line)
instrument()


def set_line_hook(h):
    global LINE_HOOK
    LINE_HOOK = h


def site(code, line):
    return '%s:%s:%d' % (code.co_filename[len(SRC):], code.co_qualname, line)


# Lines where an asynchronous exception is not injected: no code can survive an
# interrupt inside its own clean-up, or between taking a resource and the try that
# protects it.
_no_fault = {}


def fault_allowed(code, line):
    fn = code.co_filename
    lines = _no_fault.get(fn)
    if lines is None:
        lines = _no_fault[fn] = _cleanup_lines(fn)
    return line not in lines


def _cleanup_lines(fn):
    import ast
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(open(fn).read())
    out = set()

    def span(nodes):
        for n in nodes:
            out.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
    for n in ast.walk(tree):
        if isinstance(n, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            span(n.finalbody)
            for h in n.handlers:
                out.add(h.lineno)
                span(h.body)
            out.add(n.lineno)
            if n.body:
                out.add(n.body[0].lineno)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            out.add(n.lineno)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ('__exit__', '__enter__', '__del__', '__delete__'):
                span([n])
    return out
