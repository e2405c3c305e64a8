"""Deterministic simulator for quantificationlib.

One Sim object controls one simulated run inside one forked process:

* tasks are real threads parked on semaphores; exactly one runs at a time and the simulator decides, at
  every executed line of the library (sys.monitoring LINE events) and at every intercepted call, who runs next;
* every call the library makes to an estimator, solver, user distance, random generator, numerical routine
  (module level names of numpy/scipy/sklearn) or to the output stream is a numbered fault point of the operation
  being executed: (operation id, point kind, n-th call);
* a fault plan says which numbered point fails and how.

Everything is a function of the scenario: no clock is read, and the only random numbers used to schedule are those
of random.Random(seed) where the seed is in the scenario.
"""

import hashlib
import os
import random
import sys
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')
LIBDIR = os.path.join(REPO, 'quantificationlib') + os.sep


class SimError(Exception):
    """ An error of the harness, never of the library """


class StepBudget(BaseException):
    """ The operation has executed more lines than allowed """


class SimFault(RuntimeError):
    """ The default injected failure """


def _mk_exc(name, msg):
    import numpy as np
    import cvxpy
    table = {'SimFault': SimFault, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
             'ValueError': ValueError, 'TypeError': TypeError, 'AttributeError': AttributeError,
             'OSError': OSError, 'IndexError': IndexError, 'KeyError': KeyError,
             'FloatingPointError': FloatingPointError, 'ZeroDivisionError': ZeroDivisionError,
             'RuntimeError': RuntimeError, 'StopIteration': RuntimeError, 'LinAlgError': np.linalg.LinAlgError,
             'SolverError': cvxpy.error.SolverError, 'BrokenPipeError': BrokenPipeError,
             'TimeoutError': TimeoutError, 'AssertionError': AssertionError, 'Exception': Exception,
             'OverflowError': OverflowError, 'EOFError': EOFError, 'NotImplementedError': NotImplementedError,
             'UnicodeEncodeError': ValueError}
    if name == 'SimAny':
        e = _sim_any()(msg)
    else:
        e = table[name](msg)
    e._sim_injected = True
    return e


_any = []


def _sim_any():
    """ A failure that belongs to every common family: the narrowest handler that swallows a family sees it """
    if not _any:
        import cvxpy

        class SimAny(ValueError, ZeroDivisionError, FloatingPointError, OverflowError, IndexError, KeyError, NotImplementedError,
                     TypeError, AssertionError, EOFError, BufferError, ReferenceError, BrokenPipeError, TimeoutError, cvxpy.error.SolverError):
            def __str__(self):
                return str(self.args[0]) if self.args else ''
        _any.append(SimAny)
    return _any[0]


SIM = None  # the Sim of this process


class Task:
    __slots__ = ('tid', 'fn', 'thread', 'sem', 'done', 'error', 'waiting', 'op', 'counts', 'result', 'oplines', 'name')

    def __init__(self, tid, fn, name):
        self.tid = tid
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.waiting = None
        self.op = None
        self.counts = {}
        self.result = None
        self.oplines = 0
        self.name = name


class Sim:
    def __init__(self, sched=None, faults=(), budget=5000000, interfere=None):
        global SIM
        sched = sched or {}
        self.sched = sched
        self.mode = sched.get('mode', 'none')
        self.p = sched.get('p', 0.0)
        self.rng = random.Random(sched.get('seed', 0))
        self.fixed = {int(s): t for s, t in sched.get('at', [])} if self.mode == 'list' else None
        self.faults = {}
        for f in faults:
            # 'len' calls in a row fail from the nth on
            self.faults.setdefault((f['op'], f['point']), []).append((f['nth'], f['nth'] + f.get('len', 1), f))
        # executed lines of the library are fault points too (interrupts, failed allocations)
        self.count_lines = any(f['point'] == 'line' for f in faults)
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.step = 0
        self.lines = 0
        self.budget = budget
        self.trace = []          # preemptions actually made: [step, tid]
        self.visits = {}
        self.callsites = None    # (op, point) -> {place of the library: numbers of the calls made there}
        self.fired = []          # faults actually fired
        self.sites = set()       # where tasks were preempted / where faults fired
        self.counts = {}         # (op, point) -> number of calls, over the whole run
        self.oplines = {}
        self.done_event = threading.Semaphore(0)
        self.line_hist = None
        self.interfere = interfere
        self.overrun = None
        self.log = hashlib.sha256()
        SIM = self

    # ---- scheduling ------------------------------------------------------------------------------------------
    def spawn(self, fn, name='task'):
        t = Task(len(self.tasks), fn, name)
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
        t.thread.start()
        return t

    def _main(self, t):
        t.sem.acquire()
        self.by_ident[threading.get_ident()] = t
        try:
            t.result = t.fn()
        except BaseException as e:
            t.error = e
        t.done = True
        nxt = self._pick_runnable(None)
        self._handoff(nxt)

    def _handoff(self, nxt):
        self.current = nxt
        if nxt is None:
            self.done_event.release()
        else:
            nxt.sem.release()

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.waiting is not None:
                if not t.waiting():
                    continue
                t.waiting = None
            out.append(t)
        return out

    def _pick_runnable(self, exclude):
        r = [t for t in self._runnable() if t is not exclude]
        if not r:
            if any(not t.done for t in self.tasks) and exclude is None:
                raise SimError('deadlock: all simulated tasks are blocked')
            return None
        self.step += 1
        t = r[0]
        if self.mode == 'list':
            want = self.fixed.get(self.step)
            for x in r:
                if x.tid == want:
                    t = x
        elif len(r) > 1 and self.mode != 'none':
            t = r[self.rng.randrange(len(r))]
        if len(r) > 1:
            self.trace.append([self.step, t.tid])
        return t

    def run_all(self):
        """ Runs every spawned task to completion, called from the main thread """
        t = self._pick_runnable(None)
        if t is None:
            return
        self.current = t
        t.sem.release()
        self.done_event.acquire()

    def wait_for(self, pred):
        """ The current task waits until pred() holds; others run meanwhile """
        me = self.me()
        while not pred():
            me.waiting = pred
            nxt = self._pick_runnable(None)
            if nxt is me:
                me.waiting = None
                continue
            self.current = nxt
            nxt.sem.release()
            me.sem.acquire()

    def me(self):
        return self.by_ident.get(threading.get_ident())

    def maybe_switch(self, me, site):
        """ A scheduling point """
        self.step += 1
        if len(self.tasks) < 2:
            return
        if self.fixed is not None:
            want = self.fixed.get(self.step)
            if want is None or want == me.tid:
                return
            nxt = None
            for t in self._runnable():
                if t.tid == want:
                    nxt = t
            if nxt is None:
                return
        elif self.mode in ('rate', 'rare'):
            p = self.p
            if self.mode == 'rare':
                # lines that seldom run are as likely to be preempted as those of the hot loops
                v = self.visits[site] = self.visits.get(site, 0) + 1
                p = p / v
            if self.rng.random() >= p:
                return
            r = [t for t in self._runnable() if t is not me]
            if not r:
                return
            nxt = r[self.rng.randrange(len(r))]
        else:
            return
        self.trace.append([self.step, nxt.tid])
        self.sites.add(site)
        self.current = nxt
        nxt.sem.release()
        me.sem.acquire()

    # ---- monitoring ------------------------------------------------------------------------------------------
    def install_monitoring(self, instructions=False):
        mon = sys.monitoring
        tool = 4
        mon.use_tool_id(tool, 'simq')
        ev = mon.events.LINE | (mon.events.INSTRUCTION if instructions else 0)
        mon.register_callback(tool, mon.events.LINE, self._on_line if not os.environ.get('SIMQ_COVDIR') else self._on_line_noted)
        if instructions:
            mon.register_callback(tool, mon.events.INSTRUCTION, self._on_instr)
        for code in lib_codes():
            mon.set_local_events(tool, code, ev)

    def _on_line(self, code, line):
        me = self.by_ident.get(threading.get_ident())
        if me is None:
            return
        self.lines += 1
        me.oplines += 1
        if me.oplines > self.budget:
            self.overrun = '%s:%d' % (code.co_filename[len(LIBDIR):], line)
            raise StepBudget('%d lines executed in %s' % (me.oplines, code.co_qualname))
        if self.mode != 'none':
            self.maybe_switch(me, (code.co_filename[len(LIBDIR):], line))
        if self.count_lines and me.op is not None:
            self._fire(me, 'line', '%s:%d' % (code.co_filename[len(LIBDIR):], line), 3)

    def _on_line_noted(self, code, line):
        """ for tools/coverage.py """
        COVERED.add((code.co_filename[len(LIBDIR):], line))
        self._on_line(code, line)

    def _on_instr(self, code, offset):
        me = self.by_ident.get(threading.get_ident())
        if me is not None and self.mode != 'none':
            self.maybe_switch(me, (code.co_filename[len(LIBDIR):], -1))

    # ---- fault points ----------------------------------------------------------------------------------------
    def point(self, kind, detail=''):
        """ A call that could fail. Returns the fault to apply when it is not an exception """
        me = self.by_ident.get(threading.get_ident())
        if me is None:
            return None
        if self.mode != 'none':
            self.maybe_switch(me, ('@' + kind, 0))
        if self.interfere is not None:
            self.interfere(self, kind)
        if me.op is None:
            return None
        return self._fire(me, kind, detail, 4)

    def _fire(self, me, kind, detail, depth):
        key = (me.op, kind)
        n = self.counts[key] = self.counts.get(key, 0) + 1
        if self.callsites is not None and n < 20000:
            self.callsites.setdefault(key, {}).setdefault(_libplace(depth) + (' ' + detail if kind == 'np' else ''), []).append(n)
        fs = self.faults.get(key)
        if not fs:
            return None
        for lo, hi, f in fs:
            if not lo <= n < hi:
                continue
            if n - lo < 20:
                self.fired.append({'op': me.op, 'point': kind, 'nth': n, 'exc': f['exc'], 'at': detail})
            self.sites.add(('!' + kind + ':' + f['exc'], detail))
            if f['exc'].startswith('='):
                return f['exc'][1:]
            raise _mk_exc(f['exc'], 'injected failure at %s #%d of operation %s' % (kind, n, me.op))
        return None


def _libplace(depth):
    """ the two innermost lines of the library that are being executed """
    f = sys._getframe(depth - 1)
    out = []
    while f is not None and len(out) < 2:
        if f.f_code.co_filename.startswith(LIBDIR):
            out.append('%s:%d' % (f.f_code.co_filename[len(LIBDIR):], f.f_lineno))
        f = f.f_back
    return ' '.join(out)


def point(kind, detail=''):
    if SIM is not None:
        return SIM.point(kind, detail)
    return None


_codes = None
COVERED = set()


def lib_codes():
    """ All code objects of the library (also nested functions, lambdas and methods) """
    global _codes
    if _codes is None:
        import gc
        import types
        seen = {}

        def walk(code):
            if id(code) in seen:
                return
            seen[id(code)] = code
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(LIBDIR):
                walk(o.__code__)
        _codes = list(seen.values())
    return _codes


# ---- proxies of numerical routines ---------------------------------------------------------------------------------
NUM_PREFIX = ('numpy', 'scipy', 'sklearn', 'statsmodels', 'copy', 'math')


class Wrapped:
    """ A callable of numpy/scipy/sklearn as seen by the library """

    def __init__(self, fn, name):
        self.__dict__['_fn'] = fn
        self.__dict__['_name'] = name
        self.__dict__['__name__'] = name
        self.__dict__['__doc__'] = None

    def __call__(self, *a, **k):
        point('np', self._name)
        return self._fn(*a, **k)

    def __getattr__(self, item):
        return getattr(self.__dict__['_fn'], item)

    def __reduce__(self):
        return _unwrap, (self._fn,)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, other):
        return other is self or other is self._fn

    def __hash__(self):
        return hash(self._fn)


def _unwrap(fn):
    return fn


class ProxyModule:
    def __init__(self, mod, name):
        self.__dict__['_mod'] = mod
        self.__dict__['_pname'] = name
        self.__dict__['_cache'] = {}

    def __getattr__(self, item):
        c = self.__dict__['_cache']
        if item in c:
            return c[item]
        v = getattr(self.__dict__['_mod'], item)
        w = wrap_value(v, self.__dict__['_pname'] + '.' + item)
        c[item] = w
        return w

    def __reduce__(self):
        raise SimError('module pickled')


def wrap_value(v, name):
    import types
    if isinstance(v, types.ModuleType):
        if v.__name__.split('.')[0] in NUM_PREFIX:
            return ProxyModule(v, name)
        return v
    if isinstance(v, type):
        return v
    import numpy as np
    if isinstance(v, np.ufunc):
        return Wrapped(v, name)
    if callable(v) and (getattr(v, '__module__', None) or '').split('.')[0] in NUM_PREFIX:
        return Wrapped(v, name)
    return v


METHODS = (('sklearn.neighbors', 'KNeighborsClassifier', ('fit', 'kneighbors')), ('sklearn.preprocessing', 'LabelBinarizer', ('fit', 'transform')),
           ('sklearn.preprocessing', 'LabelEncoder', ('fit', 'inverse_transform')), ('sklearn.preprocessing', 'StandardScaler', ('fit', 'transform')),
           ('statsmodels.api', 'GLM', ('fit', 'predict')), ('sklearn.linear_model', 'LinearRegression', ('fit', 'predict')))


def install_method_points():
    """ The methods of numerical libraries' classes are fault points when the library calls them """
    import functools
    import importlib

    def wrapped(fn, name):
        @functools.wraps(fn)
        def call(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(LIBDIR):
                point('np', name)
            return fn(*a, **k)
        return call
    for mod, cls, methods in METHODS:
        c = getattr(importlib.import_module(mod), cls)
        for m in methods:
            setattr(c, m, wrapped(getattr(c, m), cls + '.' + m))


def install_np_proxy():
    """ Replaces, in every module of the library, the global names that are routines of the numerical libraries """
    import types
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, '__file__', None)
        if not f or not f.startswith(LIBDIR):
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith('__') or isinstance(v, type):
                continue
            if isinstance(v, types.FunctionType) and (v.__module__ or '').startswith('quantificationlib'):
                continue
            w = wrap_value(v, k)
            if w is not v:
                setattr(mod, k, w)
    install_method_points()


class SimId:
    """ id() of the library: what an allocator does with the addresses of freed objects is decided here, the address of the
    object of a type freed last is the first one given again """

    def __init__(self, seed=None):
        import random
        self.by = {}
        self.free = {}
        self.n = 0
        self.random = random.Random(seed) if seed is not None else None

    def __call__(self, o):
        import builtins
        import weakref
        real = builtins.id(o)
        e = self.by.get(real)
        if e is not None and e[0]() is o:
            return e[1]
        free = self.free.setdefault(type(o), [])
        if free:
            token = free.pop()
        else:
            self.n += 1
            # addresses grow with the allocations, or come in the order that a seed gives
            token = 0x7f0000000000 + 64 * (self.n if self.random is None else (self.random.randrange(1 << 24) << 16) + self.n)

        def gone(ref):
            if self.by.get(real, (None,))[0] is ref:
                del self.by[real]
            free.append(token)
        try:
            ref = weakref.ref(o, gone)
        except TypeError:
            ref = lambda: o      # never freed
        self.by[real] = (ref, token)
        return token


def install_id_seam(seed=None):
    f = SimId(seed)
    for name, mod in list(sys.modules.items()):
        p = getattr(mod, '__file__', None)
        if p and p.startswith(LIBDIR) and 'id' not in vars(mod):
            mod.id = f


def install_solver_seam():
    """ quadprog and cvxpy behind fault points """
    import quadprog
    import cvxpy
    import numpy as np
    from cvxpy.reductions.solution import Solution
    real_qp = quadprog.solve_qp
    real_solve = cvxpy.Problem.solve

    def solve_qp(*a, **k):
        r = point('solver', 'quadprog')
        if r is not None and r not in ('nosol', 'notpd'):
            e = ValueError('constraints are inconsistent, no solution')
            e._sim_injected = True
            raise e
        if r in ('nosol', 'notpd'):
            e = ValueError('matrix G is not positive definite')
            e._sim_injected = True
            raise e
        return real_qp(*a, **k)

    def solve(self, *a, **k):
        r = point('solver', 'cvxpy')
        if r is None:
            if not all(np.all(np.isfinite(c.value)) for c in self.constants() + self.parameters()):
                # what the solvers do with a problem that contains NaN or infinite values depends on uninitialised memory:
                # here its solution is always NaN
                for var in self.variables():
                    var.save_value(np.full(var.shape, np.nan))
                self._value = float('nan')
                self._status = 'optimal_inaccurate'
                self._solution = Solution('optimal_inaccurate', float('nan'),
                                          {v.id: np.full(v.shape, np.nan) for v in self.variables()}, {}, {})
                return self._value
            return real_solve(self, *a, **k)
        from cvxpy.reductions.solution import failure_solution
        v = real_solve(self, *a, **k)
        status = {'nosol': 'infeasible', 'inconsistent': 'infeasible_inaccurate', 'notpd': 'unbounded'}.get(r, r)
        for var in self.variables():
            var.save_value(None)
        self._value = None
        self._status = status
        self._solution = failure_solution(status)
        if status == 'infeasible':
            self._value = float('inf')
        return self._value

    quadprog.solve_qp = solve_qp
    cvxpy.Problem.solve = solve


class FakeOut:
    """ The output stream: every write is a fault point; what is written is only counted """

    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.n = 0
        self.buf = []

    def write(self, s):
        point('out', 'stdout')
        self.n += 1
        if len(self.buf) < 5000:
            self.buf.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no file descriptor')
