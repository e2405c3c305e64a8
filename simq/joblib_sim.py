"""joblib with simulated workers: who runs, when a worker is preempted and in which order tasks complete is decided by
the simulator. 'thread' workers share memory with the caller and are interleaved at line granularity; 'process' workers
get pickled copies (arrays optionally read-only, as joblib's memory mapped arguments are) and give pickled results back.
"""
import pickle

import numpy as np
from joblib import parallel as jp
from joblib._parallel_backends import ParallelBackendBase, SequentialBackend

from simq import core

CONF = {'mode': 'thread', 'ro': False, 'nested': False}
STATE = {'completed': 0, 'submitted': 0, 'pools': 0, 'max_active': 0, 'order': []}


class SimRLock:
    def __init__(self):
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = core.SIM
        me = sim.me() if sim is not None else None
        if self.owner is not None and self.owner is not me:
            sim.wait_for(lambda: self.owner is None)
        self.owner = me if me is not None else 'main'
        self.n += 1
        return True

    def release(self):
        self.n -= 1
        if self.n == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class _Threading:
    def __init__(self, real):
        self._real = real

    def RLock(self):
        return SimRLock()

    def __getattr__(self, k):
        return getattr(self._real, k)


class _Time:
    now = 0.0

    def time(self):
        return self.now

    def sleep(self, s):
        type(self).now += s
        sim = core.SIM
        seen = STATE['completed']
        if sim is not None and sim.me() is not None:
            sim.wait_for(lambda: STATE['completed'] != seen)

    def __getattr__(self, k):
        import time
        return getattr(time, k)


class Job:
    def __init__(self, func, callback, op, mode, index):
        self.func, self.callback, self.op, self.mode, self.index = func, callback, op, mode, index
        self.result = None
        self.error = None
        self.done = False


def _freeze(o, depth=0):
    """ arrays reaching a worker process may be read-only memory maps """
    if isinstance(o, np.ndarray):
        if o.dtype != object:
            o.flags.writeable = False
    elif isinstance(o, (list, tuple)):
        for v in o:
            _freeze(v, depth + 1)
    elif isinstance(o, dict):
        for v in o.values():
            _freeze(v, depth + 1)


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = True
    supports_sharedmem = True
    uses_threads = True

    def __init__(self, nesting_level=None, inner_max_num_threads=None, mode=None, **kw):
        super().__init__(nesting_level=nesting_level, inner_max_num_threads=inner_max_num_threads, **kw)
        self.mode = mode
        self.queue = []
        self.active = 0
        self.n = 1
        self.closed = False

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError('n_jobs == 0 in Parallel has no meaning')
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            n_jobs = max(8 + 1 + n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel = parallel
        self.n = self.effective_n_jobs(n_jobs)
        STATE['pools'] += 1
        return self.n

    def submit(self, func, callback=None):
        sim = core.SIM
        me = sim.me()
        mode = self.mode or CONF['mode']
        if mode == 'process':
            func = pickle.dumps(func, protocol=4)
        job = Job(func, callback, me.op, mode, STATE['submitted'])
        STATE['submitted'] += 1
        self.queue.append(job)
        self._start()
        return job

    def _start(self):
        while self.queue and self.active < self.n:
            self.active += 1
            STATE['max_active'] = max(STATE['max_active'], self.active)
            core.SIM.spawn(self._worker, 'worker')

    def _worker(self):
        sim = core.SIM
        me = sim.me()
        while self.queue:
            job = self.queue.pop(0)
            me.op = job.op
            me.oplines = 0
            try:
                if job.mode == 'process':
                    func = pickle.loads(job.func)
                    if CONF['ro']:
                        for f, a, k in func.items:
                            _freeze(a)
                            _freeze(k)
                    job.result = pickle.loads(pickle.dumps(func(), protocol=4))
                else:
                    job.result = job.func()
            except BaseException as e:
                job.error = e
                if job.mode == 'process':
                    try:
                        job.error = pickle.loads(pickle.dumps(e, protocol=4))
                    except Exception:
                        pass
            job.done = True
            STATE['order'].append(job.index)
            if not self.closed:
                job.callback(job)
            STATE['completed'] += 1
        self.active -= 1

    def retrieve_result_callback(self, out):
        if out.error is not None:
            raise out.error
        return out.result

    def abort_everything(self, ensure_ready=True):
        self.queue.clear()

    def stop_call(self):
        pass

    def terminate(self):
        self.queue.clear()

    def get_nested_backend(self):
        return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None


def install(mode='thread', ro=False):
    CONF.update(mode=mode, ro=ro)
    jp.BACKENDS['loky'] = lambda nesting_level=None, **k: SimBackend(nesting_level=nesting_level, **k)
    jp.BACKENDS['multiprocessing'] = lambda nesting_level=None, **k: SimBackend(nesting_level=nesting_level, mode='process', **k)
    jp.BACKENDS['threading'] = lambda nesting_level=None, **k: SimBackend(nesting_level=nesting_level, mode='thread', **k)
    jp.threading = _Threading(jp.threading)
    jp.time = _Time()
