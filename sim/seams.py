"""Seams: every source of nondeterminism the code under test meets, replaced at library level.

`install()` must run before pyforecaster (or anything that imports ray) is imported.  Nothing in /repo is edited: the
repository reaches its workers, cores, clocks and random generators only through the libraries replaced here
(ray, multiprocessing.Pool, concurrent.futures, threading, time, numpy.random.default_rng, cpu_count).

Everything is driven by the root thread.  Managed threads (thread-pool tasks, threads started by the code under test and
the caller threads of a scenario) are real threads parked on raw locks and released one at a time; they are pre-empted on
source lines of the package under test.  Worker-process tasks are executed one at a time, isolated by pickling, with the
random state of their own simulated worker.
"""
import builtins
import gc
import os
import pickle
import random as _pyrandom
import sys
import threading
import time as _time
import types
import weakref
import _thread

from .core import Sim, Violation, HarnessError, SimAbort, seed_int

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'pyforecaster') + os.sep
_real_time, _real_mono, _real_perf, _real_sleep = _time.time, _time.monotonic, _time.perf_counter, _time.sleep
_real_Thread = threading.Thread
_real_Lock, _real_RLock = threading.Lock, threading.RLock
WATCHDOG = 400

CUR = None          # current Sim


def repo_frame(depth=1):
    f = sys._getframe(depth + 1)
    return f.f_code.co_filename.startswith(PKG)


def repo_on_stack(depth=1, limit=60):
    f = sys._getframe(depth + 1)
    n = 0
    while f is not None and n < limit:
        if f.f_code.co_filename.startswith(PKG):
            return True
        f = f.f_back
        n += 1
    return False


class WorkerLost(Exception):
    pass


INJECTED = {}


def injected(cls):
    """an exception of class cls that is recognisable as injected"""
    if cls not in INJECTED:
        INJECTED[cls] = cls
    e = cls('injected fault')
    return e


# ============================================================================================= scheduler
class MThread:
    __slots__ = ('name', 'fn', 'go', 'state', 'pred', 'quantum', 'thread', 'exc', 'result', 'kind', 'lines', 'raise_at',
                 'raise_cls', 'sched', 'on_done', 'traced', 'deadline')

    def __init__(self, sched, name, fn, kind):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.kind = kind
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.state = 'new'        # new, ready, blocked, done
        self.pred = None
        self.deadline = None
        self.quantum = 0
        self.exc = None
        self.result = None
        self.lines = 0
        self.raise_at = None
        self.raise_cls = None
        self.on_done = None
        self.traced = True


class Scheduler:
    def __init__(self, sim):
        self.sim = sim
        sim.scheduler = self
        self.threads = []
        self.by_ident = {}
        self.pools = []              # process pools with tasks
        self.root_ident = _thread.get_ident()
        self.root_go = _thread.allocate_lock()
        self.root_go.acquire()
        self.mean_quantum = 0        # 0: threads run to completion
        self.opcodes = False
        self.aborting = False
        self.hang = None
        self.last = None
        self.executors = []          # weakrefs of everything that can leak
        self.ray_gen = 0
        self.inline = 0
        self.n_named = 0

    # ---- managed threads
    def current(self):
        return self.by_ident.get(_thread.get_ident())

    def spawn(self, fn, name, kind, on_done=None, traced=True):
        t = MThread(self, name, fn, kind)
        t.on_done = on_done
        t.traced = traced
        self.threads.append(t)
        t.state = 'ready'
        started = _thread.allocate_lock()
        started.acquire()

        def boot():
            self.by_ident[_thread.get_ident()] = t
            started.release()
            t.go.acquire()
            try:
                if not self.aborting:
                    if t.traced and (self.mean_quantum or t.raise_at is not None):
                        sys.settrace(self._tracer(t))
                    try:
                        t.result = t.fn()
                    finally:
                        sys.settrace(None)
            except BaseException as e:   # noqa
                t.exc = e
            finally:
                sys.settrace(None)
                t.state = 'done'
                if t.on_done is not None and not self.aborting:
                    try:
                        t.on_done(t)
                    except BaseException as e:   # noqa
                        t.exc = e
                self.by_ident.pop(_thread.get_ident(), None)
                self.root_go.release()

        th = _real_Thread(target=boot, daemon=True, name='sim-' + name)
        t.thread = th
        _orig_thread_start(th)
        started.acquire()
        return t

    def _tracer(self, t):
        sim = self.sim
        opcodes = self.opcodes

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                t.lines += 1
                if t.raise_at is not None and t.lines >= t.raise_at and event == 'line':
                    cls, t.raise_at = t.raise_cls, None
                    sim.fault('line-raise')
                    sim.event('raise', t.name, os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    raise injected(cls)
                if t.quantum > 0:
                    t.quantum -= 1
                    if t.quantum == 0:
                        self.switch(t, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if not fn.startswith(PKG):
                return None
            b = frame.f_back
            n = 0
            while b is not None and n < 12:
                bf = b.f_code.co_filename
                if '/jax/' in bf or '/numba/' in bf or '/flax/' in bf or '/optax/' in bf:
                    return None          # never park inside a library's tracing machinery
                b = b.f_back
                n += 1
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def switch(self, t, where):
        """called in thread t: hand control back to the root"""
        tr = sys.gettrace()
        sys.settrace(None)
        self.sim.event('preempt', t.name, where)
        self.root_go.release()
        t.go.acquire()
        if self.aborting:
            raise SimAbort()
        sys.settrace(tr)

    def block(self, pred, what, timeout=None):
        """block the calling thread (root or managed) until pred() holds; False on (virtual) timeout"""
        if pred():
            return True
        deadline = None if timeout is None else self.sim.mono + max(timeout, 0)
        t = self.current()
        if t is None:
            if _thread.get_ident() != self.root_ident:
                raise HarnessError('blocking call from an unmanaged thread: {}'.format(what))
            return self.drive(pred, what, deadline)
        t.state, t.pred, t.deadline = 'blocked', pred, deadline
        tr = sys.gettrace()
        sys.settrace(None)
        self.root_go.release()
        t.go.acquire()
        if self.aborting:
            raise SimAbort()
        t.state, t.pred, t.deadline = 'ready', None, None
        sys.settrace(tr)
        return pred()

    # ---- the root loop
    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == 'ready' or (t.state == 'blocked' and t.pred()):
                out.append(t)
        if self.last in out:
            out.remove(self.last)
            out.insert(0, self.last)
        for p in self.pools:
            out.extend(p.startable())
        return out

    def step(self, what):
        ents = self.runnable()
        if not ents:
            return False
        sim = self.sim
        k = sim.choose(len(ents), 'next') if len(ents) > 1 else 0
        e = ents[k]
        sim.advance(0.05)
        if isinstance(e, MThread):
            if len(ents) > 1:
                sim.schedule_point('T', e.name)
            if e is not self.last:
                sim.n_switch += 1
            self.last = e
            if self.mean_quantum and e.traced and len([x for x in self.threads if x.state != 'done']) > 1:
                e.quantum = sim.quantum(self.mean_quantum)
            else:
                e.quantum = 0
            e.state = 'ready'
            e.go.release()
            if not self.root_go.acquire(timeout=WATCHDOG):
                raise HarnessError('a managed thread did not come back: {}'.format(e.name))
            if e.state == 'done':
                self.threads.remove(e)
                if isinstance(e.exc, HarnessError):
                    raise e.exc
        else:
            if len(ents) > 1:
                sim.schedule_point('P', e.label)
            self.last = None
            e.execute()
        return True

    def drive(self, pred, what, deadline=None):
        while not pred():
            if self.hang is not None:
                raise Violation('hang', self.hang)
            if deadline is not None and self.sim.mono >= deadline:
                return False
            if not self.step(what):
                ds = [t.deadline for t in self.threads if t.state == 'blocked' and t.deadline is not None]
                if deadline is not None:
                    ds.append(deadline)
                if ds and min(ds) > self.sim.mono:
                    self.sim.advance(min(ds) - self.sim.mono)
                    for t in self.threads:
                        if t.state == 'blocked' and t.deadline is not None and t.deadline <= self.sim.mono:
                            t.pred = lambda: True
                    continue
                self.hang = 'nothing can run any more while waiting for {}'.format(what)
                self.sim.event('hang', what)
                raise Violation('hang', self.hang)
        return True

    def abort(self):
        self.aborting = True
        for t in list(self.threads):
            if t.state != 'done':
                for _ in range(50):
                    t.go.release()
                    if not self.root_go.acquire(timeout=30):
                        break
                    if t.state == 'done':
                        break
        self.threads = []
        self.aborting = False


def sched():
    if CUR is None:
        raise HarnessError('no simulation is active')
    if CUR.scheduler is None:
        Scheduler(CUR)
    return CUR.scheduler


def active():
    return CUR is not None


# ============================================================================================= faults on tasks
class Fault:
    """kind in task-raise-before / task-raise-mid / task-raise-after / worker-death / start-failure; hits the nth
    worker task (or pool start) after arming."""

    def __init__(self, kind, nth=0, cls=RuntimeError, line=1, times=1, where=None):
        self.kind, self.nth, self.cls, self.line, self.times, self.where = kind, nth, cls, line, times, where
        self.seen = 0
        self.fired = 0

    def __repr__(self):
        return 'Fault({}, nth={}, {}, line={}, times={})'.format(self.kind, self.nth, self.cls.__name__, self.line, self.times)


def _match(kinds, where=None):
    """the armed fault that hits now, if any (at most one)"""
    for f in CUR.armed:
        if f.kind in kinds and f.fired < f.times and (f.where is None or f.where == where):
            n = f.seen
            f.seen += 1
            if n >= f.nth:
                f.fired += 1
                return f
    return None


class _LineRaiser:
    """raise cls at the k-th source line of the package executed by this thread"""

    def __init__(self, k, cls, what, outer=False):
        self.k, self.cls, self.what, self.n, self.fired, self.outer = k, cls, what, 0, False, outer

    def __enter__(self):
        self.old = sys.gettrace()

        def local(frame, event, arg):
            if event == 'line' and not self.fired:
                self.n += 1
                if self.n >= self.k:
                    self.fired = True
                    CUR.fault(self.what)
                    CUR.event('raise', self.what, os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    raise injected(self.cls)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKG) and not self.fired:
                back = frame.f_back
                while self.outer and back is not None:
                    if back.f_code.co_filename.startswith(PKG):
                        return None
                    back = back.f_back
                return local
            return None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


def line_raiser(k, cls=MemoryError, what='line-raise', outer=False):
    """outer: only the lines of the calls made from outside the package count"""
    return _LineRaiser(k, cls, what, outer)


def run_task(fn, args, kwargs, fault):
    """body of one worker task with an optional fault; exceptions propagate"""
    CUR.n_tasks += 1
    if fault is None:
        return fn(*args, **kwargs)
    if fault.kind == 'task-raise-before':
        CUR.fault('task-raise-before')
        raise injected(fault.cls)
    if fault.kind == 'task-raise-after':
        fn(*args, **kwargs)
        CUR.fault('task-raise-after')
        raise injected(fault.cls)
    if fault.kind == 'task-raise-mid':
        lr = _LineRaiser(fault.line, fault.cls, 'task-raise-mid')
        with lr:
            out = fn(*args, **kwargs)
        if not lr.fired:                       # the task is shorter than the drawn line: fail at its end
            CUR.fault('task-raise-after')
            raise injected(fault.cls)
        return out
    raise HarnessError(fault.kind)


TASK_FAULTS = ('task-raise-before', 'task-raise-mid', 'task-raise-after')


# ============================================================================================= futures
def _futures_mod():
    import concurrent.futures._base as b
    return b


class SimFuture:
    def __init__(self, label='future'):
        self._state = 'PENDING'
        self._result = None
        self._exception = None
        self._callbacks = []
        self.label = label

    def _finish(self):
        for cb in self._callbacks:
            cb(self)

    def set_result(self, r):
        self._result, self._state = r, 'FINISHED'
        self._finish()

    def set_exception(self, e):
        self._exception, self._state = e, 'FINISHED'
        self._finish()

    def cancel(self):
        if self._state in ('RUNNING', 'FINISHED'):
            return False
        if self._state == 'PENDING':
            self._state = 'CANCELLED'
            self._finish()
        return True

    def cancelled(self):
        return self._state == 'CANCELLED'

    def running(self):
        return self._state == 'RUNNING'

    def done(self):
        if self._state not in ('FINISHED', 'CANCELLED'):
            s = sched()                         # polling makes progress
            if s.current() is None and _thread.get_ident() == s.root_ident:
                s.step('poll')
        return self._state in ('FINISHED', 'CANCELLED')

    def _ready(self):
        return self._state in ('FINISHED', 'CANCELLED')

    def result(self, timeout=None):
        b = _futures_mod()
        if not sched().block(self._ready, self.label, timeout):
            raise b.TimeoutError()
        if self._state == 'CANCELLED':
            raise b.CancelledError()
        if self._exception is not None:
            raise self._exception
        return self._result

    def exception(self, timeout=None):
        b = _futures_mod()
        if not sched().block(self._ready, self.label, timeout):
            raise b.TimeoutError()
        if self._state == 'CANCELLED':
            raise b.CancelledError()
        return self._exception

    def add_done_callback(self, cb):
        if self._ready():
            cb(self)
        else:
            self._callbacks.append(cb)


def sim_wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    fs = set(fs)
    if any(not isinstance(f, SimFuture) for f in fs):
        return _orig_wait(fs, timeout, return_when)

    def pred():
        d = [f for f in fs if f._ready()]
        if return_when == 'FIRST_COMPLETED':
            return bool(d)
        if return_when == 'FIRST_EXCEPTION':
            return len(d) == len(fs) or any(f._exception is not None for f in d)
        return len(d) == len(fs)
    sched().block(pred, 'wait', timeout)
    done = {f for f in fs if f._ready()}
    import concurrent.futures._base as b
    return b.DoneAndNotDoneFutures(done, fs - done)


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    if any(not isinstance(f, SimFuture) for f in fs):
        yield from _orig_as_completed(fs, timeout)
        return
    order = []
    for f in fs:
        if f._ready():
            order.append(f)
        else:
            f._callbacks.append(order.append)
    given = 0
    while given < len(fs):
        if not sched().block(lambda: len(order) > given, 'as_completed', timeout):
            raise _futures_mod().TimeoutError()
        yield order[given]
        given += 1


def _check_workers(n):
    if n is not None and n <= 0:
        raise ValueError('max_workers must be greater than 0')


class _PoolBase:
    """common part of the two executors"""

    def __init__(self):
        s = sched()
        s.executors.append(weakref.ref(self))
        self._shut = False
        self._s = s
        self._futs = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = self._submit_chunks(fn, zip(*iterables), chunksize)
        end = None if timeout is None else CUR.mono + timeout

        def gen():
            try:
                pending = list(fs)
                pending.reverse()
                while pending:
                    f = pending.pop()
                    rest = None if end is None else max(end - CUR.mono, 0)
                    try:
                        out = f.result(rest)
                    except BaseException:
                        f.cancel()
                        raise
                    yield from out
            finally:
                for f in fs:
                    f.cancel()
        return gen()

    def _submit_chunks(self, fn, it, chunksize):
        return [self.submit(_call_list, fn, [a]) for a in it]

    def is_open(self):
        return not self._shut


def _call_list(fn, argss):
    return [fn(*a) for a in argss]


class SimThreadPool(_PoolBase):
    kind = 'thread pool'

    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        if max_workers is None:
            max_workers = min(32, CUR.ncpu + 4)
        _check_workers(max_workers)
        super().__init__()
        self._max_workers = int(max_workers)
        self._queue = []
        self._running = 0
        self._init = (initializer, initargs)

    def submit(self, fn, /, *args, **kwargs):
        if self._shut:
            raise RuntimeError('cannot schedule new futures after shutdown')
        if self._running < self._max_workers:
            f = _match(('start-failure',), 'thread')
            if f is not None:
                CUR.fault('start-failure')
                raise RuntimeError("can't start new thread")
        fut = SimFuture('a thread-pool task')
        self._futs.append(fut)
        self._queue.append((fut, fn, args, kwargs))
        self._fill()
        return fut

    def _fill(self):
        while self._running < self._max_workers and self._queue:
            fut, fn, args, kwargs = self._queue.pop(0)
            if fut._state == 'CANCELLED':
                continue
            fut._state = 'RUNNING'
            self._running += 1
            fault = _match(TASK_FAULTS)
            CUR.scheduler.n_named += 1
            name = 'w{}'.format(CUR.scheduler.n_named)
            holder = {}

            def body(fn=fn, args=args, kwargs=kwargs, fault=fault, fut=fut):
                t = self._s.current()
                CUR.n_tasks += 1
                if fault is not None and fault.kind == 'task-raise-before':
                    CUR.fault('task-raise-before')
                    raise injected(fault.cls)
                r = fn(*args, **kwargs)
                if fault is not None:
                    if fault.kind == 'task-raise-after' or t.raise_at is not None:
                        CUR.fault('task-raise-after')
                        raise injected(fault.cls)
                return r

            def done(t, fut=fut):
                self._running -= 1
                if t.exc is not None:
                    fut.set_exception(t.exc)
                else:
                    fut.set_result(t.result)
                self._fill()
            t = self._s.spawn(body, name, 'task', on_done=done)
            if fault is not None and fault.kind == 'task-raise-mid':
                t.raise_at, t.raise_cls = fault.line, fault.cls

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        if cancel_futures:
            for fut, *_ in self._queue:
                fut.cancel()
            self._queue = []
        if wait and not self._s.aborting:
            self._s.block(lambda: self._running == 0 and not self._queue, 'thread pool shutdown')


class _RngState:
    """random state of one simulated worker process"""

    def __init__(self):
        import numpy as np
        self.np = np.random.get_state()
        self.py = _pyrandom.getstate()

    def swap_in(self):
        import numpy as np
        self.saved = (np.random.get_state(), _pyrandom.getstate())
        np.random.set_state(self.np)
        _pyrandom.setstate(self.py)

    def swap_out(self):
        import numpy as np
        self.np, self.py = np.random.get_state(), _pyrandom.getstate()
        np.random.set_state(self.saved[0])
        _pyrandom.setstate(self.saved[1])


class _ProcTask:
    __slots__ = ('pool', 'fut', 'payload', 'label', 'worker')

    def __init__(self, pool, fut, payload, label):
        self.pool, self.fut, self.payload, self.label, self.worker = pool, fut, payload, label, None

    def execute(self):
        self.pool.execute(self)


class _ProcPoolCore:
    """tasks of one simulated pool of worker processes"""

    def __init__(self, n, dumps, loads, label):
        self.s = sched()
        self.n = n
        self.dumps, self.loads = dumps, loads
        self.queue = []
        self.inflight = []
        self.workers = None
        self.free = None
        self.s.pools.append(self)
        self.count = 0
        self.label = label
        self.broken = None
        self.lost = 0

    def close(self):
        if self in self.s.pools:
            self.s.pools.remove(self)

    def add(self, fut, fn, args, kwargs):
        if self.workers is None:
            self.workers = [_RngState() for _ in range(self.n)]
            self.free = list(range(self.n))
        payload = self.dumps((fn, args, kwargs))
        t = _ProcTask(self, fut, payload, '{}#{}'.format(self.label, self.count))
        self.count += 1
        self.queue.append(t)
        return t

    def startable(self):
        while self.queue and self.free:
            t = self.queue.pop(0)
            if t.fut._state == 'CANCELLED':
                continue
            t.fut._state = 'RUNNING'
            t.worker = self.free.pop(0)
            self.inflight.append(t)
        return list(self.inflight)

    def execute(self, t):
        self.inflight.remove(t)
        death = _match(('worker-death',), None)
        if death is not None:
            CUR.fault('worker-death')
            CUR.event('worker-death', t.label)
            self.on_death(t)
            return
        fault = _match(TASK_FAULTS)
        rng = self.workers[t.worker]
        exc = res = None
        CUR.event('task', t.label, 'worker', t.worker)
        saved_last = self.s.last
        rng.swap_in()
        try:
            try:
                fn, args, kwargs = self.loads(t.payload)
                res = run_task(fn, args, kwargs, fault)
                res = self.loads(self.dumps(res))
            except HarnessError:
                raise
            except Violation:
                raise
            except BaseException as e:   # noqa
                exc = self._ship(e)
        finally:
            rng.swap_out()
        self.free.append(t.worker)
        self.free.sort()
        self.s.last = saved_last
        if exc is not None:
            t.fut.set_exception(exc)
        else:
            t.fut.set_result(res)

    def _ship(self, e):
        e.__traceback__ = None
        try:
            return self.loads(self.dumps(e))
        except BaseException:   # noqa
            return RuntimeError('worker raised {!r}'.format(e))


def _fork_dumps(obj):
    from multiprocessing.reduction import ForkingPickler
    return bytes(ForkingPickler.dumps(obj))


def _fork_loads(b):
    return pickle.loads(b)


class SimProcessPool(_PoolBase):
    kind = 'process pool'

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is None:
            max_workers = CUR.ncpu
        _check_workers(max_workers)
        super().__init__()
        self._max_workers = int(max_workers)
        self._core = None
        self._broken = None
        self._init = (initializer, initargs)

    def submit(self, fn, /, *args, **kwargs):
        from concurrent.futures.process import BrokenProcessPool
        if self._broken:
            raise BrokenProcessPool(self._broken)
        if self._shut:
            raise RuntimeError('cannot schedule new futures after shutdown')
        if self._core is None:
            f = _match(('start-failure',), None)
            if f is not None:
                CUR.fault('start-failure')
                raise OSError(11, 'Resource temporarily unavailable')
            self._core = _ProcPoolCore(self._max_workers, _fork_dumps, _fork_loads, 'pp{}'.format(len(self._s.executors)))
            self._core.on_death = self._death
        fut = SimFuture('a process-pool task')
        self._futs.append(fut)
        try:
            self._core.add(fut, fn, args, kwargs)
        except BaseException as e:     # the real executor reports pickling errors through the future
            fut.set_exception(e)
        return fut

    def _death(self, task):
        from concurrent.futures.process import BrokenProcessPool
        self._broken = 'A process in the process pool was terminated abruptly while the future was running or pending.'
        core = self._core
        for t in [task] + core.inflight + core.queue:
            if not t.fut._ready():
                t.fut.set_exception(BrokenProcessPool(self._broken))
        core.inflight, core.queue = [], []

    def _submit_chunks(self, fn, it, chunksize):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        argss = list(it)
        return [self.submit(_call_list, fn, argss[i:i + chunksize]) for i in range(0, len(argss), chunksize)]

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        core = self._core
        if core is None:
            return
        if cancel_futures:
            for t in core.queue:
                t.fut.cancel()
            core.queue = []
        if wait and not self._s.aborting:
            self._s.block(lambda: not core.inflight and not [t for t in core.queue if not t.fut._ready()],
                          'process pool shutdown')
            core.close()


# ============================================================================================= multiprocessing.Pool
class SimAsyncResult:
    def __init__(self, futs, unwrap=None, callback=None, error_callback=None):
        self.futs, self.unwrap = futs, unwrap
        for f in futs:
            f.add_done_callback(lambda _f: self._cb(callback, error_callback))
        self._called = False

    def _cb(self, callback, error_callback):
        if not self._called and self.ready():
            self._called = True
            if self.successful():
                if callback:
                    callback(self.get())
            elif error_callback:
                error_callback(next(f._exception for f in self.futs if f._exception is not None))

    def ready(self):
        return all(f._ready() for f in self.futs)

    def successful(self):
        if not self.ready():
            raise ValueError('{0!r} not ready'.format(self))
        return all(f._exception is None for f in self.futs)

    def wait(self, timeout=None):
        sched().block(self.ready, 'Pool result', timeout)

    def get(self, timeout=None):
        import multiprocessing
        if not sched().block(self.ready, 'Pool result', timeout):
            raise multiprocessing.TimeoutError()
        for f in self.futs:
            if f._exception is not None:
                raise f._exception
        out = [x for f in self.futs for x in f._result]
        return out if self.unwrap is None else self.unwrap(out)


class SimPool:
    """multiprocessing.Pool; a worker killed while it holds a task loses the task for good (the real Pool restarts the
    worker and never completes the task)"""
    kind = 'multiprocessing pool'

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = CUR.ncpu
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        f = _match(('start-failure',), None)
        if f is not None:
            CUR.fault('start-failure')
            raise OSError(11, 'Resource temporarily unavailable')
        s = sched()
        s.executors.append(weakref.ref(self))
        self._s = s
        self._state = 'RUN'
        self._n = int(processes)
        self._core = _ProcPoolCore(self._n, _fork_dumps, _fork_loads, 'mp{}'.format(len(s.executors)))
        self._core.on_death = self._death

    def _death(self, task):
        self._core.free.append(task.worker)
        self._core.lost += 1

    def _check(self):
        if self._state != 'RUN':
            raise ValueError('Pool not running')

    def _go(self, fn, argss, star, chunksize):
        self._check()
        argss = list(argss)
        if chunksize is None:
            chunksize, extra = divmod(len(argss), self._n * 4)
            if extra:
                chunksize += 1
        chunksize = max(chunksize, 1)
        futs = []
        for i in range(0, len(argss), chunksize):
            fut = SimFuture('a multiprocessing pool task')
            part = argss[i:i + chunksize]
            self._core.add(fut, _call_list, (fn, [tuple(a) if star else (a,) for a in part]), {})
            futs.append(fut)
        return futs

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        fut = SimFuture('a multiprocessing pool task')
        self._core.add(fut, _call_one, (func, tuple(args), dict(kwds)), {})
        return SimAsyncResult([fut], lambda o: o[0], callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return SimAsyncResult(self._go(func, iterable, False, chunksize), None, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return SimAsyncResult(self._go(func, iterable, True, chunksize), None, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def imap(self, func, iterable, chunksize=1):
        futs = self._go(func, iterable, False, chunksize)

        def gen():
            for f in futs:
                yield from f.result()
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        futs = self._go(func, iterable, False, chunksize)

        def gen():
            for f in sim_as_completed(futs):
                yield from f.result()
        return gen()

    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'

    def terminate(self):
        self._state = 'TERMINATE'
        self._core.inflight, self._core.queue = [], []
        self._core.close()

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        c = self._core
        self._s.block(lambda: not c.inflight and not c.queue, 'pool join')
        if self._core.lost and self._state != 'TERMINATE':
            # the real join() waits for the lost task for ever
            self._s.block(lambda: False, 'pool join after a worker died')
        c.close()
        self._state = 'TERMINATE'

    def is_open(self):
        return self._state == 'RUN' or (self._state == 'CLOSE' and self._core in self._s.pools)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


def _call_one(func, args, kwds):
    return [func(*args, **kwds)]


# ============================================================================================= ray
def make_ray():
    ray = types.ModuleType('ray')
    exc = types.ModuleType('ray.exceptions')

    class RayError(Exception):
        pass

    class RayTaskError(RayError):
        def __init__(self, function_name='', traceback_str='', cause=None, **kw):
            super().__init__(traceback_str or str(cause))
            self.cause = cause

    class WorkerCrashedError(RayError):
        pass

    class GetTimeoutError(RayError, TimeoutError):
        pass

    class RaySystemError(RayError):
        pass

    for c in (RayError, RayTaskError, WorkerCrashedError, GetTimeoutError, RaySystemError):
        setattr(exc, c.__name__, c)
    ray.exceptions = exc

    class ObjectRef:
        def __init__(self, fut, gen):
            self.fut, self.gen = fut, gen

        def __reduce__(self):
            raise HarnessError('nested ray object references are not simulated')

    class State:
        core = None
        gen = 0

    def is_initialized():
        return State.core is not None and State.core.s is sched()

    def init(*a, ignore_reinit_error=False, num_cpus=None, **kw):
        if is_initialized():
            if ignore_reinit_error:
                return types.SimpleNamespace()
            raise RuntimeError('Maybe you called ray.init twice by accident? This error can be suppressed by passing in '
                               "'ignore_reinit_error=True' or by calling 'ray.shutdown()' prior to 'ray.init()'.")
        f = _match(('start-failure',), None)
        if f is not None:
            CUR.fault('start-failure')
            raise ConnectionError('ray could not be started')
        import cloudpickle
        State.core = _ProcPoolCore(int(num_cpus or CUR.ncpu), cloudpickle.dumps, pickle.loads, 'ray')
        State.core.on_death = death
        State.core.attempts = {}
        State.gen += 1
        State.open_since = State.gen
        CUR.event('ray.init')
        return types.SimpleNamespace()

    def death(task):
        core = State.core
        core.free.append(task.worker)
        k = core.attempts.get(task.label, 0) + 1
        core.attempts[task.label] = k
        if k <= 3:                       # max_retries=3 is ray's default
            core.queue.insert(0, task)
        else:
            task.fut.set_exception(WorkerCrashedError('The worker died unexpectedly while executing this task.'))

    def shutdown(*a, **k):
        if is_initialized():
            State.core.inflight, State.core.queue = [], []
            State.core.close()
            CUR.event('ray.shutdown')
        State.core = None

    class RemoteFunction:
        def __init__(self, fn, opts=None):
            self._fn, self._opts = fn, opts or {}

        def options(self, **kw):
            return RemoteFunction(self._fn, kw)

        def remote(self, *args, **kwargs):
            if not is_initialized():
                init()
            fut = SimFuture('a ray task')
            args = [a.fut.result() if isinstance(a, ObjectRef) else a for a in args]
            kwargs = {k: (a.fut.result() if isinstance(a, ObjectRef) else a) for k, a in kwargs.items()}
            State.core.add(fut, self._fn, tuple(args), kwargs)
            return ObjectRef(fut, State.gen)

        def __call__(self, *a, **k):
            raise TypeError('Remote functions cannot be called directly.')

    def remote(*args, **kwargs):
        if len(args) == 1 and not kwargs and callable(args[0]):
            if isinstance(args[0], type):
                raise HarnessError('ray actors are not simulated')
            return RemoteFunction(args[0])
        return lambda fn: RemoteFunction(fn, kwargs)

    def _raise(e):
        if isinstance(e, RayError):
            raise e
        # like ray: an instance of both RayTaskError and the class of the cause
        cls = type(e)
        try:
            class RayTaskErrorOf(RayTaskError, cls):
                def __init__(self, cause):
                    RayTaskError.__init__(self, cause=cause)
            RayTaskErrorOf.__name__ = 'RayTaskError({})'.format(cls.__name__)
            err = RayTaskErrorOf(e)
        except TypeError:
            err = RayTaskError(cause=e)
        raise err from e

    def _get1(ref, timeout):
        if not isinstance(ref, ObjectRef):
            raise ValueError('Invalid type of object refs, {}'.format(type(ref)))
        if ref.gen != State.gen or State.core is None:
            raise RaySystemError('the object belongs to a ray session that was shut down')
        if not sched().block(ref.fut._ready, 'a ray task', timeout):
            raise GetTimeoutError('Get timed out')
        if ref.fut._exception is not None:
            _raise(ref.fut._exception)
        import cloudpickle
        return pickle.loads(cloudpickle.dumps(ref.fut._result))

    def get(refs, timeout=None):
        if isinstance(refs, list):
            return [_get1(r, timeout) for r in refs]
        return _get1(refs, timeout)

    def put(x):
        import cloudpickle
        f = SimFuture('a ray object')
        f.set_result(pickle.loads(cloudpickle.dumps(x)))
        if not is_initialized():
            init()
        return ObjectRef(f, State.gen)

    def wait(refs, num_returns=1, timeout=None, fetch_local=True):
        sched().block(lambda: sum(r.fut._ready() for r in refs) >= num_returns, 'ray.wait', timeout)
        done = [r for r in refs if r.fut._ready()][:num_returns]
        return done, [r for r in refs if r not in done]

    def cancel(ref, *a, **k):
        ref.fut.cancel()

    def _reset():
        State.core = None

    def generation():
        return State.gen if is_initialized() else None
    for f in (init, shutdown, is_initialized, remote, get, put, wait, cancel):
        setattr(ray, f.__name__, f)
    ray.ObjectRef = ObjectRef
    ray._reset = _reset
    ray._generation = generation
    ray.cluster_resources = lambda: {'CPU': float(CUR.ncpu if CUR else 4)}
    ray.available_resources = ray.cluster_resources
    ray.__version__ = '2.0.0-sim'
    ray.__path__ = []
    return ray, exc


# ============================================================================================= locks and threads of the SUT
class SimLock:
    def __init__(self, reentrant=False):
        self._owner = None
        self._n = 0
        self._re = reentrant

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        if self._re and self._owner == self._me():
            self._n += 1
            return True
        if self._owner is None:
            self._owner, self._n = self._me(), 1
            return True
        if not blocking:
            return False
        if not sched().block(lambda: self._owner is None, 'a lock', None if timeout < 0 else timeout):
            return False
        self._owner, self._n = self._me(), 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getstate__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def _lock_factory():
    if CUR is not None and repo_frame(1):
        return SimLock()
    return _real_Lock()


def _rlock_factory():
    if CUR is not None and repo_frame(1):
        return SimLock(True)
    return _real_RLock()


_orig_thread_start = _real_Thread.start
_orig_thread_join = _real_Thread.join


def _thread_start(self):
    if CUR is not None and repo_on_stack(1, 8):
        s = sched()
        s.n_named += 1
        self._sim = s.spawn(self.run, 't{}'.format(s.n_named), 'thread')
        return
    return _orig_thread_start(self)


def _thread_join(self, timeout=None):
    t = getattr(self, '_sim', None)
    if t is not None:
        sched().block(lambda: t.state == 'done', 'thread join', timeout)
        return
    return _orig_thread_join(self, timeout)


# ============================================================================================= install
_installed = False
RAY = None


def install():
    global _installed, RAY, _orig_wait, _orig_as_completed
    if _installed:
        return
    if any(m == 'pyforecaster' or m.startswith('pyforecaster.') for m in sys.modules) or 'ray' in sys.modules:
        raise HarnessError('seams must be installed before pyforecaster or ray is imported')
    _installed = True
    RAY, exc = make_ray()
    sys.modules['ray'] = RAY
    sys.modules['ray.exceptions'] = exc

    import multiprocessing
    import multiprocessing.pool
    import multiprocessing.context
    real_pool = multiprocessing.Pool
    real_mp_cpu, real_os_cpu = multiprocessing.cpu_count, os.cpu_count

    def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if CUR is not None:
            return SimPool(processes, initializer, initargs, maxtasksperchild)
        return real_pool(processes, initializer, initargs, maxtasksperchild)
    multiprocessing.Pool = Pool

    def cpu_count():
        if CUR is not None and repo_frame(1):
            return CUR.ncpu
        return real_mp_cpu()
    multiprocessing.cpu_count = cpu_count

    def os_cpu_count():
        if CUR is not None and repo_frame(1):
            return CUR.ncpu
        return real_os_cpu()
    os.cpu_count = os_cpu_count
    if hasattr(os, 'sched_getaffinity'):
        real_aff = os.sched_getaffinity

        def sched_getaffinity(pid):
            if CUR is not None and repo_frame(1):
                return set(range(CUR.ncpu))
            return real_aff(pid)
        os.sched_getaffinity = sched_getaffinity
    bctx = multiprocessing.context.BaseContext
    real_ctx_pool, real_ctx_cpu = bctx.Pool, bctx.cpu_count

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if CUR is not None:
            return SimPool(processes, initializer, initargs, maxtasksperchild)
        return real_ctx_pool(self, processes, initializer, initargs, maxtasksperchild)
    bctx.Pool = ctx_pool

    def ctx_cpu(self):
        if CUR is not None and repo_frame(1):
            return CUR.ncpu
        return real_ctx_cpu(self)
    bctx.cpu_count = ctx_cpu

    import concurrent.futures as cf
    import concurrent.futures.thread as cft
    import concurrent.futures.process as cfp
    import concurrent.futures._base as cfb
    _orig_wait, _orig_as_completed = cfb.wait, cfb.as_completed

    def make(real, simcls):
        class Executor(cfb.Executor):
            def __new__(cls, *a, **k):
                if CUR is not None:
                    return simcls(*a, **k)
                return real(*a, **k)
        Executor.__name__ = Executor.__qualname__ = real.__name__
        return Executor
    TP, PP = make(cft.ThreadPoolExecutor, SimThreadPool), make(cfp.ProcessPoolExecutor, SimProcessPool)
    cft.ThreadPoolExecutor = cf.ThreadPoolExecutor = TP
    cfp.ProcessPoolExecutor = cf.ProcessPoolExecutor = PP
    cf.wait = cfb.wait = sim_wait
    cf.as_completed = cfb.as_completed = sim_as_completed

    # clocks
    def vtime():
        return CUR.now if CUR is not None and repo_frame(1) else _real_time()

    def vmono():
        return CUR.mono if CUR is not None and repo_frame(1) else _real_mono()

    def vperf():
        return CUR.mono if CUR is not None and repo_frame(1) else _real_perf()

    def vsleep(dt):
        if CUR is not None and repo_frame(1):
            end = CUR.mono + dt
            sched().block(lambda: CUR.mono >= end, 'sleep', dt)
            return
        return _real_sleep(dt)

    def vtime_ns():
        return int(CUR.now * 1e9) if CUR is not None and repo_frame(1) else _real_time_ns()
    _real_time_ns = _time.time_ns
    _time.time, _time.monotonic, _time.perf_counter, _time.sleep = vtime, vmono, vperf, vsleep
    _time.time_ns = vtime_ns

    # threads and locks created by the code under test
    threading.Lock, threading.RLock = _lock_factory, _rlock_factory
    _real_Thread.start, _real_Thread.join = _thread_start, _thread_join

    import numpy as np
    real_default_rng = np.random.default_rng

    def default_rng(seed=None):
        if seed is None and CUR is not None:
            CUR.event('unseeded generator')
            CUR.unseeded = getattr(CUR, 'unseeded', 0) + 1
            return real_default_rng(seed_int('background', getattr(CUR, 'background_seed', 0), CUR.unseeded))
        return real_default_rng(seed)
    np.random.default_rng = default_rng

    sys.path.insert(0, REPO)
    import tqdm
    tqdm.tqdm.monitor_interval = 0


# ============================================================================================= per-run
class Session:
    """makes a Sim current; cleans up afterwards"""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global CUR
        if CUR is not None:
            raise HarnessError('nested simulation')
        CUR = self.sim
        RAY._reset()
        self.sim.scheduler = None
        Scheduler(self.sim)
        import numpy as np
        np.random.seed(12345)
        _pyrandom.seed(12345)
        return self.sim

    def __exit__(self, *a):
        global CUR
        try:
            self.sim.scheduler.abort()
        finally:
            sys.settrace(None)
            CUR = None
            RAY._reset()
        return False


def concurrently(fns, names=None, mean_quantum=0, opcodes=False):
    """Run the callables as concurrent caller threads; returns [(result, exception)]."""
    s = sched()
    old = s.mean_quantum, s.opcodes
    s.mean_quantum, s.opcodes = mean_quantum, opcodes
    ts = [s.spawn(f, (names[i] if names else 'c{}'.format(i)), 'client') for i, f in enumerate(fns)]
    try:
        s.drive(lambda: all(t.state == 'done' for t in ts), 'the caller threads')
    finally:
        s.mean_quantum, s.opcodes = old
    for t in ts:
        if isinstance(t.exc, (HarnessError, Violation)):
            raise t.exc
    return [(t.result, t.exc) for t in ts]


def yield_now():
    """a harness thread lets the others run"""
    t = sched().current()
    if t is not None:
        sched().switch(t, ('harness', 0))


def threaded(mean_quantum, opcodes=False):
    """context: pool threads are pre-empted on source lines with this mean quantum"""
    class _C:
        def __enter__(self):
            s = sched()
            self.old = s.mean_quantum, s.opcodes
            s.mean_quantum, s.opcodes = mean_quantum, opcodes

        def __exit__(self, *a):
            s = sched()
            s.mean_quantum, s.opcodes = self.old
            return False
    return _C()


def open_pools():
    """worker pools that are still open and reachable"""
    gc.collect()
    s = sched()
    out = []
    for r in s.executors:
        p = r()
        if p is not None and p.is_open():
            out.append(p.kind)
    return out


def ray_generation():
    return RAY._generation()
