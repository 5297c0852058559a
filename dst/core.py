"""Deterministic simulator core.

One `Sim` object is one simulated execution.  It owns every choice that a real
execution leaves to the environment: which thread runs next, when a timed wait
expires, how long a pool task takes, which worker finishes first, what the wall
clock reads, and which I/O operation or worker fails.  Real threads are used
for the code under test, but exactly one of them holds the baton at any time;
the others are parked, so the only interleavings that exist are those chosen
here.  All choices come from one PRNG and are recorded as a list of small
integers (`trace`), and a run can be repeated from that list alone.
"""
import collections
import hashlib
import itertools
import pickle
import random
import sys
import threading as _threading
import multiprocessing as _mp
import time as _time
from multiprocessing.pool import MaybeEncodingError

import dill  # noqa: F401  (imported before any seam is installed)

_real_Thread = _threading.Thread
_real_Lock = _threading.Lock
_real_time = _time.time
_real_monotonic = _time.monotonic
_tls = _threading.local()

_current = [None]  # the active simulation of this process


def active():
    return _current[0]


class SimKilled(BaseException):
    """Unwinds parked threads at the end of a run."""


class SimHang(BaseException):
    """No progress within the step budget although no fault is pending."""


class SimDeadlock(SimHang):
    pass


class Sim(object):
    STALL_LIMIT = 6000      # scheduling steps without any progress event
    STEP_LIMIT = 400000     # scheduling steps of one run

    def __init__(self, seed, cfg=None, choices=None):
        self.seed = seed
        self.cfg = dict(cfg or {})
        self.rng = random.Random('sched-%s' % seed)
        self.replay = list(choices) if choices is not None else None
        self.replay_pos = 0
        self.trace = []
        self.now = 0.0
        self.wall0 = 1500000000.0
        self.wall_offset = 0.0
        self.steps = 0
        self.stall = 0
        self.log = []
        self.inter = hashlib.sha1()
        self.stats = collections.Counter()
        self.threads = []
        self.killed = False
        self.abort = None
        self.lines_to_preempt = None
        self.io = None               # iofault.IO
        self.pools = []
        self.thread_exceptions = []
        self.n_switch = 0
        self.main = None
        self.seq = itertools.count()
        self.policy = self.cfg.get('policy', 'random')
        self.prio = {}

    # -- choices -----------------------------------------------------------
    def choose(self, n, label=''):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.replay_pos] % n if self.replay_pos < len(self.replay) else 0
            self.replay_pos += 1
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        return v

    def forced(self, n, v):
        """A choice made by a policy; recorded like any other."""
        if self.replay is not None:
            return self.choose(n)
        self.trace.append(v)
        return v

    def chance(self, permille):
        if permille <= 0:
            return False
        return self.choose(1000) >= 1000 - permille   # 0 means "no"

    # -- log ---------------------------------------------------------------
    def event(self, *what):
        me = self.me()
        line = '%08.3f %s %s' % (self.now, me.name if me else '-', ' '.join(str(w) for w in what))
        if len(self.log) < 5000:
            self.log.append(line)
        self.inter.update(line.encode('utf8', 'replace'))

    def progress(self):
        self.stall = 0

    # -- threads -----------------------------------------------------------
    def me(self):
        return getattr(_tls, 'simthread', None)

    def start_main(self):
        t = SimThread.__new__(SimThread)
        t._init_state(self, 'Main')
        t.state = 'ready'
        t.real = None
        self.main = t
        self.threads.append(t)
        _tls.simthread = t
        return t

    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == 'ready':
                out.append(t)
            elif t.state == 'blocked':
                if (t.wake is not None and t.wake <= self.now) or t.pred():
                    out.append(t)
        return out

    def next_timer(self):
        times = [t.wake for t in self.threads if t.state == 'blocked' and t.wake is not None]
        for p in self.pools:
            nt = p.next_time()
            if nt is not None:
                times.append(nt)
        times = [x for x in times if x > self.now]
        return min(times) if times else None

    def switch(self, label=''):
        """Scheduling point: hand the baton to a chosen runnable thread."""
        me = self.me()
        if me is None or me.sim is not self:
            return
        self._check_kill(me)
        self.steps += 1
        self.stall += 1
        if self.stall > self.STALL_LIMIT or self.steps > self.STEP_LIMIT:
            self._die(SimHang('no progress for %d scheduling steps (simulated time %.2f s)' % (self.stall, self.now)))
        if self.cfg.get('stall_permille') and self.chance(self.cfg['stall_permille']):
            d = (1 + self.choose(40)) * 0.005
            self.now += d       # the running thread was slow
            self.stats['fault.slow_thread'] += 1
        for p in self.pools:
            p.advance()
        while True:
            run = self.runnable()
            if run:
                break
            nt = self.next_timer()
            if nt is None:
                self._die(SimDeadlock('all threads blocked and no timer pending (simulated time %.2f s)' % self.now))
            self.now = nt
            for p in self.pools:
                p.advance()
        nxt = self._pick(run, me)
        if nxt is me:
            me.state = 'ready'
            return
        self.n_switch += 1
        self.inter.update(('>%s' % nxt.name).encode())
        nxt.state = 'ready'
        nxt.sem.release()
        if me.state == 'done':
            return
        me.sem.acquire()
        self._check_kill(me)

    def _pick(self, run, me):
        n = len(run)
        if n == 1:
            return run[0]
        if self.policy == 'sticky':
            if me in run:
                stay = run.index(me)
                if self.choose(8) != 7:
                    return run[stay]
            return run[self.choose(n)]
        if self.policy == 'prio':
            # random priorities, changed at random points (PCT style)
            for t in run:
                if t.name not in self.prio:
                    self.prio[t.name] = self.choose(1000)
            # a polling thread that keeps winning must eventually yield
            best = max(run, key=lambda t: (self.prio[t.name] - t.starve, t.name))
            if self.choose(20) == 19:
                self.prio[best.name] = self.choose(1000)
            best.starve += 25
            for t in run:
                if t is not best:
                    t.starve = max(0, t.starve - 50)
            return best
        return run[self.choose(n)]

    def _die(self, exc):
        """Abort the run: every parked thread is unwound, main gets exc."""
        self.abort = self.abort or exc
        me = self.me()
        if me is self.main:
            raise self.abort
        # hand the baton to main, which raises
        self.main.state = 'ready'
        self.main.sem.release()
        me.sem.acquire()
        raise SimKilled()

    def _check_kill(self, me):
        if self.killed:
            raise SimKilled()
        if self.abort is not None and me is self.main:
            raise self.abort

    def block_until(self, pred, timeout=None, label=''):
        """Returns True when pred() holds, False on (simulated) timeout."""
        me = self.me()
        if me is None or me.sim is not self:
            return pred()
        deadline = None if timeout is None else self.now + max(0.0, timeout)
        first = True
        while True:
            if not first:
                if pred():
                    me.pred = me.wake = None
                    return True
                if deadline is not None and self.now >= deadline:
                    me.pred = me.wake = None
                    return False
            me.pred = pred
            me.wake = deadline
            me.state = 'blocked'
            if first and pred():
                me.state = 'ready'
            first = False
            self.switch(label)

    def preempt(self, label=''):
        me = self.me()
        if me is None or me.sim is not self:
            return
        me.state = 'ready'
        self.switch(label)

    def sleep(self, d):
        self.block_until(lambda: False, d)

    def unwind(self):
        """Ends the run: no simulated thread survives it."""
        self.killed = True
        leaked = 0
        for t in self.threads:
            if t is self.main or t.real is None:
                continue
            while t.real.is_alive():
                leaked += t.state != 'done'
                t.sem.release()
                t.real.join(0.5)
        _tls.simthread = None
        return leaked

    # -- clock -------------------------------------------------------------
    def wall(self):
        return self.wall0 + self.wall_offset + self.now


# ---------------------------------------------------------------------------
# threading
# ---------------------------------------------------------------------------
_tracer_files = ('smc.py',)


class SimThread(object):
    _counter = itertools.count(1)

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        sim = active()
        self._init_state(sim, name or 'Thread-%d' % (1 + len(sim.threads)))
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = bool(daemon)

    def _init_state(self, sim, name):
        self.sim = sim
        self.name = name
        self.sem = _threading.Semaphore(0)
        self.state = 'new'
        self.pred = None
        self.wake = None
        self.real = None
        self.starve = 0
        self.exception = None
        self.ident = None

    def setDaemon(self, d):
        self.daemon = d

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sim = self.sim
        if self.state != 'new':
            raise RuntimeError('threads can only be started once')
        if sim.io is not None:
            sim.io.hit('thread_start', self.name)
        self.real = _real_Thread(target=self._boot, name=self.name, daemon=True)
        base, n = self.name, 2
        while any(t.name == self.name for t in sim.threads):
            self.name = '%s#%d' % (base, n)
            n += 1
        sim.threads.append(self)
        self.ident = len(sim.threads)
        self.state = 'ready'
        sim.stats['threads'] += 1
        self.real.start()
        sim.preempt('thread_start')

    def _boot(self):
        _tls.simthread = self
        sim = self.sim
        self.sem.acquire()
        try:
            if sim.killed:
                return
            if sim.cfg.get('line_permille'):
                sys.settrace(_tracer(sim))
            try:
                self.run()
            except SimKilled:
                return
            except BaseException as e:
                self.exception = e
                sim.thread_exceptions.append((self.name, e))
                sim.event('thread died', type(e).__name__, e)
            finally:
                sys.settrace(None)
            self.state = 'done'
            sim.progress()
            try:
                sim.switch('thread_end')
            except SimKilled:
                pass
        finally:
            self.state = 'done'
            _tls.simthread = None

    def join(self, timeout=None):
        if self.state == 'new':
            raise RuntimeError('cannot join thread before it is started')
        self.sim.block_until(lambda: self.state == 'done', timeout, 'join')

    def is_alive(self):
        self.sim.preempt('is_alive')
        return self.state not in ('new', 'done')

    isAlive = is_alive


def _tracer(sim):
    permille = sim.cfg['line_permille']

    def draw():
        g = sim.choose(1 + 2 * (1000 // permille))
        return g if g else None          # 0: no further preemption

    left = [draw()]

    def local(frame, ev, arg):
        if ev == 'line' and left[0] is not None:
            left[0] -= 1
            if left[0] <= 0:
                left[0] = draw()
                sim.stats['preempt.line'] += 1
                sim.preempt('line')
        return local

    def glob(frame, ev, arg):
        if ev == 'call' and frame.f_code.co_filename.endswith(_tracer_files):
            return local
        return None
    return glob


class SimLock(object):
    def __init__(self):
        self.sim = active()
        self.owner = None
        self.count = 0
        self.reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        sim = self.sim
        me = sim.me()
        if self.reentrant and self.owner is me and self.count:
            self.count += 1
            return True
        if not blocking:
            sim.preempt('lock')
            if self.count:
                return False
        elif not sim.block_until(lambda: self.count == 0, None if timeout is None or timeout < 0 else timeout, 'lock'):
            return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
        self.sim.preempt('unlock')

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        if self.sim.killed:
            self.count = 0
            return
        self.release()


class SimRLock(SimLock):
    def __init__(self):
        SimLock.__init__(self)
        self.reentrant = True


class SimEvent(object):
    def __init__(self):
        self.sim = active()
        self.flag = False

    def is_set(self):
        self.sim.preempt('is_set')
        return self.flag

    isSet = is_set

    def set(self):
        self.sim.preempt('set')
        if not self.flag:
            self.sim.progress()
        self.flag = True
        self.sim.event('event.set')
        self.sim.preempt('set')

    def clear(self):
        self.flag = False
        self.sim.preempt('clear')

    def wait(self, timeout=None):
        return self.sim.block_until(lambda: self.flag, timeout, 'wait')


class SimCondition(object):
    def __init__(self, lock=None):
        self.sim = active()
        self.lock = lock or SimRLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self.waiters.append(tok)
        saved, self.lock.count, self.lock.owner = self.lock.count, 0, None
        ok = self.sim.block_until(lambda: tok[0], timeout)
        if tok in self.waiters:
            self.waiters.remove(tok)
        self.sim.block_until(lambda: self.lock.count == 0)
        self.lock.count, self.lock.owner = saved, self.sim.me()
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else self.sim.now + timeout
        while not predicate():
            left = None if end is None else end - self.sim.now
            if left is not None and left <= 0:
                return predicate()
            self.wait(left)
        return True

    def notify(self, n=1):
        for tok in self.waiters[:n]:
            tok[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


class SimSemaphore(object):
    def __init__(self, value=1):
        self.sim = active()
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            timeout = 0
        if not self.sim.block_until(lambda: self.value > 0, timeout):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n
        self.sim.preempt('sem')

    __enter__ = acquire

    def __exit__(self, *a):
        self.value += 1


class SimDeque(collections.deque):
    """deque whose operations are scheduling points."""
    def _p(self):
        s = active()
        if s is not None:
            s.preempt('deque')
        return s

    def append(self, x):
        s = self._p()
        collections.deque.append(self, x)
        if s is not None:
            s.progress()
            s.preempt('deque')

    def appendleft(self, x):
        s = self._p()
        collections.deque.appendleft(self, x)
        if s is not None:
            s.progress()

    def popleft(self):
        s = self._p()
        r = collections.deque.popleft(self)
        if s is not None:
            s.progress()
        return r

    def pop(self):
        s = self._p()
        r = collections.deque.pop(self)
        if s is not None:
            s.progress()
        return r

    def __len__(self):
        self._p()
        return collections.deque.__len__(self)

    def __bool__(self):
        self._p()
        return collections.deque.__len__(self) > 0


class SimQueue(object):
    def __init__(self, maxsize=0):
        self.sim = active()
        self.maxsize = maxsize
        self.q = collections.deque()
        self.unfinished = 0

    def put(self, item, block=True, timeout=None):
        import queue
        if self.maxsize > 0:
            if not self.sim.block_until(lambda: len(self.q) < self.maxsize, timeout if block else 0):
                raise queue.Full
        else:
            self.sim.preempt('put')
        self.q.append(item)
        self.unfinished += 1
        self.sim.progress()

    def get(self, block=True, timeout=None):
        import queue
        if not self.sim.block_until(lambda: bool(self.q), timeout if block else 0):
            raise queue.Empty
        self.sim.progress()
        return self.q.popleft()

    def put_nowait(self, item):
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.q

    def full(self):
        return 0 < self.maxsize <= len(self.q)

    def qsize(self):
        return len(self.q)

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        self.sim.block_until(lambda: self.unfinished == 0)


# ---------------------------------------------------------------------------
# multiprocessing
# ---------------------------------------------------------------------------
class WorkerKilled(BaseException):
    """Ends the simulated worker process that runs the task."""


class SimWorker(object):
    """A worker process of a pool, as far as its owner can see it."""

    def __init__(self, pool, number):
        self.pool, self.pid, self.name = pool, 1000 + number, 'SimPoolWorker-%d' % number
        self._exitcode = None

    @property
    def exitcode(self):
        return self._exitcode if self._exitcode is not None else -15 if self.pool.state == 'terminated' else None

    def is_alive(self):
        self.pool.sim.preempt('worker.is_alive')
        return self.exitcode is None


class SimAsyncResult(object):
    def __init__(self, pool, fn, args, kwds, callback=None, error_callback=None):
        self.pool = pool
        self.sim = pool.sim
        self.call = (fn, args, kwds)
        self.payload = None
        self.state = 'queued'
        self.success = None
        self.value = None
        self.ready_at = None
        self.callback, self.error_callback = callback, error_callback
        self.index = pool.sim.stats['pool.tasks']
        pool.sim.stats['pool.tasks'] += 1
        self.pickle_late = pool.sim.chance(pool.sim.cfg.get('late_pickle_permille', 0))
        if not self.pickle_late:
            self._pickle()

    def _pickle(self):
        if self.payload is None:
            try:
                self.payload = pickle.dumps(self.call, protocol=pickle.HIGHEST_PROTOCOL)
            except Exception as e:
                self.payload = e
            self.call = None

    def _execute(self):
        """Runs the task as the worker process would: on a private copy."""
        self._pickle()
        sim = self.sim
        self.state = 'done'
        if isinstance(self.payload, Exception):
            self.success, self.value = False, self.payload
        else:
            try:
                fn, args, kwds = pickle.loads(self.payload)
                if sim.io is not None:
                    sim.io.hit('worker', 'task', index=self.index)
                saved, _tls.simthread = getattr(_tls, 'simthread', None), None
                try:
                    res = fn(*args, **kwds)
                finally:
                    _tls.simthread = saved
                self.success = True
            except SimHang:
                raise
            except (WorkerKilled, SystemExit) as e:
                self.state, self.payload = 'lost', None
                sim.stats['fault.worker_process_death'] += 1
                sim.event('task', self.index, 'lost')
                self.pool.lose_worker(self.index, -9 if isinstance(e, WorkerKilled) else 1)
                return
            except Exception as e:
                self.success, res = False, e
            try:
                self.value = pickle.loads(pickle.dumps(res, protocol=pickle.HIGHEST_PROTOCOL))
            except Exception as e:
                self.success, self.value = False, MaybeEncodingError(e, res)
        self.payload = None
        sim.event('task', self.index, 'ok' if self.success else 'failed')
        sim.progress()
        cb = self.callback if self.success else self.error_callback
        if cb:
            cb(self.value)

    def ready(self):
        self.sim.preempt('ready')
        return self.state == 'done'

    def successful(self):
        if self.state != 'done':
            raise ValueError('not ready')
        return self.success

    def wait(self, timeout=None):
        self.sim.block_until(lambda: self.state == 'done', timeout, 'result.wait')

    def get(self, timeout=None):
        if not self.sim.block_until(lambda: self.state == 'done', timeout, 'result.get'):
            raise _mp.TimeoutError
        if not self.success:
            raise self.value
        return self.value


class SimPool(object):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.sim = sim = active()
        if processes is None:
            processes = sim.cfg.get('cpu_count', 2)
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if sim.io is not None:
            sim.io.hit('pool_create', 'Pool')
        self.n = processes
        self.queue = []
        self.running = []
        self.state = 'run'
        self.index = len(sim.pools)
        self._pool, self.workers, self.lost = [], 0, 0
        for i in range(processes):
            self._start_worker()
        sim.pools.append(self)
        sim.stats['pools'] += 1
        sim.event('pool', processes)

    def _start_worker(self):
        self.workers += 1
        self._pool.append(SimWorker(self, self.workers))

    def lose_worker(self, task, exitcode):
        """The process that ran the task is gone; it is replaced, the task is not repeated."""
        self._pool.pop(task % len(self._pool))._exitcode = exitcode
        self._start_worker()
        self.lost += 1

    def next_time(self):
        return min([r.ready_at for r in self.running]) if self.running else None

    def advance(self):
        if self.state == 'terminated':
            return
        while True:
            while self.queue and len(self.running) < self.n:
                r = self.queue.pop(0)
                r.state = 'running'
                # task durations: mostly short, sometimes long, so that later
                # chunks finish before earlier ones
                d = self.sim.choose(self.sim.cfg.get('task_spread', 50))
                r.ready_at = self.sim.now + 0.001 * d * (1 if self.sim.choose(6) != 5 else 20)
                self.running.append(r)
            due = [r for r in self.running if r.ready_at <= self.sim.now]
            if not due:
                return
            r = due[self.sim.choose(len(due))]
            if r is not min(self.running, key=lambda q: q.index):
                self.sim.stats['pool.out_of_order'] += 1
            self.running.remove(r)
            r._execute()

    def _submit(self, fn, args, kwds, cb=None, ecb=None):
        if self.state != 'run':
            raise ValueError('Pool not running')
        r = SimAsyncResult(self, fn, tuple(args), dict(kwds), cb, ecb)
        self.queue.append(r)
        self.sim.progress()
        self.sim.preempt('apply_async')
        return r

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, args, kwds, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _SimMapResult([self._submit(func, (x,), {}) for x in iterable], callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return _SimMapResult([self._submit(func, x, {}) for x in iterable]).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _SimMapResult([self._submit(func, x, {}) for x in iterable], callback)

    def imap(self, func, iterable, chunksize=1):
        rs = [self._submit(func, (x,), {}) for x in iterable]
        return (r.get() for r in rs)

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self._submit(func, (x,), {}) for x in iterable]

        def gen():
            left = list(rs)
            while left:
                self.sim.block_until(lambda: any(r.state == 'done' for r in left))
                done = [r for r in left if r.state == 'done']
                r = done[self.sim.choose(len(done))]
                left.remove(r)
                yield r.get()
        return gen()

    def close(self):
        if self.state == 'run':
            self.state = 'closed'
        self.sim.preempt('pool.close')

    def terminate(self):
        self.state = 'terminated'
        self.queue, self.running = [], []
        self.sim.preempt('pool.terminate')

    def join(self):
        if self.state == 'run':
            raise ValueError('Pool is still running')
        if self.state == 'terminated':
            return
        self.sim.block_until(lambda: not self.queue and not self.running and not self.lost, None, 'pool.join')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _SimMapResult(object):
    def __init__(self, rs, callback=None):
        self.rs, self.callback = rs, callback

    def get(self, timeout=None):
        out = [r.get(timeout) for r in self.rs]
        if self.callback:
            self.callback(out)
        return out

    def wait(self, timeout=None):
        for r in self.rs:
            r.wait(timeout)

    def ready(self):
        return all(r.state == 'done' for r in self.rs)


# ---------------------------------------------------------------------------
# dispatching seams
# ---------------------------------------------------------------------------
def _dispatch(real, sim_cls, name):
    def make(*a, **k):
        s = active()
        if s is not None and s.me() is not None:
            return sim_cls(*a, **k)
        return real(*a, **k)
    make.__name__ = name
    make._real = real
    return make


_real_Pool = _mp.Pool
_real_cpu_count = _mp.cpu_count


def sim_cpu_count():
    s = active()
    if s is not None:
        return s.cfg.get('cpu_count', 2)
    return _real_cpu_count()


def sim_sleep(d):
    s = active()
    if s is not None and s.me() is not None:
        return s.sleep(d)
    return _time.sleep(d)


def sim_time():
    s = active()
    if s is not None:
        return s.wall()
    return _real_time()


def _sim_calendar(real, takes_struct):
    def call(*a):
        s = active()
        if s is not None and not (a and a[-1] is not None and (takes_struct or not isinstance(a[-1], str))):
            t = _time.localtime(s.wall()) if takes_struct else s.wall()
            a = tuple(x for x in a if x is not None) + (t,)
        return real(*a)
    call.__name__ = real.__name__
    return call


sim_asctime = _sim_calendar(_time.asctime, True)
sim_localtime = _sim_calendar(_time.localtime, False)
sim_gmtime = _sim_calendar(_time.gmtime, False)
sim_ctime = _sim_calendar(_time.ctime, False)


class _ModuleShim(object):
    def __init__(self, mod, repl):
        self.__dict__['_mod'] = mod
        self.__dict__.update(repl)

    def __getattr__(self, name):
        return getattr(self._mod, name)


def build_seams():
    import queue
    import os
    P = _dispatch(_real_Pool, SimPool, 'Pool')
    T = SimThreadFactory
    seams = [
        (_real_Pool, P),
        (_real_cpu_count, sim_cpu_count),
        (os.cpu_count, sim_cpu_count),
        (_threading.Thread, T),
        (_threading.Event, _dispatch(_threading.Event, SimEvent, 'Event')),
        (_threading.Lock, _dispatch(_threading.Lock, SimLock, 'Lock')),
        (_threading.RLock, _dispatch(_threading.RLock, SimRLock, 'RLock')),
        (_threading.Condition, _dispatch(_threading.Condition, SimCondition, 'Condition')),
        (_threading.Semaphore, _dispatch(_threading.Semaphore, SimSemaphore, 'Semaphore')),
        (_threading.BoundedSemaphore, _dispatch(_threading.BoundedSemaphore, SimSemaphore, 'BoundedSemaphore')),
        (collections.deque, SimDeque),
        (queue.Queue, _dispatch(queue.Queue, SimQueue, 'Queue')),
        (queue.SimpleQueue, _dispatch(queue.SimpleQueue, SimQueue, 'SimpleQueue')),
        (_time.sleep, sim_sleep),
        (_time.time, sim_time),
        (_time.asctime, sim_asctime),
        (_time.localtime, sim_localtime),
        (_time.gmtime, sim_gmtime),
        (_time.ctime, sim_ctime),
    ]
    table = {id(a): b for a, b in seams}
    shims = {}
    for mod, names in ((_threading, ('Thread', 'Event', 'Lock', 'RLock', 'Condition', 'Semaphore', 'BoundedSemaphore')),
                       (_mp, ('Pool', 'cpu_count')), (collections, ('deque',)),
                       (queue, ('Queue', 'SimpleQueue')), (_time, ('sleep', 'time', 'asctime', 'localtime', 'gmtime', 'ctime'))):
        shims[id(mod)] = _ModuleShim(mod, {n: table[id(getattr(mod, n)) if n not in ('Pool', 'cpu_count') else id({'Pool': _real_Pool, 'cpu_count': _real_cpu_count}[n])] for n in names})
    return table, shims


class SimThreadFactory(SimThread):
    """Thread class seen by the code under test (simulated only inside a run)."""
    def __new__(cls, *a, **k):
        s = active()
        if s is None or s.me() is None:
            return _real_Thread(*a, **k)
        return object.__new__(cls)


_keep = []


def install(modules):
    """Replaces, in each given module, every nondeterministic primitive by the
    simulator's.  Matching is by identity of the object, not by name."""
    table, shims = build_seams()
    _keep.append((table, shims))
    n = 0
    for m in modules:
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            try:
                if id(v) in shims:
                    setattr(m, k, shims[id(v)])
                    n += 1
                    continue
                r = table.get(id(v))
                if r is None and getattr(v, '__func__', None) is not None:
                    # bound methods of the default multiprocessing context
                    if v == _real_Pool:
                        r = table[id(_real_Pool)]
                    elif v == _real_cpu_count:
                        r = table[id(_real_cpu_count)]
                if r is not None:
                    setattr(m, k, r)
                    n += 1
            except Exception:
                pass
    # functions that import the pool lazily
    _mp.Pool = table[id(_real_Pool)]
    _mp.cpu_count = table[id(_real_cpu_count)]
    return n
