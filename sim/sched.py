"""
Deterministic scheduler for real Python threads.

Every simulated thread is a real OS thread, but exactly one of them runs at any
time: the others are parked on a private raw lock.  Control changes hands only
at *yield points* -- line (optionally opcode) events in the code under test,
and every intercepted blocking operation (locks, conditions, queues, sleeps,
pools, storage calls).  At each yield point a seeded policy decides who runs
next, so that the whole interleaving is a function of the seed, and is recorded
as a sparse list of departures from the default rule, which is what the
replay file holds.
"""
import sys
import os
import threading
import time
import queue
import _thread
import random
import hashlib

_raw_lock = _thread.allocate_lock

REAL_TIME = time.time
REAL_SLEEP = time.sleep
REAL_MONOTONIC = time.monotonic
REAL_PERF = time.perf_counter

ACTIVE = None  # the active scheduler, if any


class SimKill(BaseException):
    """Raised inside a simulated thread whose process has crashed."""


class StepLimit(Exception):
    pass


class Deadlock(Exception):
    pass


class SimThread(object):
    __slots__ = (
        'tid', 'name', 'go', 'state', 'wait_on', 'deadline', 'timed_out',
        'killed', 'exc', 'result', 'ident', 'group', 'daemon', 'target',
        'thread', 'tracing')

    def __init__(self, tid, name, target, group, daemon):
        self.tid = tid
        self.name = name
        self.go = _raw_lock()
        self.go.acquire()
        self.state = 'runnable'
        self.wait_on = None
        self.deadline = None
        self.timed_out = False
        self.killed = False
        self.exc = None
        self.result = None
        self.ident = None
        self.group = group
        self.daemon = daemon
        self.target = target
        self.thread = None
        self.tracing = True


class Policy(object):
    """
    Decides which thread runs at each yield point.

    spec: {'seed': int, 'p': float}            random search
          {'switches': [[step, tid], ...]}      replay
    """

    def __init__(self, spec):
        self.replay = spec.get('switches')
        if self.replay is not None:
            self.table = dict((int(s), int(t)) for s, t in self.replay)
            self.rng = None
            self.p = self.pop = 0
        else:
            self.table = None
            self.rng = random.Random('sched:%s' % spec['seed'])
            self.p = spec.get('p', 0.1)
            self.pop = spec.get('pop', self.p)
        self.made = []

    @staticmethod
    def default(cur, tids):
        if cur in tids:
            return cur
        for t in tids:
            if t > cur:
                return t
        return tids[0]

    def decide(self, step, cur, tids, line=False):
        d = self.default(cur, tids)
        if self.table is not None:
            c = self.table.get(step, d)
            if c not in tids:
                c = d
        else:
            if len(tids) == 1:
                return d
            if cur in tids and self.rng.random() >= (
                    self.p if line else self.pop):
                return d
            c = tids[int(self.rng.random() * len(tids))]
        if c != d:
            self.made.append([step, c])
        return c


class Scheduler(object):
    def __init__(
            self,
            spec,
            max_steps=200000,
            opcodes=False,
            start_time=1500000000.0):
        self.policy = Policy(spec)
        self.max_steps = max_steps
        self.opcodes = opcodes
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.step = 0
        self.now = 0.0
        self.clock_skew = 0.0
        self.start_time = start_time
        self.ticks = 0
        self.aborting = None
        self._done = _raw_lock()
        self._done.acquire()
        self._trace_hash = hashlib.sha1()
        self.handoffs = 0
        self.preemptions = 0
        self.lines = 0
        self.fuses = {}   # group -> [remaining yield points, hook]

    # -- public, called from the real (driver) thread -----------------------

    def run(self, main):
        """Run main() as simulated thread 0; returns its result"""
        global ACTIVE
        assert ACTIVE is None
        trace_opcodes(self.opcodes)
        ACTIVE = self
        try:
            t0 = self._new(main, 'main', 'main', False)
            self._boot(t0)
            self.current = t0
            t0.go.release()
            self._done.acquire()
        finally:
            self._reap()
            ACTIVE = None
        if self.aborting is not None:
            raise self.aborting
        if t0.exc is not None:
            raise t0.exc
        return t0.result

    def signature(self):
        return self._trace_hash.hexdigest()

    # -- called from inside simulated threads --------------------------------

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def time(self):
        self.ticks += 1
        return self.start_time + self.now + self.ticks * 1e-5

    def spawn(self, target, name=None, group=None, daemon=False, thread=None):
        me = self.me()
        t = self._new(
            target, name, group or (me.group if me else 'main'), daemon)
        t.thread = thread
        self._boot(t)
        self.yield_point()
        return t

    def _new(self, target, name, group, daemon):
        tid = len(self.threads)
        t = SimThread(tid, name or 't%d' % tid, target, group, daemon)
        self.threads.append(t)
        return t

    def _boot(self, t):
        started = _raw_lock()
        started.acquire()

        def body():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            if t.thread is not None:
                try:
                    t.thread._ident = t.ident
                except Exception:
                    pass
                threading._active[t.ident] = t.thread
            started.release()
            t.go.acquire()
            try:
                if not t.killed:
                    t.result = t.target()
            except SimKill:
                pass
            except BaseException as e:
                if not t.killed:
                    t.exc = e
            finally:
                t.state = 'done'
                threading._active.pop(t.ident, None)
                self.by_ident.pop(t.ident, None)
                t.target = None
                self._thread_finished(t)

        _thread.start_new_thread(body, ())
        started.acquire()

    def _thread_finished(self, t):
        for o in self.threads:
            if o.state == 'blocked' and o.wait_on is t:
                self._wake(o)
        if t.tid == 0 or self.aborting is not None:
            self._done.release()
            return
        nxt = self._pick(t.tid)
        if nxt is None:
            if not self._reaping:
                self.aborting = Deadlock(self.describe())
            self._done.release()
            return
        self.current = nxt
        nxt.go.release()

    def _reap(self):
        """kill every thread left over, one at a time, deterministically"""
        for t in self.threads:  # may grow
            if t.state == 'done':
                continue
            t.killed = True
            # let it run to its end; its blocking calls all raise SimKill
            self._reaping = True
            self.current = t
            t.go.release()
            # wait for it to finish: _thread_finished releases _done
            # because either aborting or no runnable thread is picked
            self._reap_wait(t)

    def _reap_wait(self, t):
        if not self._done.acquire(timeout=30):
            # the thread is stuck in a call the simulator does not own
            t.state = 'done'
            self.stuck = t.name

    _reaping = False
    stuck = None

    # -- scheduling -----------------------------------------------------------

    def _wake(self, t):
        t.state = 'runnable'
        t.wait_on = None
        t.deadline = None

    def _pick(self, cur_tid, line=False):
        """the next thread to run, or None when nothing can ever run"""
        if self._reaping:
            return None
        while True:
            tids = [t.tid for t in self.threads if t.state == 'runnable']
            if tids:
                return self.threads[
                    self.policy.decide(self.step, cur_tid, tids, line)]
            idle = [t for t in self.threads if t.state == 'idle']
            sleepers = [
                t for t in self.threads
                if t.state == 'blocked' and t.deadline is not None]
            if idle and not (sleepers and idle[0].wait_on == 'time'):
                self._wake(idle[0])
                continue
            if sleepers:
                s = min(sleepers, key=lambda x: (x.deadline, x.tid))
                self.now = max(self.now, s.deadline)
                s.timed_out = True
                self._wake(s)
                continue
            return None

    def yield_point(self, kind='op'):
        me = self.by_ident.get(_thread.get_ident())
        if me is None:
            return
        if me.killed:
            raise SimKill()
        if self.fuses:
            fuse = self.fuses.get(me.group)
            if fuse is not None:
                fuse[0] -= 1
                if fuse[0] <= 0:
                    del self.fuses[me.group]
                    fuse[1]()
        self.step += 1
        if self.step > self.max_steps:
            self._abort(StepLimit(
                'no end after %d steps' % self.max_steps))
        if len(self.threads) == 1:
            return
        nxt = self._pick(me.tid, kind == 'line')
        if nxt is not me:
            self.preemptions += 1
            self._handoff(me, nxt)

    def _handoff(self, me, nxt):
        self.handoffs += 1
        self._trace_hash.update(b'%d>%d@%d;' % (me.tid, nxt.tid, self.step))
        self.current = nxt
        nxt.go.release()
        me.go.acquire()
        if me.killed:
            raise SimKill()

    def block(self, on, timeout=None):
        """
        park the current thread until woken by notify(on), or the timeout
        elapses in simulated time; returns False on timeout
        """
        me = self.me()
        if me.killed:
            raise SimKill()
        self.step += 1
        if self.step > self.max_steps:
            self._abort(StepLimit('no end after %d steps' % self.max_steps))
        me.state = 'blocked'
        me.wait_on = on
        me.timed_out = False
        me.deadline = None if timeout is None else self.now + max(0, timeout)
        nxt = self._pick(me.tid)
        if nxt is None:
            me.state = 'runnable'
            self._abort(Deadlock(self.describe()))
        if nxt is not me:
            self._handoff(me, nxt)
        return not me.timed_out

    def notify(self, on, n=None):
        for t in self.threads:
            if t.state == 'blocked' and t.wait_on is on:
                self._wake(t)
                if n is not None:
                    n -= 1
                    if not n:
                        break

    def sleep(self, seconds):
        self.block(('sleep', self.me().tid), timeout=seconds)

    def quiesce(self, advance_time=False):
        """
        park until no other thread can run without the passing of time (or
        without this thread doing something, if advance_time)
        """
        me = self.me()
        self.step += 1
        me.state = 'idle'
        me.wait_on = 'time' if advance_time else 'idle'
        nxt = self._pick(me.tid)
        if nxt is not me:
            self._handoff(me, nxt)

    def join(self, t, timeout=None):
        self.yield_point()
        while t.state != 'done':
            if not self.block(t, timeout):
                return False
        return True

    def kill_group(self, group):
        """crash a simulated process: none of its threads runs again"""
        me = self.me()
        self.kill_threads([
            t for t in self.threads if t.group == group])
        if me is not None and me.group == group:
            me.killed = True
            raise SimKill()

    def kill_threads(self, threads):
        me = self.me()
        victims = [t for t in threads if t.state != 'done' and t is not me]
        for t in victims:
            t.killed = True
        # the victims unwind now, one after another, so that nothing of
        # theirs is left running
        for t in victims:
            if t.state == 'done':
                continue
            frozen = [
                o for o in self.threads
                if o is not t and o is not me and o.state == 'runnable']
            for o in frozen:
                o.state = 'frozen'
            self._wake(t)
            try:
                self.block(t)
            finally:
                # this thread may itself be killed meanwhile
                for o in frozen:
                    if o.state == 'frozen':
                        o.state = 'runnable'

    def describe(self):
        return '; '.join(
            '%s:%s' % (t.name, t.state) for t in self.threads
            if t.state != 'done')

    def _abort(self, exc):
        if self.aborting is None:
            self.aborting = exc
        for t in self.threads:
            t.killed = True
        self._reaping = True
        raise SimKill()


# -- tracing ------------------------------------------------------------------
#
# Yield points at line (optionally instruction) granularity, through
# sys.monitoring: unlike sys.settrace, its events do not depend on how often
# the code ran before.

TOOL = 4
_getframe = sys._getframe
LINE_HOOK = [None]      # called for each line when no scheduler is active
TRACED = []
_opcodes_on = [False]


def _on_line(code, line):
    s = ACTIVE
    if s is None:
        h = LINE_HOOK[0]
        if h is not None:
            h()
        return
    if s.by_ident.get(_thread.get_ident()) is None:
        return
    # whether a line that jumps within itself is announced again depends on
    # the specialisation of its instructions
    f = _getframe(1)
    if f.f_trace == line:
        return
    f.f_trace = line
    s.lines += 1
    s.yield_point('line')


def _on_instruction(code, offset):
    s = ACTIVE
    if s is None or s.by_ident.get(_thread.get_ident()) is None:
        return
    s.lines += 1
    s.yield_point('line')


def trace_code(prefix):
    """arm every function of the code under test"""
    import gc
    import types
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'verif-sim')
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instruction)
    seen = {}

    def walk(code):
        if id(code) in seen:
            return
        seen[id(code)] = code
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            f = o.__code__.co_filename
            if f.startswith(prefix):
                walk(o.__code__)
    for c in seen.values():
        if c.co_name == '<module>':
            continue
        mon.set_local_events(TOOL, c, mon.events.LINE)
        TRACED.append(c)


def trace_opcodes(on):
    if on == _opcodes_on[0]:
        return
    _opcodes_on[0] = on
    e = sys.monitoring.events
    for c in TRACED:
        sys.monitoring.set_local_events(
            TOOL, c, e.LINE | e.INSTRUCTION if on else e.LINE)


# -- intercepted primitives ---------------------------------------------------

def sim_me():
    s = ACTIVE
    if s is None:
        return None
    return s.by_ident.get(_thread.get_ident())


class SimLock(object):
    def __init__(self):
        self._l = _raw_lock()

    def acquire(self, blocking=True, timeout=-1):
        if sim_me() is None:
            return self._l.acquire(blocking, timeout)
        s = ACTIVE
        s.yield_point('lock')
        if self._l.acquire(False):
            self.owner = _thread.get_ident()
            return True
        if not blocking:
            return False
        t = None if timeout is None or timeout < 0 else timeout
        end = None if t is None else s.now + t
        while True:
            rem = None if end is None else end - s.now
            ok = s.block(self, rem)
            if self._l.acquire(False):
                self.owner = _thread.get_ident()
                return True
            if not ok:
                return False

    owner = None

    def release(self):
        me = sim_me()
        if me is not None and me.killed and self.owner != me.ident:
            # a dead thread unwinds through a block it never re-entered
            return
        self.owner = None
        self._l.release()
        if me is not None:
            ACTIVE.notify(self)
            # no yield here: release runs in cleanup paths

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._l = _raw_lock()


_orig_start = threading.Thread.start
_orig_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive


def _thread_start(self):
    if sim_me() is None:
        return _orig_start(self)
    if getattr(self, '_sim', None) is not None:
        raise RuntimeError('threads can only be started once')
    th = self

    def target():
        th._started.set()
        try:
            th.run()
        finally:
            th._is_stopped = True

    self._sim = ACTIVE.spawn(
        target, self.name, daemon=self.daemon, thread=self)


def _thread_join(self, timeout=None):
    st = getattr(self, '_sim', None)
    if st is None:
        return _orig_join(self, timeout)
    if sim_me() is None:
        return
    ACTIVE.join(st, timeout)


def _thread_is_alive(self):
    st = getattr(self, '_sim', None)
    if st is None:
        return _orig_is_alive(self)
    return st.state != 'done'


def _time():
    if sim_me() is not None:
        return ACTIVE.time() + ACTIVE.clock_skew
    return REAL_TIME()


def _monotonic():
    if sim_me() is not None:
        return ACTIVE.time()
    return REAL_MONOTONIC()


def _sleep(s):
    if sim_me() is not None:
        return ACTIVE.sleep(s)
    return REAL_SLEEP(s)


class SimFuture(object):
    local = False

    def __init__(self, callback=None, error_callback=None):
        self.done = False
        self.ok = None
        self.value = None
        self.cb = callback
        self.ecb = error_callback

    def _set(self, ok, value):
        self.ok, self.value, self.done = ok, value, True
        if ok and self.cb:
            self.cb(value)
        if not ok and self.ecb:
            self.ecb(value)
        ACTIVE.notify(self)

    def ready(self):
        return self.done

    def successful(self):
        if not self.done:
            raise ValueError('not ready')
        return self.ok

    def wait(self, timeout=None):
        while not self.done:
            if not ACTIVE.block(self, timeout):
                return

    def get(self, timeout=None):
        import multiprocessing
        self.wait(timeout)
        if not self.done:
            raise multiprocessing.TimeoutError
        if self.ok:
            return self.value
        raise self.value


class SimPool(object):
    """
    A pool of simulated worker threads with the interface and the feeding
    behaviour of multiprocessing.pool.ThreadPool: a feeder thread consumes the
    caller's iterable, workers take tasks in order, results come back in order
    (map, imap) or in completion order (imap_unordered).
    """
    processes_like = False

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self.n = processes
        self.tasks = []
        self.workers = []
        self.feeders = []
        self.closed = False
        self.terminated = False
        self.pending = 0
        self.init = (initializer, initargs)

    def _check(self):
        if self.closed:
            raise ValueError('Pool not running')

    def _ensure(self):
        if not self.workers:
            s = ACTIVE
            for i in range(self.n):
                self.workers.append(
                    s.spawn(self._work, 'pool-%d' % i, daemon=True))

    def _work(self):
        s = ACTIVE
        init, initargs = self.init
        if init is not None:
            init(*initargs)
        while True:
            while not self.tasks:
                if self.terminated or (self.closed and not self._feeding()):
                    return
                s.block(self)
            func, args, kw, fut = self.tasks.pop(0)
            s.yield_point('pool')
            try:
                if self.processes_like and not fut.local:
                    func, args, kw = self._transfer(func, args, kw)
                v = func(*args, **kw)
                ok = True
            except Exception as e:
                v, ok = e, False
            s.yield_point('pool')
            fut._set(ok, v)
            s.notify(self)

    def _transfer(self, func, args, kw):
        # as the pool does; functions and classes go by name
        import pickle
        return pickle.loads(pickle.dumps((func, args, kw)))

    def _feeding(self):
        return any(f.state != 'done' for f in self.feeders)

    def _submit(self, func, args, kw, fut):
        self.tasks.append((func, args, kw, fut))
        ACTIVE.notify(self)

    def apply_async(
            self, func, args=(), kwds=None, callback=None,
            error_callback=None):
        self._check()
        self._ensure()
        fut = SimFuture(callback, error_callback)
        self._submit(func, tuple(args), kwds or {}, fut)
        ACTIVE.yield_point('pool')
        return fut

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(
            self, func, iterable, chunksize=None, callback=None,
            error_callback=None):
        self._check()
        self._ensure()
        items = list(iterable)
        futs = [SimFuture() for _ in items]
        out = SimFuture(callback, error_callback)
        pool = self

        class Gather(object):
            pass

        def check(_):
            if out.done or not all(f.done for f in futs):
                return
            bad = [f for f in futs if not f.ok]
            if bad:
                out._set(False, bad[0].value)
            else:
                out._set(True, [f.value for f in futs])

        if not items:
            out._set(True, [])
        for f, it in zip(futs, items):
            f.cb = check
            f.ecb = check
            pool._submit(func, (it,), {}, f)
        ACTIVE.yield_point('pool')
        return out

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.map(lambda a: func(*a), iterable)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self.map_async(
            lambda a: func(*a), iterable, None, callback, error_callback)

    def _imap(self, func, iterable, ordered):
        self._check()
        self._ensure()
        state = {'end': False}
        futs = []
        done = []
        s = ACTIVE
        token = SimFuture()
        it = iter(iterable)

        def feed():
            try:
                for x in it:
                    f = SimFuture()
                    f.cb = f.ecb = lambda v, f=f: (
                        done.append(f), s.notify(token))
                    futs.append(f)
                    self._submit(func, (x,), {}, f)
                    s.yield_point('feed')
                    if self.terminated:
                        break
            except Exception as e:
                # travels like a task whose function raises it
                def fail(e=e):
                    raise e
                f = SimFuture()
                f.local = True
                f.cb = f.ecb = lambda v, f=f: (
                    done.append(f), s.notify(token))
                futs.append(f)
                self._submit(fail, (), {}, f)
            state['end'] = True
            s.notify(token)
            s.notify(self)

        self.feeders.append(s.spawn(feed, 'feeder', daemon=True))

        def gen():
            i = 0
            while True:
                while True:
                    if ordered:
                        ready = i < len(futs) and futs[i].done
                    else:
                        ready = i < len(done)
                    if ready:
                        break
                    if state['end'] and i >= len(futs):
                        return
                    s.block(token)
                f = futs[i] if ordered else done[i]
                i += 1
                if f.ok:
                    yield f.value
                else:
                    raise f.value

        return gen()

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, False)

    def close(self):
        self.closed = True
        if ACTIVE is not None:
            ACTIVE.notify(self)

    def terminate(self):
        self.closed = True
        self.terminated = True
        del self.tasks[:]
        if ACTIVE is not None:
            ACTIVE.notify(self)

    def join(self):
        if not self.closed:
            raise ValueError('Pool is still running')
        s = ACTIVE
        for f in self.feeders:
            s.join(f)
        s.notify(self)
        for w in self.workers:
            s.join(w)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class SimProcessPool(SimPool):
    """
    Stands in for a pool of processes: workers run in the simulator's process
    (so forked state is shared); functions and arguments are handed over by
    pickling, as the real pool does.
    """
    processes_like = True

    def terminate(self):
        super(SimProcessPool, self).terminate()
        # processes are killed, whatever they are doing
        if ACTIVE is not None:
            ACTIVE.kill_threads(self.workers)


class FakeCpu(object):
    value = 4


def _cpu_count():
    if sim_me() is not None:
        return FakeCpu.value
    return _orig_cpu_count()


_orig_cpu_count = os.cpu_count
_orig_urandom = os.urandom


def _urandom(n):
    if ACTIVE is not None and sim_me() is not None:
        r = getattr(ACTIVE, 'entropy', None)
        if r is not None:
            return r.getrandbits(8 * n).to_bytes(n, 'big') if n else b''
    r = GLOBAL_ENTROPY[0]
    if r is not None:
        return r.getrandbits(8 * n).to_bytes(n, 'big') if n else b''
    return _orig_urandom(n)


GLOBAL_ENTROPY = [None]

_installed = False


def install():
    """
    patch the seams; must run before the code under test is imported
    """
    global _installed
    if _installed:
        return
    _installed = True
    import multiprocessing
    import multiprocessing.pool as mpp
    import multiprocessing.dummy as mpd
    import concurrent.futures
    import concurrent.futures.thread
    import uuid

    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = threading._PyRLock
    threading._time = _monotonic
    threading.Thread.start = _thread_start
    threading.Thread.join = _thread_join
    threading.Thread.is_alive = _thread_is_alive
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _monotonic
    time.time = _time
    time.monotonic = _monotonic
    time.sleep = _sleep
    os.cpu_count = _cpu_count
    os.urandom = _urandom
    multiprocessing.cpu_count = _cpu_count

    real_tp = mpp.ThreadPool
    real_pool = mpp.Pool

    def make(real, sim, name):
        class Meta(type):
            def __instancecheck__(cls, o):
                return isinstance(o, (real, sim))

            def __getattr__(cls, k):
                return getattr(real, k)

        class Chooser(object, metaclass=Meta):
            def __new__(cls, *a, **k):
                if sim_me() is not None:
                    return sim(*a, **k)
                return real(*a, **k)

            __init__ = real.__init__
        Chooser.__name__ = name
        return Chooser

    tp = make(real_tp, SimPool, 'ThreadPool')
    pp = make(real_pool, SimProcessPool, 'Pool')
    mpp.ThreadPool = tp
    mpd.Pool = tp
    mpp.Pool = pp
    multiprocessing.Pool = pp
