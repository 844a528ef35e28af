"""
A seam in front of the real LMDB engine.

The storage engine itself is real.  What the simulator owns is: when a call on
it happens (every call is a yield point), who holds the single-writer lock
(cooperative, so that a parked simulated thread can hold it), which calls fail,
and what a process crash leaves behind: transactions in flight on the handles
of the dead process are rolled back, committed ones remain.

Several handles on one path share one real environment, as several processes
share one memory map.
"""
import os
import lmdb
from . import sched

REAL_OPEN = lmdb.open
REAL_ENV = lmdb.Environment


class SimDisk(object):
    """everything the simulator knows about LMDB environments in this run"""

    def __init__(self):
        self.shared = {}
        self.handles = []
        self.plan = []       # [{'kind','at', 'op'}]: the at-th op of that type
        self.counts = {}
        self.fired = []
        self.fire_enabled = True
        self.map_size = None
        self.on_event = None

    def event(self, op, env):
        """
        called before every storage operation; returns the fault to inject
        """
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        tot = self.counts.get('any', 0)
        self.counts['any'] = tot + 1
        if not self.fire_enabled:
            return None
        for f in self.plan:
            if f.get('done'):
                continue
            if f['op'] == op and f['at'] <= n or \
                    f['op'] == 'any' and f['at'] <= tot:
                if f.get('path') and f['path'] not in env.path:
                    continue
                f['done'] = True
                self.fired.append(f['kind'])
                if f['kind'] == 'crash':
                    f['hook']()
                    return None
                return f
        return None

    def close_all(self):
        for h in list(self.handles):
            h._die()
        for k, sh in list(self.shared.items()):
            try:
                sh.env.close()
            except Exception:
                pass
        self.shared.clear()
        del self.handles[:]

    def crash(self, group):
        """all handles of one simulated process die; nothing is flushed"""
        for h in list(self.handles):
            if h.group == group:
                h._die()


class Shared(object):
    def __init__(self, env):
        self.env = env
        self.refs = 0
        self.wlock = None
        self.writer = None


CURRENT = None


def begin_run():
    global CURRENT
    end_run()
    CURRENT = SimDisk()
    return CURRENT


def end_run():
    global CURRENT
    if CURRENT is not None:
        CURRENT.close_all()
    CURRENT = None


def _open(path, *args, **kwargs):
    if CURRENT is None:
        return REAL_OPEN(path, *args, **kwargs)
    return SimEnv(CURRENT, path, args, kwargs)


class _EnvMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (REAL_ENV, SimEnv))


def install():
    lmdb.open = _open

    class Environment(object, metaclass=_EnvMeta):
        def __new__(cls, path, *a, **k):
            return _open(path, *a, **k)
    lmdb.Environment = Environment


def _yield(kind='op'):
    if sched.sim_me() is not None:
        sched.ACTIVE.yield_point(kind)


class SimEnv(object):
    def __init__(self, disk, path, args, kwargs):
        _yield()
        self.disk = disk
        self.closed = False
        self.dead = False
        self.txns = []
        me = sched.sim_me()
        self.group = me.group if me is not None else 'main'
        kwargs = dict(kwargs)
        if disk.map_size:
            kwargs['map_size'] = disk.map_size
        if disk.on_event is not None:
            disk.on_event('open', kwargs)
        f = disk.event('open', type('E', (), {'path': str(path)}))
        if f is not None:
            raise lmdb.Error('injected: %s' % f['kind'])
        key = os.path.realpath(path)
        sh = disk.shared.get(key)
        if sh is None:
            sh = Shared(REAL_OPEN(path, *args, **kwargs))
            disk.shared[key] = sh
        sh.refs += 1
        self._sh = sh
        self.path = str(path)
        self.key = key
        disk.handles.append(self)

    # a closed or dead handle behaves like a closed lmdb environment
    def _check(self):
        if self.dead:
            raise sched.SimKill()
        if self.closed:
            raise lmdb.Error('Attempt to operate on closed/deleted/dropped '
                             'object.')

    def _die(self):
        self.dead = True
        for t in list(self.txns):
            t._rollback()
        self._drop()

    def _drop(self):
        if self in self.disk.handles:
            self.disk.handles.remove(self)
            self._sh.refs -= 1
            if self._sh.refs == 0:
                # the last process is gone: drop the map, so that a restart
                # really reads the file again
                self._sh.env.close()
                self.disk.shared.pop(self.key, None)

    def close(self):
        if self.dead or self.closed:
            return
        self.closed = True
        for t in list(self.txns):
            t._rollback()
        self._drop()

    def open_db(self, key=None, txn=None, *args, **kwargs):
        self._check()
        _yield()
        if txn is not None:
            return self._sh.env.open_db(
                key, getattr(txn, '_t', txn), *args, **kwargs)
        self._acquire()
        try:
            return self._sh.env.open_db(key, None, *args, **kwargs)
        finally:
            self._release()

    def _acquire(self):
        sh = self._sh
        me = sched.sim_me()
        if me is None:
            if sh.writer is not None:
                raise RuntimeError('simulator: writer lock held')
            return
        while sh.writer is not None:
            sched.ACTIVE.block(sh)
        sh.writer = me

    def _release(self):
        sh = self._sh
        sh.writer = None
        if sched.ACTIVE is not None:
            sched.ACTIVE.notify(sh)

    def begin(self, db=None, parent=None, write=False, buffers=False):
        self._check()
        _yield()
        self._check()
        f = self.disk.event('begin_w' if write else 'begin_r', self)
        if f is not None:
            raise lmdb.Error('injected: %s' % f['kind'])
        if parent is not None:
            t = self._sh.env.begin(
                db=db, parent=parent._t, write=write, buffers=buffers)
            return SimTxn(self, t, write, nested=True)
        if write:
            self._acquire()
            try:
                t = self._sh.env.begin(db=db, write=True, buffers=buffers)
            except BaseException:
                self._release()
                raise
        else:
            t = self._sh.env.begin(db=db, write=False, buffers=buffers)
        return SimTxn(self, t, write)

    def stat(self):
        self._check()
        _yield()
        return self._sh.env.stat()

    def info(self):
        self._check()
        return self._sh.env.info()

    def sync(self, force=False):
        self._check()
        _yield()
        return self._sh.env.sync(force)

    def reader_check(self):
        self._check()
        return self._sh.env.reader_check()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(self._sh.env, name)


class SimTxn(object):
    def __init__(self, env, t, write, nested=False):
        self._env = env
        self._t = t
        self._write = write
        self._nested = nested
        self._open = True
        env.txns.append(self)

    def _finish(self):
        self._open = False
        if self in self._env.txns:
            self._env.txns.remove(self)
        if self._write and not self._nested:
            self._env._release()

    def _rollback(self):
        if self._open:
            try:
                self._t.abort()
            except Exception:
                pass
            self._finish()

    def _op(self, op):
        if self._env.dead:
            raise sched.SimKill()
        _yield()
        if self._env.dead:
            raise sched.SimKill()
        f = self._env.disk.event(op, self._env)
        if f is not None:
            k = f['kind']
            if k == 'map_full':
                raise lmdb.MapFullError('injected: MDB_MAP_FULL')
            if k == 'disk':
                raise lmdb.DiskError('injected: EIO')
            raise lmdb.Error('injected: %s' % k)

    def get(self, *a, **k):
        self._op('get')
        return self._t.get(*a, **k)

    def put(self, *a, **k):
        self._op('put')
        return self._t.put(*a, **k)

    def delete(self, *a, **k):
        self._op('put')
        return self._t.delete(*a, **k)

    def replace(self, *a, **k):
        self._op('put')
        return self._t.replace(*a, **k)

    def pop(self, *a, **k):
        self._op('put')
        return self._t.pop(*a, **k)

    def drop(self, *a, **k):
        self._op('put')
        return self._t.drop(*a, **k)

    def stat(self, *a, **k):
        self._op('get')
        return self._t.stat(*a, **k)

    def id(self):
        return self._t.id()

    def cursor(self, *a, **k):
        self._op('get')
        return SimCursor(self, self._t.cursor(*a, **k))

    def commit(self):
        if not self._open:
            return self._t.commit()
        if self._write:
            try:
                self._op('commit')
            except sched.SimKill:
                self._rollback()
                raise
            except BaseException:
                self._rollback()
                raise
        if not self._open:
            raise sched.SimKill()
        try:
            self._t.commit()
        finally:
            self._finish()
        if self._write:
            if self._env.dead:
                raise sched.SimKill()
            self._env.disk.event('committed', self._env)
            _yield()

    def abort(self):
        if self._open:
            try:
                self._t.abort()
            finally:
                self._finish()

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if not self._open:
            return
        if t is not None:
            self.abort()
        else:
            self.commit()

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(self._t, name)

    def __del__(self):
        # an abandoned transaction is aborted, as in lmdb
        try:
            self._rollback()
        except BaseException:
            pass


class SimCursor(object):
    """reads are real; positioning calls are yield points"""

    def __init__(self, txn, c):
        self.__dict__['_c'] = c
        self.__dict__['_txn'] = txn

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._c.close()

    def __iter__(self):
        return self._iterate(iter(self._c))

    def _iterate(self, it):
        for x in it:
            yield x
            if self._txn._env.dead:
                raise sched.SimKill()
            _yield()

    def iternext(self, *a, **k):
        return self._iterate(self._c.iternext(*a, **k))

    def iterprev(self, *a, **k):
        return self._iterate(self._c.iterprev(*a, **k))

    def __getattr__(self, name):
        v = getattr(self._c, name)
        if not callable(v):
            return v

        def call(*a, **k):
            if name.startswith(('put', 'delete', 'replace', 'pop')):
                self._txn._op('put')
            elif name not in ('key', 'value', 'item', 'close'):
                self._txn._op('get')
            return v(*a, **k)
        return call
