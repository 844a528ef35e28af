"""
Faults for files: everything written below ROOT goes through here, where
writes can be short, fail or run out of space, and where a crashed process
writes, renames and removes nothing any more.  What it left in its buffers is
lost; what it handed to the operating system stays, unless the machine loses
power before it is synced.
"""
import builtins
import errno
import io
import os

from . import sched

ROOT = [None]
PLAN = [None]     # plan(op, path) -> None, raise OSError, or a short count

# files with contents that would not survive a power failure
_dirty = set()
_fds = {}
_real_open = io.open
_os = {}
OPS = ('rename', 'replace', 'remove', 'unlink', 'link', 'mkdir', 'rmdir',
       'symlink', 'truncate')


def inside(path):
    root = ROOT[0]
    if root is None or sched.sim_me() is None:
        return False
    if isinstance(path, int):
        return path in _fds
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.abspath(p)
    return p == root or p.startswith(root + os.sep)


def dead():
    me = sched.sim_me()
    return me is not None and me.killed


def event(op, path):
    sched.ACTIVE.yield_point('disk')
    if PLAN[0] is not None:
        return PLAN[0](op, path)


class SimRaw(io.FileIO):
    _sim_closed = False

    def write(self, b):
        if dead():
            return len(b)
        if sched.sim_me() is None:
            return super(SimRaw, self).write(b)
        k = event('write', self.name)
        b = memoryview(b).cast('B')
        if k is not None and len(b) > 1:
            b = b[:max(1, min(len(b), k))]
        _dirty.add(os.fstat(self.fileno()).st_ino)
        return super(SimRaw, self).write(b)

    def truncate(self, size=None):
        if dead():
            return 0
        return super(SimRaw, self).truncate(size)

    def close(self):
        if self._sim_closed or self.closed:
            return super(SimRaw, self).close()
        self._sim_closed = True
        try:
            if not dead() and sched.sim_me() is not None:
                event('close', self.name)
        finally:
            super(SimRaw, self).close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if not set(mode) & set('wax+') or not inside(file):
        return _real_open(
            file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        event('open', file)
    raw = SimRaw(file, mode.replace('b', '').replace('t', ''),
                 closefd, opener)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = (io.BufferedRandom if '+' in mode else io.BufferedWriter)(raw, size)
    if 'b' in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _wrap(name):
    real = getattr(os, name)
    _os[name] = real

    def op(path, *a, **k):
        if inside(path):
            event(name, path)
        return real(path, *a, **k)
    op.__name__ = name
    return op


def install():
    builtins.open = sim_open
    io.open = sim_open
    for n in OPS:
        setattr(os, n, _wrap(n))
    real_os_open, real_os_write, real_os_close = os.open, os.write, os.close

    def os_open(path, flags, *a, **k):
        if inside(path) and flags & (os.O_WRONLY | os.O_RDWR):
            event('open', path)
            fd = real_os_open(path, flags, *a, **k)
            _fds[fd] = path
            return fd
        return real_os_open(path, flags, *a, **k)

    def os_write(fd, data):
        if fd in _fds and sched.sim_me() is not None:
            if dead():
                return len(data)
            k = event('write', _fds[fd])
            if k is not None and len(data) > 1:
                data = bytes(data)[:max(1, min(len(data), k))]
            _dirty.add(os.fstat(fd).st_ino)
        return real_os_write(fd, data)

    def os_close(fd):
        _fds.pop(fd, None)
        return real_os_close(fd)

    def sync(real):
        def f(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            ino = os.fstat(n).st_ino
            if sched.sim_me() is not None and ino in _dirty:
                if dead():
                    return
                event('fsync', n)
                _dirty.discard(ino)
                # the real disk does not matter
                return
            return real(fd)
        return f

    os.open, os.write, os.close = os_open, os_write, os_close
    os.fsync, os.fdatasync = sync(os.fsync), sync(os.fdatasync)
    # it remembers the functions it was defined with
    import shutil
    import tempfile
    for m in (shutil, tempfile):
        for n in ('open', '_open'):
            if getattr(m, n, None) is _real_open:
                setattr(m, n, sim_open)


def power_failure(rng):
    """whatever was not synced may be gone, though names and sizes are there"""
    n = 0
    for d, _, files in sorted(os.walk(ROOT[0])):
        for f in sorted(files):
            p = os.path.join(d, f)
            st = os.lstat(p)
            if st.st_ino not in _dirty or not st.st_size:
                continue
            how = rng.choice(['kept', 'empty', 'short', 'zeros'])
            at = rng.randrange(st.st_size)
            if how == 'kept':
                continue
            n += 1
            with _real_open(p, 'r+b') as fh:
                fh.truncate({'empty': 0}.get(how, at))
                if how == 'zeros':
                    fh.truncate(st.st_size)
    _dirty.clear()
    return n


def no_space():
    return OSError(errno.ENOSPC, 'No space left on device (simulated)')


def io_error():
    return OSError(errno.EIO, 'Input/output error (simulated)')
