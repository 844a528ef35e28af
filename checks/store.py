"""
A simulated document store: what is written becomes visible when its stream
is closed, reads come in pieces of any size, and operations fail as planned.
"""
import io
import random

from sim import sched


class StoreError(IOError):
    pass


class Crash(BaseException):
    """the process is gone"""


def step(kind='io'):
    if sched.sim_me() is not None:
        sched.ACTIVE.yield_point(kind)


class ShortReads(io.RawIOBase):
    def __init__(self, data, rng, fail_at=None):
        super(ShortReads, self).__init__()
        self._data = data
        self._pos = 0
        self._rng = rng
        self._fail_at = fail_at

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self._pos
        elif whence == 2:
            pos += len(self._data)
        self._pos = pos
        return pos

    def tell(self):
        return self._pos

    def readinto(self, b):
        step()
        n = len(b)
        if n > 1:
            k = self._rng.random()
            if k < .3:
                n = self._rng.randint(1, min(n, 9))
            elif k < .8:
                n = self._rng.randint(1, n)
        piece = self._data[self._pos: self._pos + n]
        if self._fail_at is not None and \
                self._pos + len(piece) > self._fail_at:
            raise StoreError('simulated read error')
        b[:len(piece)] = piece
        self._pos += len(piece)
        return len(piece)


class Reader(io.BufferedReader):
    def __init__(self, raw, size, length):
        super(Reader, self).__init__(raw, size)
        self._length = length

    def __len__(self):
        return self._length


class Disk(object):
    """what survives a crash"""

    def __init__(self):
        self.files = {}


def make_database(disk, key_builder, seed, plan=None):
    import featureflow as ff

    class SimDatabase(ff.Database):
        def __init__(self):
            super(SimDatabase, self).__init__(key_builder=key_builder)
            self.rng = random.Random(seed)
            self.ops = 0
            self.plan = plan
            self.dead = False
            self.log = []

        def event(self, op, key):
            step()
            if self.dead:
                raise Crash()
            self.ops += 1
            if self.plan is not None:
                self.plan(self, op, key, self.ops)

        def write_stream(self, key, content_type):
            self.event('open', key)
            return WriteStream(self, key)

        def read_stream(self, key):
            self.event('read', key)
            data = disk.files[key]
            return Reader(
                ShortReads(data, self.rng),
                self.rng.choice([1, 16, 512, 8192]), len(data))

        def size(self, key):
            return len(disk.files[key])

        def iter_ids(self):
            seen = set()
            for key in list(disk.files):
                _id = key_builder.decompose(key)[0]
                if _id not in seen:
                    seen.add(_id)
                    yield _id

        def __contains__(self, key):
            self.event('exists', key)
            return key in disk.files

        def __delitem__(self, key):
            if self.dead:
                raise Crash()
            step()
            del disk.files[key]

    class WriteStream(object):
        def __init__(self, db, key):
            self.db = db
            self.key = key
            self.buf = []
            self.closed = False
            self.broken = False

        def write(self, data):
            try:
                self.db.event('write', self.key)
            except BaseException:
                self.broken = True
                raise
            self.buf.append(bytes(data))
            return len(data)

        def close(self):
            if self.closed:
                return
            self.closed = True
            if self.broken:
                return
            self.db.event('close', self.key)
            data = b''.join(self.buf)
            if data:
                disk.files[self.key] = data
                self.db.log.append(self.key)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    return SimDatabase()
