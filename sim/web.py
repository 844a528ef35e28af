"""
Simulated sockets for tornado: its real IOLoop, IOStream, HTTPServer and
WebSocket code runs over in-memory connections polled by a simulated poll.
Clients are simulated threads that use the other end of a connection.
"""
import base64
import errno
import json
import os
import random
import socket
import struct

from . import sched

WEB = [None]

IN, OUT, ERR, HUP = 0x001, 0x004, 0x008, 0x010


def _step():
    if sched.sim_me() is not None:
        sched.ACTIVE.yield_point('net')


class Pipe(object):
    """bytes travelling one way"""

    def __init__(self, capacity):
        self.buf = bytearray()
        self.capacity = capacity
        self.eof = False        # the writer will write no more
        self.broken = False     # the reader will read no more
        self.reset = False


class SimSocket(object):
    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0

    def __init__(self, web, rx, tx):
        self.web = web
        self.rx = rx
        self.tx = tx
        self.fd = web.new_fd(self)
        self.closed = False

    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        pass

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        if opt == socket.SO_ERROR and self.rx.reset:
            return errno.ECONNRESET
        return 0

    def getpeername(self):
        return ('127.0.0.1', 50000)

    def getsockname(self):
        return ('127.0.0.1', 8888)

    # the non-blocking side, for tornado
    def recv(self, n, flags=0):
        _step()
        if self.closed:
            raise OSError(errno.EBADF, 'closed')
        rx = self.rx
        if rx.reset:
            raise ConnectionResetError(errno.ECONNRESET, 'simulated reset')
        if rx.buf:
            k = self.web.piece(min(n, len(rx.buf)))
            d = bytes(rx.buf[:k])
            del rx.buf[:k]
            self.web.changed()
            return d
        if rx.eof:
            return b''
        raise BlockingIOError(errno.EAGAIN, 'would block')

    def recv_into(self, buf, n=0):
        d = self.recv(n or len(buf))
        buf[:len(d)] = d
        return len(d)

    def send(self, data, flags=0):
        _step()
        if self.closed:
            raise OSError(errno.EBADF, 'closed')
        tx = self.tx
        if self.rx.reset or tx.reset:
            raise ConnectionResetError(errno.ECONNRESET, 'simulated reset')
        if tx.broken:
            raise BrokenPipeError(errno.EPIPE, 'simulated broken pipe')
        room = tx.capacity - len(tx.buf)
        if room <= 0:
            raise BlockingIOError(errno.EAGAIN, 'would block')
        k = self.web.piece(min(room, len(data)))
        if k < len(data):
            self.web.count('short write')
        tx.buf += bytes(data[:k])
        self.web.changed()
        return k

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.web.fds.pop(self.fd, None)
        self.tx.eof = True
        self.rx.broken = True
        self.web.changed()

    def shutdown(self, how):
        self.tx.eof = True
        self.web.changed()

    def abort(self):
        """a reset: whatever was under way is gone"""
        self.tx.reset = self.rx.reset = True
        del self.tx.buf[:], self.rx.buf[:]
        self.close()

    def events(self):
        e = 0
        if self.rx.buf or self.rx.eof or self.rx.reset:
            e |= IN
        if self.tx.capacity > len(self.tx.buf) or self.tx.broken or \
                self.tx.reset:
            e |= OUT
        if self.rx.reset:
            e |= ERR | HUP
        elif self.rx.eof and self.tx.eof:
            e |= HUP
        return e


class SimListener(object):
    family = socket.AF_INET
    type = socket.SOCK_STREAM

    def __init__(self, web, port):
        self.web = web
        self.port = port
        self.queue = []
        self.fd = web.new_fd(self)
        self.closed = False

    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        pass

    def setsockopt(self, *a):
        pass

    def getsockname(self):
        return ('127.0.0.1', self.port)

    def accept(self):
        _step()
        if not self.queue:
            raise BlockingIOError(errno.EAGAIN, 'would block')
        return self.queue.pop(0), ('127.0.0.1', 50000)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.web.fds.pop(self.fd, None)
        if self.web.listeners.get(self.port) is self:
            del self.web.listeners[self.port]
        for s in self.queue:
            s.abort()
        self.web.changed()

    def events(self):
        return IN if self.queue else 0


class SimWaker(object):
    """wakes a poll from another thread"""

    def __init__(self):
        self.web = WEB[0]
        self.flag = False
        self.fd = self.web.new_fd(self)

    def fileno(self):
        return self.fd

    write_fileno = fileno

    def wake(self):
        self.flag = True
        self.web.changed()

    def consume(self):
        self.flag = False

    def close(self):
        self.web.fds.pop(self.fd, None)

    def events(self):
        return IN if self.flag else 0


class SimPoll(object):
    def __init__(self):
        self.web = WEB[0]
        self.want = {}

    def register(self, fd, events):
        if fd in self.want:
            raise OSError(errno.EEXIST, 'registered before')
        self.want[fd] = events
        self.web.changed()

    def modify(self, fd, events):
        if fd not in self.want:
            raise OSError(errno.ENOENT, 'not registered')
        self.want[fd] = events
        self.web.changed()

    def unregister(self, fd):
        if fd not in self.want:
            raise OSError(errno.ENOENT, 'not registered')
        del self.want[fd]

    def close(self):
        self.want.clear()

    def _ready(self):
        out = []
        for fd in sorted(self.want):
            o = self.web.fds.get(fd)
            if o is None:
                # closed: epoll forgets it
                continue
            e = o.events() & (self.want[fd] | ERR | HUP)
            if e:
                out.append((fd, e))
        return out

    def poll(self, timeout):
        s = sched.ACTIVE
        if s is None or sched.sim_me() is None:
            return []
        s.yield_point('poll')
        r = self._ready()
        if not r and timeout > 0:
            self.web.pollers.append(self)
            try:
                # an hour is tornado's way to say: until something happens
                end = None if timeout >= 3600 else s.now + timeout
                while not r:
                    left = None if end is None else end - s.now
                    if left is not None and left <= 0:
                        break
                    if not s.block(self, left):
                        break
                    r = self._ready()
            finally:
                self.web.pollers.remove(self)
            if not r:
                r = self._ready()
        if len(r) > 1:
            self.web.rng.shuffle(r)
        return r


class ConnectionRefused(Exception):
    pass


class Web(object):
    """the machine's network stack during one simulated run"""

    def __init__(self, seed=0, res=None, capacity=1 << 16, short=.2):
        self.rng = random.Random('web:%s' % seed)
        self.res = res
        self.fds = {}
        self.next_fd = 100000
        self.listeners = {}
        self.pollers = []
        self.capacity = capacity
        self.short = short
        self.waiting = object()

    def count(self, what):
        if self.res is not None:
            self.res.fault(what)

    def new_fd(self, o):
        self.next_fd += 1
        self.fds[self.next_fd] = o
        return self.next_fd

    def piece(self, n):
        if n > 1 and self.short and self.rng.random() < self.short:
            return self.rng.randint(1, n)
        return n

    def changed(self):
        s = sched.ACTIVE
        if s is None or sched.sim_me() is None:
            return
        for p in list(self.pollers):
            s.notify(p)
        s.notify(self.waiting)

    def bind(self, port):
        if port in self.listeners:
            raise OSError(errno.EADDRINUSE, 'address in use')
        self.listeners[port] = SimListener(self, port)
        return [self.listeners[port]]

    def connect(self, port, capacity=None):
        _step()
        l = self.listeners.get(port)
        if l is None:
            raise ConnectionRefused('nothing listens on %s' % port)
        up = Pipe(capacity or self.capacity)
        down = Pipe(capacity or self.capacity)
        server = SimSocket(self, up, down)
        client = SimSocket(self, down, up)
        l.queue.append(server)
        self.changed()
        return Client(self, client)

    def wait_listening(self, port, timeout=60):
        s = sched.ACTIVE
        end = s.now + timeout
        while port not in self.listeners:
            if s.now >= end:
                raise ConnectionRefused('nothing ever listened on %s' % port)
            s.block(self.waiting, end - s.now)


class ClientTimeout(Exception):
    pass


class Closed(Exception):
    pass


class Response(object):
    def __init__(self, status, reason, headers, body, complete=True):
        self.status = status
        self.reason = reason
        self.headers = headers      # list of (name, value)
        self.body = body

    def get(self, name, default=None):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return default

    def all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def json(self):
        return json.loads(self.body.decode('utf8'))


class Client(object):
    """the other end of a connection, used by one simulated thread"""

    def __init__(self, web, sock, timeout=120):
        self.web = web
        self.sock = sock
        self.timeout = timeout
        self.buf = b''
        self.rng = random.Random('client:%d' % sock.fd)

    # -- bytes

    def _wait(self, end):
        s = sched.ACTIVE
        left = end - s.now
        if left <= 0 or not s.block(self.web.waiting, left):
            if s.now >= end:
                raise ClientTimeout()

    def send(self, data):
        end = sched.ACTIVE.now + self.timeout
        while data:
            try:
                k = self.sock.send(data)
                data = data[k:]
            except BlockingIOError:
                self._wait(end)
            except OSError as e:
                raise Closed(str(e))

    def recv(self):
        """some bytes; b'' at the end"""
        end = sched.ACTIVE.now + self.timeout
        while True:
            try:
                return self.sock.recv(65536)
            except BlockingIOError:
                self._wait(end)
            except OSError as e:
                raise Closed(str(e))

    def close(self):
        self.sock.close()

    def abort(self):
        self.sock.abort()

    def _line(self):
        while b'\r\n' not in self.buf:
            d = self.recv()
            if not d:
                raise Closed('end of stream in the header: %r'
                             % self.buf[:80])
            self.buf += d
        l, self.buf = self.buf.split(b'\r\n', 1)
        return l.decode('latin1')

    def _exactly(self, n):
        while len(self.buf) < n:
            d = self.recv()
            if not d:
                raise Closed('end of stream: %d of %d bytes'
                             % (len(self.buf), n))
            self.buf += d
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    # -- http

    def send_request(self, method, path, headers=(), body=None):
        out = ['%s %s HTTP/1.1' % (method, path), 'Host: localhost:8888']
        out.extend('%s: %s' % kv for kv in headers)
        if body is not None:
            out.append('Content-Length: %d' % len(body))
        raw = ('\r\n'.join(out) + '\r\n\r\n').encode('latin1') + (body or b'')
        self.send(raw)

    def head(self):
        status = self._line().split(' ', 2)
        headers = []
        while True:
            l = self._line()
            if not l:
                break
            k, v = l.split(':', 1)
            headers.append((k, v.strip()))
        return int(status[1]), status[2] if len(status) > 2 else '', headers

    def read_response(self, method='GET'):
        code, reason, headers = self.head()
        r = Response(code, reason, headers, b'')
        if method == 'HEAD' or code in (204, 304) or 100 <= code < 200:
            return r
        if (r.get('Transfer-Encoding') or '').lower() == 'chunked':
            while True:
                n = int(self._line(), 16)
                r.body += self._exactly(n)
                self._line()
                if not n:
                    break
        elif r.get('Content-Length') is not None:
            r.body = self._exactly(int(r.get('Content-Length')))
        else:
            while True:
                d = self.recv()
                if not d:
                    break
                self.buf += d
            r.body, self.buf = self.buf, b''
        return r

    def request(self, method, path, headers=(), body=None):
        self.send_request(method, path, headers, body)
        return self.read_response(method)

    # -- websocket

    def ws_open(self, path, headers=()):
        key = base64.b64encode(
            bytes(self.rng.getrandbits(8) for _ in range(16))).decode()
        self.send_request('GET', path, list(headers) + [
            ('Upgrade', 'websocket'), ('Connection', 'Upgrade'),
            ('Sec-WebSocket-Key', key), ('Sec-WebSocket-Version', '13'),
            ('Origin', 'http://localhost:8888')])
        code, reason, hs = self.head()
        return Response(code, reason, hs, b'')

    def ws_send(self, opcode, payload=b''):
        mask = bytes(self.rng.getrandbits(8) for _ in range(4))
        n = len(payload)
        if n < 126:
            h = struct.pack('!BB', 0x80 | opcode, 0x80 | n)
        else:
            h = struct.pack('!BBH', 0x80 | opcode, 0x80 | 126, n)
        self.send(h + mask + bytes(
            b ^ mask[i % 4] for i, b in enumerate(payload)))

    def ws_recv(self):
        """(opcode, payload) of the next frame"""
        a, b = self._exactly(2)
        if a & 0x70:
            raise Violation('a frame with reserved bits: %02x' % a)
        if not a & 0x80 or b & 0x80:
            raise Violation('a fragmented or masked frame: %02x %02x' % (a, b))
        n = b & 0x7f
        if n == 126:
            n, = struct.unpack('!H', self._exactly(2))
        elif n == 127:
            n, = struct.unpack('!Q', self._exactly(8))
        return a & 0x0f, self._exactly(n)


class Violation(Exception):
    """the server sent something that is not the protocol"""


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import asyncio
    import logging
    # created on first use, under a lock
    asyncio.get_event_loop_policy()
    import tornado.ioloop
    import tornado.netutil
    import tornado.tcpserver

    class SimIOLoop(tornado.ioloop.PollIOLoop):
        def initialize(self, **kwargs):
            super(SimIOLoop, self).initialize(impl=SimPoll(), **kwargs)

    tornado.ioloop.Waker = SimWaker
    tornado.ioloop.IOLoop.configure(SimIOLoop)
    tornado.tcpserver.bind_sockets = \
        lambda port, *a, **k: WEB[0].bind(port)
    real_cloexec = tornado.netutil.set_close_exec
    tornado.netutil.set_close_exec = \
        lambda fd: None if fd >= 100000 else real_cloexec(fd)
    if not os.environ.get('VERIF_DEBUG'):
        for n in ('tornado.access', 'tornado.application', 'tornado.general'):
            logging.getLogger(n).disabled = True


def fresh(seed=0, res=None, **kw):
    """a network stack and no loop: to be called at the start of a run"""
    import tornado.ioloop
    install()
    WEB[0] = Web(seed, res, **kw)
    tornado.ioloop.IOLoop.clear_instance()
    tornado.ioloop.IOLoop.clear_current()
    return WEB[0]
