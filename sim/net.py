"""
A simulated network below requests: its adapters hand every request to NET,
which answers with a real urllib3 response over a simulated connection.
"""
import io
import random

from . import sched

NET = [None]


def _step():
    if sched.sim_me() is not None:
        sched.ACTIVE.yield_point('net')


class Wire(io.RawIOBase):
    """the body as it arrives: in pieces, late, broken off or cut short"""

    def __init__(self, net, data, fault, rng):
        super(Wire, self).__init__()
        self.net = net
        self.data = data
        self.pos = 0
        self.fault = fault or {}
        self.rng = rng

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while True:
                d = self.read(65536)
                if not d:
                    return b''.join(out)
                out.append(d)
        _step()
        self.net.before_read(self)
        if n > 1 and self.rng.random() < .4:
            n = self.rng.randint(1, n)
        end = self.pos + n
        at = self.fault.get('at')
        if at is not None and end > at:
            kind = self.fault['kind']
            if kind == 'reset' and self.pos >= at:
                self.net.injected('connection reset')
                raise ConnectionResetError('simulated connection reset')
            if kind == 'timeout' and self.pos >= at:
                self.net.injected('read timeout')
                import socket
                raise socket.timeout('simulated read timeout')
            if kind == 'short' and self.pos >= at:
                self.net.injected('short body')
                return b''
            if kind in ('reset', 'timeout', 'short'):
                end = at
            if kind == 'stall' and self.pos <= at:
                self.net.injected('stalled transfer')
                self.fault = {}
                if sched.sim_me() is not None:
                    sched.ACTIVE.sleep(30)
        d = self.data[self.pos: end]
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


class SimNet(object):
    """
    handler(request) -> (status, headers, body); fault(request, n) -> None or
    {'kind': refuse | status | reset | timeout | short | stall, 'at', 'status'}
    for the n-th request
    """

    def __init__(self, handler, fault=None, res=None, seed=0):
        self.handler = handler
        self.fault = fault or (lambda r, n: None)
        self.res = res
        self.log = []
        self.seed = seed
        self.on_read = None

    def injected(self, what):
        if self.res is not None:
            self.res.fault(what)

    def before_read(self, wire):
        if self.on_read is not None:
            self.on_read(wire)

    def send(self, adapter, request, stream):
        import requests
        import urllib3
        _step()
        n = len(self.log)
        self.log.append((request.method, request.url))
        f = self.fault(request, n) or {}
        kind = f.get('kind')
        if kind == 'refuse':
            self.injected('connection refused')
            raise requests.exceptions.ConnectionError(
                'simulated connection refused')
        status, headers, body = self.handler(request)
        if kind == 'status':
            self.injected('error status')
            status, body = f['status'], f.get('body', b'sorry').encode() \
                if isinstance(f.get('body', b''), str) else b'sorry'
            headers = {'Content-Type': 'text/html'}
        headers = dict(headers)
        headers.setdefault('Content-Length', str(len(body)))
        if headers['Content-Length'] is None:
            del headers['Content-Length']
        raw = urllib3.HTTPResponse(
            body=Wire(self, body, f,
                      random.Random('%s/%d' % (self.seed, n))),
            headers=headers, status=status, reason='simulated',
            preload_content=False, request_method=request.method)
        r = adapter.build_response(request, raw)
        if not stream:
            r.content
        return r


def install():
    from requests.adapters import HTTPAdapter
    import requests

    def send(self, request, stream=False, timeout=None, verify=True,
             cert=None, proxies=None):
        net = NET[0]
        if net is None:
            raise requests.exceptions.ConnectionError(
                'no network in this simulation')
        return net.send(self, request, stream)
    HTTPAdapter.send = send
