"""
C21: web responses are right under any interleaving of requests
"""
import base64
import hashlib
import io
import json
import re
import sys
import urllib.parse

import numpy as np

from sim import sched, web, lmdbsim
from sim.runner import Check, Violation, sched_spec, simulate, one_line, \
    scratch
from checks import audio
from checks.hdb import make_code, popcount_distance
from checks.store import Disk, make_database, StoreError

SR = 11025
IDS = ['doc%d', 'http://example.com/a%%20b/%d?x=y&z', 'a b+c#%d', u'\xfcni%d',
       '/tmp/file%d.wav', '100%%_%d', '..%d']
FEATURES = ['meta', 'ogg', 'fft', 'code', 'flat', 'img', 'cube', 'onsets',
            'blob']
TICKS = {
    # what is executed; the status, whether it is executed, the result
    'expr': ('tick({i})', 200, '{i}'),
    'lead': (' tick({i})', None, '{i}'),
    'assign': ('x = tick({i})', 200, ''),
    'print': ('if True: print(tick({i}))', 200, '{i}\n'),
    'slow': ('if True: print(pause({i}))', 200, '{i}\n'),
    'lines': ('y = 0\nfor _ in range(2):\n    y += 1\nprint(y, tick({i}))',
              200, '2 {i}\n'),
    'raise': ('raiser({i})', 400, None),
    'bad': ('bad({i})', 400, None),
    'badexec': ('z = bad({i})', 400, None),
    'exit': ('leave({i})', 400, None),
    'unicode': (u"'\xfc%d' % tick({i})", 200, u'\xfc{i}'),
    'array': ('np.zeros((tick({i}) * 0 + 2, 2, 2))', 200, None),
    'hyper': ('np.zeros((tick({i}) * 0 + 2, 2, 2, 1))', 200, None),
    'empty': ('np.zeros((tick({i}) * 0, 4))', 200, None),
}


def digest(arrays):
    h = hashlib.md5()
    for a in arrays:
        a = np.ascontiguousarray(np.asarray(a), dtype=np.float64)
        h.update(repr(a.shape).encode() + a.tobytes())
    return b'PNG' + h.digest()


def picture(x):
    """what generate_image is to show of an array"""
    x = np.asarray(x)
    if x.ndim == 1:
        return digest([x])
    if x.ndim == 2:
        return digest([np.rot90(x.real)])
    return digest([np.rot90(x)])


def savefig(self, f, *a, **k):
    """instead of rendering: what there would be to render"""
    arrays = []
    for axes in self.axes:
        for l in axes.lines:
            arrays.append(l.get_ydata())
        for i in axes.images:
            arrays.append(i.get_array())
    f.write(digest(arrays))


class Recorder(object):
    def __init__(self):
        self.out = []

    def write(self, s):
        self.out.append(s)
        return len(s)

    def flush(self):
        pass


def time_range(a, b):
    return 'seconds=%s-%s' % (repr(a), '' if b is None else repr(b))


class Expected(object):
    """everything about the documents, made from the case alone"""

    def __init__(self, spec):
        from zounds.core import ArrayWithUnits, IdentityDimension
        from zounds.timeseries import TimeDimension, Milliseconds, TimeSlice
        import zounds
        self.id = spec['id']
        self.spec = spec
        rs = np.random.RandomState(spec['seed'])
        self.ogg = audio.encode(
            audio.signal(spec['n'], spec['ch'], spec['seed'], smooth=True),
            SR, 'OGG', 'VORBIS')
        self.samples = audio.decode(self.ogg)[0]
        self.meta = {'description': u'd\xfc%d' % spec['seed'],
                     'tags': ['x'] * rs.randint(0, 5)}

        def timed(a):
            return ArrayWithUnits(a, [TimeDimension(
                Milliseconds(spec['freq']), Milliseconds(spec['dur']))] +
                [IdentityDimension()] * (a.ndim - 1))
        self.fft = timed(rs.normal(0, 1, (spec['frames'], 5)) +
                         1j * rs.normal(0, 1, (spec['frames'], 5)))
        self.flat = timed(rs.normal(0, 1, spec['frames']))
        self.codes = [bytes.fromhex(c) for c in spec['codes']]
        self.code = timed(np.unpackbits(np.array(
            [np.frombuffer(c, dtype=np.uint8) for c in self.codes]), axis=-1))
        self.img = ArrayWithUnits(
            rs.uniform(0, 1, (3, 4, 3)), [IdentityDimension()] * 3)
        self.cube = ArrayWithUnits(
            rs.uniform(0, 1, (2, 2, 2, 2)), [IdentityDimension()] * 4)
        self.blob = bytes(rs.randint(0, 256, 50).astype(np.uint8))
        self.slices = [(i * .25, .25) for i in range(spec['onsets'])]
        self.onsets = zounds.VariableRateTimeSeries([
            (TimeSlice(start=Milliseconds(250 * i),
                       duration=Milliseconds(250)), np.zeros(0))
            for i in range(spec['onsets'])])

    def array(self, name):
        return getattr(self, name)


class C21(Check):
    id = 'C21'
    runs = {'quick': 500, 'thorough': 12000}
    rule = (
        'a case is an application (console, search or training monitor) over '
        'documents with ids of every kind, and 1-3 clients that request '
        'features with and without byte and time ranges, searches, console '
        'statements and their results, in turn, pipelined, or leaving early, '
        'with slow connections and a store that fails; non-trivial when at '
        'least two requests were under way or something failed')
    real = ['zounds.ui', 'zounds.index', 'featureflow', 'libsndfile',
            'tornado: event loop, HTTP, streams']
    stub = ['sockets and poll', 'document store', 'rendering of figures',
            'thread scheduling and clock', 'LMDB']
    assumptions = [
        'statements typed into the console end, and do not leave threads '
        'behind', 'Vorbis at these rates stays within .35 of its input']

    def setup(self):
        web.install()
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.figure
        from matplotlib import pyplot
        matplotlib.figure.Figure.savefig = savefig
        plt = pyplot
        plt.figure()
        plt.matshow(np.zeros((2, 2)))
        plt.close('all')

    # -- cases

    def generate(self, rng, tier):
        kind = rng.choice(['console', 'console', 'search', 'search',
                           'monitor'])
        pool = []
        docs = []
        for i in range(rng.choice([1, 2, 3])):
            freq = rng.choice([100, 250, 93])
            docs.append({
                'id': rng.choice(IDS) % i, 'seed': rng.getrandbits(20),
                'n': rng.choice([rng.randint(500, 4000),
                                 rng.randint(4000, 24000)]),
                'ch': rng.choice([1, 1, 2]), 'freq': freq,
                'dur': rng.choice([freq, 2 * freq]),
                'frames': rng.randint(2, 12), 'onsets': rng.choice([0, 1, 4]),
                'codes': [make_code(rng, 8, pool, 9).hex()
                          for _ in range(rng.randint(1, 4))]})
            pool.extend(bytes.fromhex(c) for c in docs[-1]['codes'])
        if rng.random() < .025:
            # minutes of audio
            docs[0].update(n=rng.randint(2200000, 2400000), ch=1)
        count = [0]

        def byte_range():
            k = rng.random()
            a, b = rng.choice([0, rng.randint(0, 60), rng.randint(0, 6000)]), \
                rng.choice([0, rng.randint(0, 80), rng.randint(0, 9000)])
            if k < .45:
                a, b = min(a, b), max(a, b)
            if k < .6:
                return 'bytes=%d-%d' % (a, b)
            if k < .75:
                return 'bytes=%d-' % a
            if k < .8:
                return ['bytes', rng.choice(['last', 'size', 'size-', 'whole',
                                             'beyond'])]
            if k < .87:
                return 'bytes=-%d' % rng.choice([0, 1, 5, 99999])
            return rng.choice([
                'bytes=a-b', 'bytes=1-b', 'bytes=', 'bytes', '', '-', '=-',
                'bytes=0-1,4-5', 'bytes=1.5-3', 'bytes=1--3', 'hours=1-2',
                'bytes= 1 - 3 ', 'Bytes=0-1', 'bytes=0x1-0x3'])

        def seconds():
            k = rng.random()
            a = rng.choice([0, round(rng.uniform(0, 1), 3), rng.uniform(0, 2)])
            b = rng.choice([None, a + rng.uniform(.01, 1), a + 5,
                            round(a + rng.uniform(.05, .4), 2), a])
            if k < .8:
                return time_range(a, b)
            if k < .88:
                return time_range(rng.choice([5, 50.5]),
                                  rng.choice([None, 60]))
            return rng.choice([
                'seconds=a-b', 'seconds=1-b', 'seconds=2-1', 'seconds=nan-',
                'seconds=inf-', 'seconds=1-inf', 'seconds=0-nan',
                'seconds=1e300-', 'seconds=0-1e300', 'seconds=-1',
                'seconds=1e-05-0.2'])

        def request():
            k = rng.random()
            d = rng.randrange(len(docs) + 1) if rng.random() < .15 \
                else rng.randrange(len(docs))
            if kind == 'search' and k < .4:
                return ['search', rng.choice(['random', 'code', 'code',
                                              'follow', 'bad', 'short']),
                        make_code(rng, 8, pool, 4).hex(),
                        rng.choice([0, 0, 1]), rng.getrandbits(8)]
            if kind != 'search' and k < .5:
                count[0] += 1
                j = rng.random()
                if j < .15:
                    return ['bind', 'mine%d' % len(clients),
                            rng.randrange(len(docs)),
                            rng.choice(['meta', 'fft', 'fft', 'code', 'flat',
                                        'ogg', 'img', 'onsets']),
                            rng.choice([None, rng.randrange(len(docs))])]
                if j < .6:
                    return ['tick', rng.choice(sorted(TICKS)), count[0]]
                return ['show', rng.choice([
                    'meta', 'ogg', 'fft', 'fft', 'code', 'flat', 'img',
                    'cube', 'onsets', 'blob', 'samples', 'clip', 'search',
                    'brute', 'slice']),
                    rng.randrange(len(docs)), rng.random(), rng.random()]
            if k < .55:
                return ['syntax', rng.choice(['1 +', 'x = = 2', '(',
                                              '\xff\xfe', '\0'])] \
                    if kind != 'search' else ['nothing']
            if k < .6:
                return rng.choice([['nothing'], ['page'], ['page'],
                                   ['method', rng.choice(['POST', 'DELETE',
                                                          'PUT', 'HEAD'])],
                                   ['temp']])
            f = rng.choice(FEATURES + ['meta', 'ogg', 'ogg', 'fft', 'fft'])
            if rng.random() < .06:
                f = rng.choice(['nosuch', '__init__', 'meta%2F'])
            r = None
            j = rng.random()
            if f in ('meta', 'ogg', 'blob', 'onsets') and j < .5 or j < .1:
                r = byte_range()
            elif f not in ('meta', 'blob') and j < .8 or j < .2:
                r = seconds()
            return ['feature', d, f, r, rng.random() < .15,
                    rng.random() < .15]

        clients = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            batches = []
            for _ in range(rng.randint(1, 4)):
                n = rng.choice([1, 1, 1, 2, 3])
                end = rng.choice(['read', 'read', 'read', 'read', 'abort',
                                  'close', 'half', 'slow'])
                batch = [request() for _ in range(n)]
                for q in batch:
                    if q[0] == 'bind' and end != 'read':
                        # it may happen at any later time
                        q[1] = 'other'
                batches.append([end, batch])
            clients.append({'capacity': rng.choice([None, None, 200, 17]),
                            'batches': batches})
        if docs[0]['n'] > 10 ** 6:
            clients[0] = {'capacity': None, 'batches': [
                ['read', [['feature', 0, 'ogg', rng.choice([
                    None, time_range(rng.choice([0, 1.5]), None),
                    time_range(.25, 199.), byte_range()]), False, False]]]]}
        return {'kind': kind, 'docs': docs, 'clients': clients,
                'extra': rng.random() < .4,
                'scopes': rng.choice([1, 1, 2]),
                'n_results': rng.choice([1, 3, 10]),
                'base': rng.choice([None, None, '/zounds/', '/zounds'])
                if kind != 'monitor' else None,
                'fail': [rng.randint(1, 25) for _ in range(
                    rng.choice([0, 0, 0, 1, 2]))],
                'background': rng.choice([0, 0, 3, 8]),
                'quick_stop': rng.choice([None, None, None, None, 'at once',
                                          'soon', 'open']),
                'entropy': rng.getrandbits(32), 'sched': sched_spec(rng)}

    def shrink(self, case):
        def copy():
            return json.loads(json.dumps(case))
        for i in range(len(case['clients'])):
            c = copy()
            del c['clients'][i]
            if c['clients']:
                yield c
            for j in range(len(case['clients'][i]['batches'])):
                c = copy()
                del c['clients'][i]['batches'][j]
                yield c
                for k in range(len(case['clients'][i]['batches'][j][1])):
                    c = copy()
                    del c['clients'][i]['batches'][j][1][k]
                    yield c
                if case['clients'][i]['batches'][j][0] != 'read':
                    c = copy()
                    c['clients'][i]['batches'][j][0] = 'read'
                    yield c
            if case['clients'][i]['capacity']:
                c = copy()
                c['clients'][i]['capacity'] = None
                yield c
        for k, v in (('extra', False), ('fail', []), ('background', 0),
                     ('quick_stop', None), ('base', None)):
            if case[k] != v:
                yield dict(copy(), **{k: v})
        for i, d in enumerate(case['docs']):
            for k, v in (('id', 'doc%d' % i), ('ch', 1), ('onsets', 0),
                         ('n', 1000), ('frames', 2)):
                if d[k] != v:
                    c = copy()
                    c['docs'][i][k] = v
                    yield c

    # -- the system

    def model(self, disk, seed, plan):
        import featureflow as ff
        import zounds

        key_builder_ = ff.StringDelimitedKeyBuilder()

        class Ids(ff.IdProvider):
            def new_id(self, *a, **k):
                return k['raw'].id

        class Settings(ff.PersistenceSettings):
            id_provider = Ids()
            key_builder = key_builder_
            database = make_database(disk, key_builder_, seed, plan)

        class Source(ff.Node):
            def _process(self, data):
                yield data

        class Part(ff.Node):
            def __init__(self, name=None, needs=None):
                super(Part, self).__init__(needs=needs)
                self.name = name

            def _process(self, data):
                yield getattr(data, self.name)

        A = zounds.ArrayWithUnitsFeature
        kw = dict(store=True)

        class Doc(ff.BaseModel, Settings):
            raw = ff.Feature(Source, store=False)
            meta = ff.JSONFeature(Part, name='meta', needs=raw, **kw)
            ogg = zounds.OggVorbisFeature(Part, name='ogg', needs=raw, **kw)
            fft = A(Part, name='fft', needs=raw, **kw)
            code = A(Part, name='code', needs=raw, **kw)
            flat = A(Part, name='flat', needs=raw, **kw)
            img = A(Part, name='img', needs=raw, **kw)
            cube = A(Part, name='cube', needs=raw, **kw)
            onsets = zounds.TimeSliceFeature(
                Part, name='onsets', needs=raw, **kw)
            blob = ff.Feature(Part, name='blob', needs=raw, **kw)

        return Doc

    def execute(self, case, res):
        import zounds
        from zounds.index import HammingIndex, BruteForceSearch
        from zounds.ui import training_monitor
        from zounds.timeseries import TimeSlice, Picoseconds
        lmdbsim.begin_run()
        docs = [Expected(d) for d in case['docs']]
        net = web.fresh(case['entropy'], res)
        disk = Disk()
        faults = [0]
        armed = [0, False]

        def plan(db, op, key, n):
            if op != 'read' or not armed[1]:
                return
            armed[0] += 1
            if armed[0] in case['fail']:
                faults[0] += 1
                res.fault('read error')
                raise StoreError('simulated read error')
        Doc = self.model(disk, case['entropy'], plan)
        executed = []
        extra = {}
        if case['extra']:
            extra['more'] = lambda doc, ts: '<%s>' % doc._id
        slices = []
        for d in docs:
            for i, c in enumerate(d.codes):
                slices.append((d.id, i * d.spec['freq'] / 1000.,
                               d.spec['dur'] / 1000., c))
        stdout = Recorder()
        st = {'inflight': 0, 'most': 0, 'inc': [], 'answered': {},
              'abandoned': set(), 'background': []}
        errors = []

        def tick(i):
            executed.append(i)
            return i

        def pause(i):
            tick(i)
            for _ in range(3):
                sched.ACTIVE.yield_point('statement')
            return i

        def raiser(i):
            tick(i)
            raise ValueError('raised by a statement')

        def bad(i):
            tick(i)
            return eval('1 +')

        def leave(i):
            tick(i)
            raise SystemExit()

        def main(s):
            for d in docs:
                Doc.process(raw=d)
            index = HammingIndex(Doc, Doc.code, path=scratch(),
                                 db_size_bytes=1 << 20, **extra)
            for d in docs:
                index.add(d.id)
            env = dict(tick=tick, pause=pause, raiser=raiser, bad=bad,
                       leave=leave, np=np, zounds=zounds, TimeSlice=TimeSlice,
                       ps=lambda x: Picoseconds(int(x * 1e12)),
                       search=lambda c: index.search(
                           bytes.fromhex(c), case['n_results']),
                       brute=lambda i: BruteForceSearch(
                           (d.id, d.fft.real) for d in docs).search(
                           np.asarray(docs[i].fft.real)[0], 2))
            local = env if case['scopes'] == 1 else {}
            for i, d in enumerate(docs):
                local['doc%d' % i] = Doc(d.id)
            kw = dict(model=Doc, visualization_feature=Doc.fft,
                      audio_feature=Doc.ogg)
            if case['base']:
                kw['base_path'] = case['base']
            if case['kind'] == 'search':
                app = zounds.ZoundsSearch(
                    search=index, n_results=case['n_results'], **kw)
            elif case['kind'] == 'console':
                app = zounds.ZoundsApp(globals=env, locals=local, **kw)
            else:
                class Trainer(object):
                    def register_batch_complete_callback(self, f):
                        pass
                app = training_monitor.SupervisedTrainingMonitorApp(
                    trainer=Trainer(), globals=env, locals=local, **kw)
            with app.start_in_thread(port=8888):
                if case['quick_stop'] == 'at once':
                    return
                net.wait_listening(8888)
                if case['quick_stop'] == 'soon':
                    return
                armed[1] = True
                ts = []
                for i, c in enumerate(case['clients']):
                    ts.append(s.spawn(
                        guarded(self.client, s, case, res, net, i, c, docs,
                                slices, st, faults, executed),
                        'client%d' % i))

                def background():
                    for i in range(case['background']):
                        line = 'background %d' % i
                        st['background'].append(line)
                        print(line)
                        s.sleep(.001)
                ts.append(s.spawn(background, 'background'))
                for t in ts:
                    s.join(t)
                if errors:
                    raise errors[0]
                armed[1] = False
                try:
                    con = net.connect(8888)
                    r = con.request('GET', '/')
                    if case['quick_stop'] != 'open':
                        con.close()
                except (web.Closed, web.ClientTimeout) as e:
                    raise Violation('server', 'does not answer any more: %s'
                                    % one_line(e), 'gone')
                if r.status != 200:
                    raise Violation('server', 'answers %s in the end' %
                                    r.status, 'gone')
            try:
                net.connect(8888)
            except web.ConnectionRefused:
                pass
            else:
                raise Violation('stop', 'the application was stopped, but '
                                'still listens', 'listens')

        def guarded(f, *args):
            def g():
                try:
                    f(*args)
                except Violation as e:
                    errors.append(e)
                except (web.Closed, web.ClientTimeout, web.Violation) as e:
                    errors.append(Violation(
                        'server', 'gave no answer: %s %s' % (
                            type(e).__name__, one_line(e)), 'no answer'))
            return g

        real = sys.stdout
        sys.stdout = stdout
        try:
            simulate(case, res, main, max_steps=600000)
        except sched.Deadlock as e:
            raise Violation('deadlock', str(e))
        except sched.StepLimit as e:
            raise Violation('no end', str(e))
        finally:
            left = sys.stdout
            sys.stdout = real
        if left is not stdout:
            raise Violation('stdout', 'sys.stdout was replaced for good',
                            'stdout')
        lines = ''.join(stdout.out).split('\n')
        for l in st['background']:
            if l not in lines:
                raise Violation(
                    'stdout', 'what another thread printed is lost: %r' % l,
                    'stdout')
        for i, kind in st['answered'].items():
            n = executed.count(i)
            if n != 1:
                raise Violation(
                    'executed', 'a statement (%s) was executed %d times' % (
                        TICKS[kind][0], n), 'executed')
        for i in st['abandoned']:
            if executed.count(i) > 1:
                raise Violation(
                    'executed', 'a statement was executed %d times' %
                    executed.count(i), 'executed')
        res.nontrivial = st['most'] > 1 or bool(res.faults)
        res.note(case['kind'], len(st['answered']), executed)

    # -- clients

    def client(self, s, case, res, net, me, c, docs, slices, st, faults,
               executed):
        shown = {}
        for end, requests in c['batches']:
            con = net.connect(8888, c['capacity'])
            self.con = con
            plans = []
            before = faults[0]
            for q in requests:
                p = self.plan(case, docs, slices, q)
                plans.append((q, p))
                if q[0] == 'tick' and end != 'read':
                    st['abandoned'].add(q[2])
            if end == 'half':
                q, p = plans[0]
                raw = 'POST /zounds/repl HTTP/1.1\r\nHost: x\r\n' \
                    'Content-Length: 400\r\n\r\ntick(' \
                    if me % 2 else 'GET /zounds/x'
                con.send(raw.encode())
                s.sleep(.01)
                con.abort() if len(requests) % 2 else con.close()
                res.fault('client left in the middle of a request')
                for q, p in plans:
                    st['abandoned'].discard(q[2] if q[0] == 'tick' else None)
                continue
            if end in ('abort', 'close'):
                try:
                    # who sends more without reading may never be done
                    for q, p in plans[:1] if c['capacity'] else plans:
                        con.send_request(*p[:4])
                    if me % 2:
                        con.recv()
                except web.Closed:
                    pass
                con.abort() if end == 'abort' else con.close()
                res.fault('client left without its response')
                continue
            st['inflight'] += 1
            st['most'] = max(st['most'], st['inflight'])
            for q, p in plans[:1] if c['capacity'] else plans:
                con.send_request(*p[:4])
            if end == 'slow':
                s.sleep(1)
            for k, (q, p) in enumerate(plans):
                if c['capacity'] and k:
                    con.send_request(*p[:4])
                r = con.read_response(p[0])
                hit = faults[0] > before
                if r.status >= 500 and hit and q[0] in (
                        'feature', 'search', 'show'):
                    continue
                if q[0] == 'show' and r.status == 400 and hit:
                    continue
                self.judge(case, docs, slices, st, q, r, end, executed, hit)
                for method, path, headers, check in self.follow(
                        case, docs, slices, q, r):
                    if q is not plans[-1][0]:
                        break
                    before2 = faults[0]
                    if method == 'POST':
                        rr = con.request(method, path, [], headers)
                        if rr.status == 400 and faults[0] > before2:
                            break
                    else:
                        rr = con.request(method, path, headers)
                    if rr.status >= 500 and faults[0] > before2:
                        break
                    check(rr)
                    if '/temp/' in path:
                        shown.setdefault(path, rr)
            st['inflight'] -= 1
            con.close()
        if shown:
            # what was shown stays what it was
            con = net.connect(8888, None)
            for path, old in shown.items():
                r = con.request('GET', path)
                if r.status != 200 or r.body != old.body or r.get(
                        'Content-Type') != old.get('Content-Type'):
                    raise Violation(
                        'shown', 'what was shown as %d bytes of %s, is %s '
                        'later: %d bytes of %s' % (
                            len(old.body), old.get('Content-Type'), r.status,
                            len(r.body), r.get('Content-Type')), 'later')
            con.close()

    def plan(self, case, docs, slices, q):
        """method, path, headers, body"""
        if q[0] == 'feature':
            _, d, f, r, slash, cond = q
            path = '/zounds/%s/%s%s' % (
                urllib.parse.quote(docs[d].id if d < len(docs) else 'nobody',
                                   safe=''), f, '/' if slash else '')
            r = self.range(docs, d, f, r)
            return ('GET', path, [('Range', r)] if r is not None else [],
                    None)
        if q[0] == 'search':
            path = '/zounds/search'
            code = base64.b64encode(bytes.fromhex(q[2])).decode()
            if q[1] == 'bad':
                code = ['A', '!!!!', '===', '%ff'][q[4] % 4]
            elif q[1] == 'short':
                code = base64.b64encode(bytes.fromhex(q[2])[:5]).decode()
            if q[1] != 'random':
                code = urllib.parse.quote(code, safe='')
                if q[3]:
                    code = urllib.parse.quote(code, safe='')
                path += '?query=' + code
            return 'GET', path, [], None
        if q[0] == 'tick':
            return 'POST', '/zounds/repl', [], TICKS[q[1]][0].format(
                i=q[2]).encode()
        if q[0] == 'syntax':
            return 'POST', '/zounds/repl', [], q[1].encode('latin1')
        if q[0] == 'show':
            return 'POST', '/zounds/repl/', [], self.statement(
                case, docs, q).encode()
        if q[0] == 'bind':
            return 'POST', '/zounds/repl', [], (
                '%s = doc%d' % (q[1], q[2])).encode()
        if q[0] == 'page':
            return 'GET', '/', [], None
        if q[0] == 'temp':
            return 'GET', '/zounds/temp/nosuch', [], None
        if q[0] == 'method':
            return q[1], '/zounds/%s/meta' % urllib.parse.quote(
                docs[0].id, safe=''), [], \
                b'' if q[1] in ('POST', 'PUT') else None
        return 'GET', '/nowhere', [], None

    def range(self, docs, d, f, r):
        if isinstance(r, list):
            n = 100
            if d < len(docs) and f in ('meta', 'ogg', 'blob'):
                n = len(self.raw(docs[d], f))
            return {'last': 'bytes=%d-%d' % (n - 1, n - 1),
                    'size': 'bytes=%d-%d' % (n, n),
                    'size-': 'bytes=%d-' % n,
                    'whole': 'bytes=0-%d' % (n - 1),
                    'beyond': 'bytes=%d-%d' % (n - 1, n + 5)}[r[1]]
        return r

    def raw(self, d, f):
        if f == 'meta':
            return json.dumps(d.meta).encode()
        return getattr(d, f)

    def statement(self, case, docs, q):
        _, what, d, a, b = q
        if what == 'samples':
            return 'doc%d.ogg[TimeSlice()]' % d
        if what == 'clip':
            lo, n = self.clip(docs[d], a, b)
            return 'doc%d.ogg[TimeSlice(start=ps(%r), duration=ps(%r))]' % (
                d, lo, n)
        if what == 'slice':
            return 'doc%d.fft[1:]' % d
        if what == 'search':
            return 'search(%r)' % docs[d].codes[0].hex()
        if what == 'brute':
            return 'brute(%d)' % d
        return 'doc%d.%s' % (d, what)

    def clip(self, d, a, b):
        total = d.spec['n'] / float(SR)
        lo = round(a * total * .7, 3)
        return lo, round(max(.02, b * (total - lo)), 3)

    # -- judging

    def judge(self, case, docs, slices, st, q, r, end, executed, hit):
        what = q[0]
        if what == 'page':
            if r.status != 200 or b'<html' not in r.body:
                raise Violation('page', 'the page: %s' % r.status, 'page')
        elif what == 'nothing' or what == 'temp':
            if r.status != 404:
                raise Violation('not found', '%s answered %s' % (
                    q, r.status), 'not found')
        elif what == 'method':
            if r.status not in (405,) and not (
                    q[1] == 'HEAD' and r.status == 200):
                raise Violation('method', '%s answered %s' % (q, r.status),
                                'method')
        elif what == 'feature':
            self.judge_feature(docs, q, r)
        elif what == 'search':
            self.judge_search(case, slices, q, r)
        elif what == 'syntax':
            self.console(r, q)
            if r.status != 400 or 'rror' not in r.json().get('error', ''):
                raise Violation('console', '%r answered %s %r' % (
                    q[1], r.status, r.body[:80]), 'syntax')
        elif what == 'tick':
            self.console(r, q)
            source, status, result = TICKS[q[1]]
            if status is None:
                status = 200 if q[2] in executed else 400
                st['abandoned'].add(q[2])
            if status == 200 or TICKS[q[1]][1] is not None:
                st['answered'][q[2]] = q[1]
            if r.status != status:
                raise Violation('console', '%s answered %s %s' % (
                    source.format(i=q[2]), r.status, r.body[-300:]),
                    'status')
            j = r.json()
            if status == 400:
                if 'result' in j or 'Traceback' not in j['error']:
                    raise Violation('console', '%s answered %r' % (
                        source, j), 'status')
            elif result is not None:
                want = result.format(i=q[2])
                if j['result'] != want:
                    raise Violation(
                        'console', '%s gave %r, not %r' % (
                            source.format(i=q[2]), j['result'], want),
                        'result')
                if 'url' in j:
                    raise Violation('console', '%s gave %r' % (source, j),
                                    'result')
        elif what == 'bind':
            self.console(r, q)
            if r.status != 200 or r.json()['result'] != '':
                raise Violation('console', '%s = doc%d answered %s %s' % (
                    q[1], q[2], r.status, r.body[-400:]), 'status')
        elif what == 'show':
            self.console(r, q)
            if r.status != 200:
                raise Violation('console', '%s answered %s %s' % (
                    self.statement(case, docs, q), r.status, r.body[-400:]),
                    'status')
            if ('url' not in r.json()) != (q[1] in ('cube', 'blob')):
                raise Violation('console', '%s answered %s' % (
                    self.statement(case, docs, q), r.body[-400:]), 'url')

    def console(self, r, q):
        if not (r.get('Content-Type') or '').startswith('application/json'):
            raise Violation('console', '%s answered with a %s' % (
                q, r.get('Content-Type')), 'type')

    def wrong(self, q, header, r, why):
        return Violation(
            'feature', '%s (Range: %s) answered %s, %s, %d bytes, '
            'Content-Range %s: %s' % (
                q[2], header, r.status, r.get('Content-Type'), len(r.body),
                r.get('Content-Range'), why), why)

    def judge_feature(self, docs, q, r):
        _, d, f, header, slash, cond = q
        header = self.range(docs, d, f, header)

        def bad(why):
            return self.wrong(q, header, r, why)
        if d >= len(docs) or f not in FEATURES:
            if r.status != 404:
                raise bad('there is no such document or feature')
            return
        d = docs[d]
        m = re.match(r'^bytes=(\d+)-(\d*)$', header or '')
        t = re.match(r'^seconds=([\d.]+)-([\d.]*)$', header or '')
        if r.status == 416 and header is None:
            raise bad('there was no range to be satisfied')
        cr = r.get('Content-Range')
        if r.status not in (206, 416) and cr is not None:
            raise bad('the content is not a range')
        if f in ('meta', 'blob') and t or f not in ('meta', 'blob', 'ogg') \
                and m:
            # there is no such range of this kind of feature
            if f in ('cube', 'blob'):
                ok = 400 <= r.status < 500
            else:
                ok = r.status == 416 or r.status == 200 and \
                    self.whole(d, f, r)
            if not ok:
                raise bad('this feature has no such ranges')
            return
        if f in ('cube', 'blob'):
            if not 400 <= r.status < 500:
                raise bad('there is no way to show this feature')
            return
        if f in ('meta', 'ogg') and not t:
            full = self.raw(d, f)
            n = len(full)
            if m:
                a = int(m.group(1))
                b = int(m.group(2)) if m.group(2) else n - 1
                if m.group(2) and b < a:
                    m = None        # malformed
                elif a >= n:
                    if r.status != 416:
                        raise bad('the range begins after the end')
                    if cr not in (None, 'bytes */%d' % n):
                        raise bad('content range')
                    return
                else:
                    b = min(b, n - 1)
                    if r.status != 206:
                        raise bad('the range could be satisfied')
                    if r.body != full[a: b + 1]:
                        raise bad('these are not bytes %d to %d of %d' % (
                            a, b, n))
                    if cr != 'bytes %d-%d/%d' % (a, b, n):
                        raise bad('content range')
            if not m:
                if r.status == 206:
                    k = re.match(r'^bytes (\d+)-(\d+)/(\d+)$', cr or '')
                    if not k or not 0 <= int(k.group(1)) <= int(
                            k.group(2)) < int(k.group(3)) == n or r.body != \
                            full[int(k.group(1)): int(k.group(2)) + 1]:
                        raise bad('the content is not what the headers say')
                elif r.status in (400, 416) and header is not None:
                    return
                elif r.status != 200 or not self.whole(d, f, r):
                    raise bad('this is not the whole feature')
            if not (r.get('Content-Type') or '').startswith(
                    'application/json' if f == 'meta' else 'audio/ogg'):
                raise bad('content type')
            return
        if not t:
            if r.status in (400, 416) and header is not None:
                return
            if r.status == 206 and (header or '').startswith('seconds='):
                # odd, but understood
                return
            if r.status != 200 or not self.whole(d, f, r):
                raise bad('this is not the whole feature')
            return
        a = float(t.group(1))
        b = float(t.group(2)) if t.group(2) else None
        if f == 'ogg':
            total = len(d.samples) / float(SR)
        elif f == 'onsets' or f == 'img':
            # times do not apply to these
            if r.status != 416 and not (
                    r.status == 200 and self.whole(d, f, r)):
                raise bad('this feature has no such ranges')
            return
        else:
            total = float(d.array(f).dimensions[0].end /
                          np.timedelta64(1, 'ps')) / 1e12
        if b is not None and b <= a:
            if 400 <= r.status < 500 or r.status == 200 and \
                    self.whole(d, f, r):
                return
            if r.status == 206 and f != 'ogg':
                # the frame at that time
                x = self.part(d, f, a, b)
                if len(x) and r.body == picture(x):
                    return
            raise bad('an empty range')
        if a >= total:
            if r.status != 416:
                raise bad('the range begins after the end')
            return
        if r.status == 416 and a > total - .001:
            return
        everything = r.status == 200 and a == 0 and (b is None or b >= total)
        if f == 'ogg':
            lo = int(a * SR)
            want = d.samples[lo:]
            if b is not None:
                want = want[:int((b - a) * SR)]
            if r.status == 416 and len(want) < 2:
                return
            if r.status != 206 and not everything:
                raise bad('the range could be satisfied')
            self.judge_audio(r.body, want, bad)
        else:
            x = self.part(d, f, a, b)
            if r.status == 416 and not len(x):
                return
            if r.status != 206 and not everything:
                raise bad('the range could be satisfied')
            if r.body != picture(x):
                raise bad('the picture is not of the requested part')
        if everything:
            return
        k = re.match(r'^seconds ([\d.]+)-([\d.]+)/([\d.]+)$', cr or '')
        if not k:
            raise bad('content range')
        s, e, n = map(float, k.groups())
        if abs(s - a) > 1e-6 or abs(n - total) > 1e-6 or abs(
                e - (total if b is None else min(b, total))) > 1e-6:
            raise bad('content range')

    def part(self, d, f, a, b):
        from zounds.timeseries import TimeSlice, Picoseconds
        return d.array(f)[TimeSlice(
            start=Picoseconds(int(a * 1e12)), duration=None if b is None
            else Picoseconds(int(1e12 * (b - a))))]

    def whole(self, d, f, r):
        t = r.get('Content-Type') or ''
        if f in ('meta', 'ogg'):
            return r.body == self.raw(d, f)
        if f == 'onsets':
            return 'json' in t and self.same_slices(
                r.json()['results'], [(d.id,) + x for x in d.slices])
        return t == 'image/png' and r.body == picture(d.array(f))

    def judge_audio(self, body, want, bad):
        try:
            got, rate = audio.decode(body)
        except Exception as e:
            raise bad('cannot be decoded: %s' % one_line(e))
        if rate != SR or got.ndim != want.ndim:
            raise bad('another format')
        if abs(len(got) - len(want)) > 1:
            raise bad('%d samples instead of %d' % (len(got), len(want)))
        n = min(len(got), len(want))
        if n > 64 and np.abs(got[:n] - want[:n]).max() > .35:
            raise bad('these are other samples')

    def same_slices(self, results, want):
        if len(results) != len(want):
            return False
        for j, (_id, start, dur) in zip(results, want):
            q = urllib.parse.quote(_id, safe='')
            if j['audio'] != '/zounds/%s/ogg' % q or \
                    j['visualization'] != '/zounds/%s/fft' % q or \
                    abs(j['slice']['start'] - start) > 1e-6 or \
                    abs(j['slice']['duration'] - dur) > 1e-6:
                return False
        return True

    def judge_search(self, case, slices, q, r):
        _, how, code, _, _ = q
        code = bytes.fromhex(code)

        def bad(why):
            return Violation('search', 'a search (%s) answered %s %r: %s' % (
                how, r.status, r.body[:200], why), why)
        if how in ('bad', 'short'):
            if not 400 <= r.status < 500:
                # what is left of a query that is no code may be no query
                if r.status == 200 and how == 'bad':
                    self.results(case, slices, None, r, bad)
                    return
                raise bad('the query is no code')
            return
        if r.status != 200:
            raise bad('failed')
        self.results(case, slices, None if how == 'random' else code, r, bad)

    def results(self, case, slices, code, r, bad):
        if 'json' not in (r.get('Content-Type') or ''):
            raise bad('content type')
        j = r.json()
        if code is None:
            code = base64.b64decode(j['query'])
            if code not in [x[3] for x in slices]:
                raise bad('the query is the code of nothing')
        elif base64.b64decode(j['query']) != code:
            raise bad('not the query')
        left = list(slices)
        for x in j['results']:
            for y in left:
                if self.same_slices([x], [y[:3]]):
                    left.remove(y)
                    break
            else:
                raise bad('%s is nothing that is indexed' % (x,))
        if len(j['results']) != min(case['n_results'], len(slices)):
            raise bad('%d results' % len(j['results']))
        taken = [y for y in slices if y not in left]
        if left and taken:
            far = max(popcount_distance(code, y[3]) for y in taken)
            near = min(popcount_distance(code, y[3]) for y in left)
            if far > near:
                raise bad('these are not the nearest')

    # -- what a browser does next

    def follow(self, case, docs, slices, q, r):
        if q[0] == 'show' and 'url' in r.json():
            yield 'GET', r.json()['url'], [], \
                lambda rr: self.judge_shown(case, docs, slices, q, r, rr)
        if q[0] == 'bind' and q[1] != 'other':
            # through the variable, it's the same
            for d in q[2], q[4]:
                if d is None:
                    return
                if d is not q[2]:
                    again = q[:2] + [d] + q[3:]
                    yield 'POST', '/zounds/repl', \
                        self.plan(case, docs, slices, again)[3], \
                        lambda rr: self.judge(case, docs, slices, None,
                                              again, rr, None, None, None)
                same = ['show', q[3], d, 0, 0]
                box = []

                def evaluated(rr):
                    self.judge(case, docs, slices, None, same, rr, None, None,
                               None)
                    box.append(rr)
                yield 'POST', '/zounds/repl', (
                    '%s.%s' % (q[1], q[3])).encode(), evaluated
                yield 'GET', box[0].json()['url'], [], \
                    lambda rr: self.judge_shown(
                        case, docs, slices, same, box[0], rr)
        if q[0] == 'feature' and r.status == 200 and q[5] and \
                q[3] is None and r.get('Etag'):
            path = self.plan(case, docs, slices, q[:3] + [None] + q[4:])[1]

            def same(rr):
                if rr.status not in (200, 304) or rr.status == 304 and \
                        rr.body or rr.status == 200 and rr.body != r.body:
                    raise Violation('etag', 'asked again with its etag, %s '
                                    'answered %s' % (q[2], rr.status), 'etag')

            def other(rr):
                if rr.status != 200 or rr.body != r.body:
                    raise Violation(
                        'etag', 'asked with another etag, %s answered %s' % (
                            q[2], rr.status), 'etag')
            yield 'GET', path, [('If-None-Match', r.get('Etag'))], same
            yield 'GET', path, [('If-None-Match', '"other"')], other
        if q[0] == 'feature' and r.status in (200, 206) and q[5] and \
                q[3] is not None and r.get('Etag'):
            # having a part isn't having everything
            whole = []

            def everything(rr):
                if rr.status == 304 and whole[0].body != r.body or \
                        rr.status != 304 and (rr.status, rr.body) != (
                            whole[0].status, whole[0].body):
                    raise Violation(
                        'etag', 'all of %s, asked for with the etag of %s '
                        '(%d bytes), answered %s, %d bytes, but it is %s, %d '
                        'bytes' % (
                            q[2], q[3], len(r.body), rr.status, len(rr.body),
                            whole[0].status, len(whole[0].body)), 'etag')
            path = self.plan(case, docs, slices, q[:3] + [None] + q[4:])[1]
            yield 'GET', path, [], whole.append
            yield 'GET', path, [('If-None-Match', r.get('Etag'))], everything
        if q[0] == 'search' and q[1] == 'follow' and r.status == 200:
            for x in r.json()['results'][:2]:
                a = x['slice']['start']
                b = a + x['slice']['duration']
                for key, f in (('audio', 'ogg'), ('visualization', 'fft')):
                    for d, doc in enumerate(docs):
                        if x[key] == '/zounds/%s/%s' % (
                                urllib.parse.quote(doc.id, safe=''), f):
                            header = 'seconds=%s-%s' % (a, b)
                            yield 'GET', x[key], [('Range', header)], (
                                lambda rr, d=d, f=f, header=header:
                                self.judge_feature(
                                    docs, ['feature', d, f, header, False,
                                           False], rr))

    def judge_shown(self, case, docs, slices, q, r, rr):
        _, what, d, a, b = q
        d = docs[d]

        def bad(why):
            return Violation(
                'shown', '%s: %s %s, %d bytes: %s' % (
                    self.statement(case, docs, q), rr.status,
                    rr.get('Content-Type'), len(rr.body), why), why)
        if rr.status != 200:
            raise bad('failed')
        if rr.get('Content-Type').split(';')[0] != r.json()['contentType']:
            raise bad('content type')
        if what in ('meta', 'ogg', 'fft', 'code', 'flat', 'img', 'onsets'):
            if not self.whole(d, what, rr):
                raise bad('this is not the feature')
        elif what == 'slice':
            if rr.body != picture(d.fft[1:]):
                raise bad('this is not the value')
        elif what == 'samples':
            self.judge_audio(rr.body, d.samples, bad)
        elif what == 'clip':
            lo, n = self.clip(d, a, b)
            want = d.samples[int(lo * SR):][:int(n * SR)]
            self.judge_audio(rr.body, want, bad)
        elif what == 'search':
            self.results(case, slices, d.codes[0], rr, bad)
        elif what == 'brute':
            results = rr.json()['results']
            # the nearest is where the query came from
            if len(results) != min(2, sum(len(x.fft) for x in docs)) or not \
                    self.same_slices(results[:1], [
                        (d.id, 0, d.spec['dur'] / 1000.)]):
                raise bad('these are not the results: %s' % results)


CHECK = C21()
