"""
C13: a document that failed to process is retried cleanly
"""
import io
import json
import os
import random

import numpy as np

from sim import net, sched
from sim.runner import Check, Violation, sched_spec, simulate, one_line, \
    scratch
from checks import audio
from checks.store import Disk, make_database, Crash, StoreError
from checks.streams import node_classes
from checks.c12_stored_features import check_array, check_events

SOURCES = ['bytes', 'file', 'flo', 'flo', 'url', 'url', 'request']
FLO = ['read error', 'eof', 'corrupt']
WEB = ['refuse', 'status', 'reset', 'timeout', 'short', 'corrupt']


class SourceError(IOError):
    pass


class Source(io.BytesIO):
    """a file-like object that breaks at some position, for a while"""

    def __init__(self, data, reads, fault, res):
        super(Source, self).__init__(data)
        self._reads = reads
        self._i = 0
        self._fault = fault
        self._left = fault['times'] if fault else 0
        self._res = res

    def read(self, n=-1):
        f = self._fault
        if f and self._left:
            at, pos = f['at'], self.tell()
            if pos >= at:
                self._left -= 1
                self._res.fault('source ' + f['kind'])
                if f['kind'] == 'eof':
                    return b''
                raise SourceError('simulated ' + f['kind'])
            if n is None or n < 0 or n > at - pos:
                n = at - pos
        if self._reads and n is not None and n > 0:
            k = self._reads[self._i % len(self._reads)]
            self._i += 1
            if k:
                n = min(n, k)
        return super(Source, self).read(n)

    def readinto(self, buf):
        d = super(Source, self).read(len(buf)) if not self._left \
            else self.read(len(buf))
        buf[:len(d)] = d
        return len(d)


class C13(Check):
    id = 'C13'
    runs = {'quick': 350, 'thorough': 8000}
    rule = (
        'a case is up to three documents with their sound files, sources and '
        'attempts at processing them, each attempt with a fault in the '
        'source, the network, a computation or the store, or a process crash, '
        'and an interleaving of the documents; non-trivial when a fault hit')
    real = ['zounds.soundfile', 'zounds.basic.audiograph', 'zounds.spectral',
            'zounds.persistence', 'featureflow', 'requests and urllib3 above '
            'the connection']
    stub = ['network connections', 'document store', 'sources that break',
            'thread scheduling']
    assumptions = [
        'features read from an attempt that hit no fault are right',
        'featureflow swallows errors when a stream is closed, so the store '
        'does not fail there']

    def generate(self, rng, tier):
        docs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            src = rng.choice(SOURCES)
            fmt, sub = rng.choice(audio.FORMATS)
            n = rng.choice([rng.randint(1500, 6000),
                            rng.randint(6000, 20000)])
            attempts = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.random()
                if k < .15:
                    f = None
                elif k < .3:
                    f = {'where': 'node', 'at': rng.randint(0, 6),
                         'exc': rng.choice(['MemoryError', 'ValueError',
                                            'KeyboardInterrupt', 'OSError'])}
                elif k < .5:
                    f = {'where': 'store', 'op': rng.choice(
                        ['open', 'write', 'write', 'write']),
                        'nth': rng.choice([1, 2, 3, rng.randint(1, 30)])}
                elif k < .65:
                    f = {'where': 'crash', 'nth': rng.randint(1, 40)}
                else:
                    if src in ('bytes', 'file'):
                        f = {'where': 'source', 'kind': 'corrupt',
                             'at': rng.random()}
                    elif src == 'flo':
                        f = {'where': 'source', 'kind': rng.choice(FLO),
                             'at': rng.random(),
                             'times': rng.choice([1, 1, 10 ** 6])}
                    else:
                        f = {'where': 'source', 'kind': rng.choice(WEB),
                             'at': rng.random(),
                             'status': rng.choice([404, 403, 500, 503])}
                attempts.append(f)
            docs.append({
                'src': src, 'fmt': fmt, 'sub': sub, 'n': n,
                'rate': rng.choice([11025, 11025, 22050, 44100]),
                'channels': rng.choice([1, 1, 2]),
                'seed': rng.getrandbits(20),
                'reads': audio.make_reads(rng, n * 2),
                'attempts': attempts})
        return {
            'ops': docs,
            'chunk': rng.choice([1024, 4000, 10000, 10 ** 6]),
            'model': rng.choice(['stft', 'stft', 'stft', 'ogg']),
            'store_resampled': rng.random() < .5,
            'store_fft': rng.random() < .5,
            'restart': rng.random() < .3,
            'threads_': rng.random() < .4,
            'sseed': rng.getrandbits(20),
            'sched': sched_spec(rng)}

    def shrink(self, case):
        if case['threads_']:
            yield dict(json.loads(json.dumps(case)), threads_=False)
        if case['model'] != 'ogg':
            yield dict(json.loads(json.dumps(case)), model='ogg')
        for i, d in enumerate(case['ops']):
            for j in range(len(d['attempts'])):
                c = json.loads(json.dumps(case))
                del c['ops'][i]['attempts'][j]
                yield c
            for k, v in (('n', 1500), ('reads', []), ('channels', 1),
                         ('fmt', 'WAV'), ('sub', 'PCM_16')):
                if d[k] != v:
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    if k == 'fmt':
                        c['ops'][i]['sub'] = 'PCM_16'
                    yield c

    def execute(self, case, res):
        import requests
        import featureflow as ff
        import zounds
        from zounds.timeseries import audio_sample_rate
        sr = zounds.SR11025()
        path = scratch('sounds')
        kb = ff.StringDelimitedKeyBuilder()
        disk = Disk()
        plans = {}
        web = {}

        data = []
        for d in case['ops']:
            x = audio.signal(d['n'], d['channels'], d['seed'])
            data.append(audio.encode(x, d['rate'], d['fmt'], d['sub']))

        failing = {}

        class Faulty(ff.Node):
            """what a user's own stage may do"""

            def __init__(self, needs=None):
                super(Faulty, self).__init__(needs=needs)
                self._n = 0

            def _process(self, x):
                f = failing.get(threading_key())
                if f is not None and self._n == f['at']:
                    res.fault('failing computation')
                    f['hit'] = True
                    raise {'MemoryError': MemoryError,
                           'ValueError': ValueError, 'OSError': OSError,
                           'KeyboardInterrupt': KeyboardInterrupt}[f['exc']](
                               'simulated')
                self._n += 1
                yield x

        def threading_key():
            me = sched.sim_me()
            return me.tid if me is not None else None

        STFT = zounds.stft(
            chunksize_bytes=case['chunk'], resample_to=sr,
            wscheme=zounds.SampleRate(
                frequency=sr.frequency * 128, duration=sr.frequency * 256),
            store_resampled=case['store_resampled'],
            store_fft=case['store_fft'])

        class OnlyOgg(ff.BaseModel):
            meta = ff.JSONFeature(
                zounds.MetaData, store=True,
                encoder=zounds.AudioMetaDataEncoder)
            raw = ff.ByteStreamFeature(
                ff.ByteStream, chunksize=case['chunk'], needs=meta,
                store=False)
            ogg = zounds.OggVorbisFeature(
                zounds.OggVorbis, needs=raw, store=True)

        class Full(STFT):
            own = zounds.ArrayWithUnitsFeature(
                Faulty, needs=STFT.fft, store=False)
            bark = zounds.ArrayWithUnitsFeature(
                zounds.BarkBands, needs=own, store=True, n_bands=12,
                frequency_band=zounds.FrequencyBand(20, 5000))
            centroid = zounds.ArrayWithUnitsFeature(
                zounds.SpectralCentroid, needs=bark, store=True)
        Doc = OnlyOgg if case['model'] == 'ogg' else Full
        names = [n for n in ('resampled', 'fft', 'bark', 'centroid', 'ogg')
                 if n in Doc.features]
        stored = [n for n in names if getattr(Doc.features[n], 'store')]
        # the bytes a document was made from are not stored, so that not
        # everything can be computed again
        names = [n for n in names if n in stored or (
            n == 'fft' and 'resampled' in stored)]
        ids = ff.UserSpecifiedIdProvider(key='_id')

        def bind(db):
            return type('Doc', (Doc, ff.PersistenceSettings), {
                'id_provider': ids, 'key_builder': kb, 'database': db})

        def read(cls, i, name):
            v = getattr(cls('doc%d' % i), name)
            return v[slice(None)] if name == 'ogg' else v

        def same(label, got, want):
            check_array(label, got, want)

        net.NET[0] = net.SimNet(
            lambda r: (200, {'Content-Type': 'audio/x'}, web[r.url]['body']),
            lambda r, n: web[r.url]['fault'], res, case['sseed'])

        def corrupted(b, at):
            k = max(0, min(len(b) - 1, int(at * len(b))))
            return b[:k] + bytes(255 - c for c in b[k: k + 40]) + b[k + 40:]

        def broken(b):
            try:
                audio.decode(b)
            except Exception:
                return True
            return False

        def source(i, d, f):
            b = data[i]
            bad = f if f and f['where'] == 'source' else None
            if bad and bad['kind'] == 'corrupt':
                b = corrupted(b, bad['at'])
                res.fault('corrupt source')
            if d['src'] == 'bytes':
                return io.BytesIO(b)
            if d['src'] == 'file':
                fn = os.path.join(path, 'doc%d' % i)
                with open(fn, 'wb') as fh:
                    fh.write(b)
                return fn
            if d['src'] == 'flo':
                if bad:
                    bad = dict(bad, at=int(bad['at'] * len(b)))
                return Source(
                    b, d['reads'], bad if bad and bad['kind'] != 'corrupt' else None,
                    res)
            url = 'http://sounds.example/%d' % i
            web[url] = {'body': b, 'fault': None}
            if bad and bad['kind'] != 'corrupt':
                web[url]['fault'] = dict(bad, at=int(bad['at'] * len(b)))
            if d['src'] == 'request':
                return requests.Request(method='GET', url=url, headers={})
            return url

        # what it should be: processed alone, without faults
        ref = []
        for i, d in enumerate(case['ops']):
            cls = bind(ff.InMemoryDatabase(kb))
            try:
                cls.process(_id='doc%d' % i, meta=source(i, d, None))
            except Exception as e:
                raise Violation('healthy', 'document %d (%s %s from %s) fails '
                                'without any fault: %s' % (
                                    i, d['fmt'], d['sub'], d['src'],
                                    one_line(e)))
            ref.append({n: read(cls, i, n) for n in names})

        def make_db(tag):
            def plan(db, op, key, n):
                me = threading_key()
                f = plans.get(me)
                if f is None:
                    return
                if f['where'] == 'crash':
                    f['left'] -= 1
                    if f['left'] <= 0:
                        db.dead = True
                        res.fault('process crash')
                        f['hit'] = True
                        raise Crash()
                elif op == f['op']:
                    f['left'] -= 1
                    if f['left'] == 0:
                        res.fault('store error on ' + op)
                        f['hit'] = True
                        raise StoreError('simulated')
            return make_database(disk, kb, '%s/%s' % (case['sseed'], tag),
                                 plan)

        shared = [make_db('first')]

        def readable(i, when, must):
            """every feature is either right or not there"""
            cls = bind(make_db('reader %d %s' % (i, when)))
            label = 'document %d, %s' % (i, when)
            for n in names:
                # what the store does not have may be computed from a source
                # that is broken: only what is stored counts, until the end
                if not must and (n not in stored or
                                 cls.features[n].feature_key(
                                     'doc%d' % i, cls) not in disk.files):
                    continue
                try:
                    got = read(cls, i, n)
                except Exception as e:
                    raise Violation(
                        'unreadable', '%s: %s: %s' % (label, n, one_line(e)))
                same('%s: %s' % (label, n), got, ref[i][n])

        def one(i, d):
            for k, f in enumerate(list(d['attempts']) + [None]):
                last = k == len(d['attempts'])
                label = 'attempt %d' % k
                src = source(i, d, f)
                db = shared[0]
                if f is not None and f['where'] == 'crash' or \
                        case['restart']:
                    db = make_db('doc %d attempt %d' % (i, k))
                cls = bind(db)
                me = threading_key()
                failing[me] = plans[me] = None
                if f is not None and f['where'] == 'node':
                    failing[me] = dict(f)
                elif f is not None and f['where'] in ('store', 'crash'):
                    plans[me] = dict(f, left=f['nth'])
                err = None
                try:
                    cls.process(_id='doc%d' % i, meta=src)
                except (Exception, KeyboardInterrupt, Crash) as e:
                    err = e
                hit = [x for x in (failing[me], plans[me])
                       if x is not None and x.get('hit')]
                failing[me] = plans[me] = None
                if d['src'] in ('url', 'request'):
                    web['http://sounds.example/%d' % i]['fault'] = None
                res.note('doc', i, k, type(err).__name__)
                if err is not None and f is None:
                    raise Violation(
                        'retry', 'document %d (%s %s from %s), %s, fails '
                        'without a fault: %s' % (
                            i, d['fmt'], d['sub'], d['src'], label,
                            one_line(err)))
                if err is None and hit:
                    raise Violation(
                        'unreported', 'document %d, %s: %s was not reported'
                        % (i, label, hit[0]))
                corrupt = f is not None and f.get('kind') == 'corrupt'
                if corrupt:
                    # other bytes are another sound, or none
                    left = [x for x in sorted(disk.files)
                            if x.startswith('doc%d:' % i)]
                    if err is not None and left:
                        raise Violation(
                            'leftover', 'document %d, %s: it failed, but %s '
                            'can be read' % (i, label, left))
                    # what is ogg already is stored as it is
                    if err is None and d['fmt'] != 'OGG' and broken(
                            corrupted(data[i], f['at'])):
                        raise Violation(
                            'unreported', 'document %d (%s %s), %s: it can '
                            'not be decoded, but that was not reported' % (
                                i, d['fmt'], d['sub'], label))
                    for x in left:
                        del disk.files[x]
                    continue
                # an attempt that reported nothing has to be complete
                readable(i, label + (' (%s %s)' % (
                    f['where'], f.get('kind', '')) if f else ''), err is None)

        def main(s_):
            errs = []

            def run(i, d):
                def go():
                    try:
                        one(i, d)
                    except Violation as e:
                        errs.append(e)
                return go
            ts = []
            for i, d in enumerate(case['ops']):
                if case['threads_']:
                    ts.append(s_.spawn(run(i, d), 'document %d' % i))
                else:
                    run(i, d)()
            for t in ts:
                s_.join(t)
            if errs:
                raise errs[0]

        simulate(case, res, main, max_steps=4000000)
        res.nontrivial = sum(res.faults.values()) > 0


CHECK = C13()
