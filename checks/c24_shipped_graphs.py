"""
C24: what a document holds depends on its sound alone
"""
import io
import json
import os
import zipfile

import numpy as np

from sim import net, sched
from sim.runner import Check, Violation, sched_spec, simulate, one_line, \
    scratch
from checks import audio
from checks.store import Disk, make_database
from checks.streams import same_array, same_dims

GRAPHS = ['audio', 'audio', 'onsets', 'adaptive', 'stft', 'stft', 'windowed',
          'resampled']
SOURCES = ['bytes', 'file', 'url', 'url', 'request', 'zip', 'meta', 'stream']
RATES = [11025, 11025, 16000, 22050, 44100, 48000]
AT = ['SR11025', 'SR11025', 'SR22050', 'SR44100']


class C24(Check):
    id = 'C24'
    runs = {'quick': 250, 'thorough': 8000}
    rule = (
        'a case is one of the graphs the library ships with its options, up '
        'to three sounds with their formats and sources, how their bytes '
        'arrive and in which chunks they are processed, who processes them '
        'at the same time, and the order in which their features are read, '
        'by whom; non-trivial when a sound took several chunks')
    real = ['zounds.basic.audiograph and all the nodes it uses',
            'zounds.soundfile', 'zounds.persistence', 'featureflow',
            'requests and urllib3 above the connection', 'libsndfile',
            'libsamplerate']
    stub = ['network connections', 'document store', 'thread scheduling']
    assumptions = ['processing in one chunk, alone, is the reference']

    def generate(self, rng, tier):
        docs = []
        path = rng.random() < .25
        for _ in range(rng.choice([1, 1, 2, 3])):
            fmt, sub = rng.choice(audio.FORMATS)
            rate = rng.choice(RATES)
            n = int(rate * rng.choice([.2, .5, 1, 1.5]) * rng.uniform(.5, 1))
            docs.append({
                'src': rng.choice(['file', 'file', 'meta'] if path else SOURCES),
                'fmt': fmt, 'sub': sub, 'n': n,
                'rate': rate, 'channels': rng.choice([1, 1, 2]),
                'seed': rng.getrandbits(20), 'smooth': rng.random() < .4,
                'stall': rng.random() < .2,
                'reads': audio.make_reads(rng, n * 2)})
        graph = rng.choice(GRAPHS)
        return {
            'graph': graph, 'ops': docs,
            'chunk': rng.choice([
                1024, 4096, 10000, rng.randint(500, 200000),
                rng.randint(500, 40000)]),
            'at': rng.choice(AT if graph != 'adaptive' else AT[:3]),
            'store': [rng.random() < .5 for _ in range(3)],
            'pad': rng.choice([0, 0, 7, 64]),
            'wscheme': rng.choice([None, [128, 256], [256, 256],
                                   [100, 300]]),
            'threads_': not path and rng.random() < .5,
            'path': path,
            'readers': rng.choice([1, 1, 2]),
            'order': rng.getrandbits(20), 'restart': rng.random() < .5,
            'sseed': rng.getrandbits(20),
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for k, v in (('threads_', False), ('readers', 1), ('restart', False),
                     ('pad', 0), ('path', False)):
            if case.get(k, v) != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})
        for i, d in enumerate(case['ops']):
            for k, v in (('reads', []), ('channels', 1), ('fmt', 'WAV'),
                         ('sub', 'PCM_16'), ('src', 'bytes'),
                         ('stall', False), ('n', d['n'] // 2)):
                if d[k] != v and (k != 'n' or v > 3000) and (
                        k != 'sub' or d['fmt'] == 'WAV'):
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    if k == 'fmt':
                        c['ops'][i]['sub'] = 'PCM_16'
                    yield c

    def graph(self, case, chunk):
        import featureflow as ff
        import zounds
        from zounds.basic import audio_graph, with_onsets, stft, windowed, \
            resampled, frequency_adaptive
        from zounds.timeseries import SampleRate
        sr = getattr(zounds, case['at'])()
        s = case['store']
        kw = dict(chunksize_bytes=chunk, resample_to=sr)
        w = case['wscheme']
        scheme = zounds.HalfLapped() if w is None else SampleRate(
            frequency=sr.frequency * w[0], duration=sr.frequency * w[1])
        g = case['graph']
        if g == 'audio':
            return audio_graph(store_fft=s[0], **kw)
        if g == 'onsets':
            base = audio_graph(store_fft=s[0], **kw)

            class Both(base, with_onsets(base.fft)):
                pass
            return Both
        if g == 'adaptive':
            scale = zounds.GeometricScale(
                300, float(sr.nyquist) * .8, .05, 40)
            return frequency_adaptive(
                SampleRate(frequency=sr.frequency * 512,
                           duration=sr.frequency * 1024),
                scale, store_freq_adaptive=True, store_resampled=s[0], **kw)
        if g == 'stft':
            return stft(
                wscheme=scheme, store_fft=s[0], store_windowed=s[1],
                store_resampled=s[2], fft_padding_samples=case['pad'], **kw)
        if g == 'windowed':
            return windowed(
                scheme, store_resampled=s[0], store_windowed=s[1],
                wfunc=zounds.HanningWindowingFunc() if s[2] else None, **kw)
        return resampled(store_resampled=s[0], **kw)

    def names(self, cls):
        """the features that can be read once a document is there"""
        feats = cls.features

        def possible(f):
            if f.store:
                return True
            if f.is_root or f is feats['raw']:
                return False
            return all(possible(n) for n in f.dependencies) \
                if hasattr(f, 'dependencies') else all(
                    possible(n) for n in self.sources(f))
        return [n for n in sorted(feats)
                if n != 'meta' and possible(feats[n])]

    def promised(self, case):
        """the features that can be read at least, and what is stored"""
        s, g = case['store'], case['graph']
        flags = {
            'stft': ['fft', 'windowed', 'resampled'],
            'windowed': ['resampled', 'windowed'], 'resampled': ['resampled'],
            'adaptive': ['resampled'], 'audio': ['fft'], 'onsets': ['fft']}[g]
        out = ['meta', 'ogg'] + [n for n, x in zip(flags, s) if x]
        if g in ('audio', 'onsets'):
            out += ['bark', 'bfcc', 'centroid', 'chroma', 'dct']
        return out + {'onsets': ['slices'],
                      'adaptive': ['freq_adaptive']}.get(g, [])

    def sources(self, f):
        n = f.needs
        if n is None:
            return []
        if hasattr(n, 'store'):
            return [n]
        return list(n.values()) if isinstance(n, dict) else list(n)

    def execute(self, case, res):
        import random
        import requests
        import featureflow as ff
        import zounds
        from zounds.soundfile import AudioMetaData
        path = scratch('sounds')
        kb = ff.StringDelimitedKeyBuilder()
        disk = Disk()
        web = {}
        data = []
        for d in case['ops']:
            x = audio.signal(d['n'], d['channels'], d['seed'], d['smooth'])
            data.append(audio.encode(x, d['rate'], d['fmt'], d['sub']))

        def answer(r):
            return 200, {'Content-Type': 'audio/x'}, data[web[r.url]]

        def fault(r, n):
            d = case['ops'][web[r.url]]
            if d['stall']:
                return {'kind': 'stall', 'at': len(data[web[r.url]]) // 2}
        net.NET[0] = net.SimNet(answer, fault, res, case['sseed'])

        def local(i):
            # one after another, files may come and go under one name
            if case.get('path') and not case['threads_']:
                return os.path.join(path, 'doc')
            return os.path.join(path, 'doc%d' % i)

        def about(i, d):
            """what is to be known about a document's source"""
            want = dict.fromkeys(['uri', 'samplerate', 'channels',
                                  'licensing', 'description', 'tags'])
            if d['src'] in ('url', 'request'):
                want['uri'] = 'http://sounds.example/%d' % i
            elif d['src'] == 'meta':
                want.update(uri=local(i), licensing='mine')
            elif d['src'] != 'zip':
                want.update(samplerate=d['rate'], channels=d['channels'])
                if d['src'] == 'file':
                    want['uri'] = local(i)
            return want

        def source(i, d):
            b = data[i]
            if d['src'] == 'bytes':
                return io.BytesIO(b)
            if d['src'] == 'stream':
                return Pieces(b, d['reads'], res)
            if d['src'] in ('file', 'meta'):
                fn = local(i)
                with open(fn, 'wb') as fh:
                    fh.write(b)
                if d['src'] == 'meta':
                    return AudioMetaData(uri=fn, licensing='mine')
                return fn
            if d['src'] == 'zip':
                fn = os.path.join(path, 'doc%d.zip' % i)
                with zipfile.ZipFile(fn, 'w') as z:
                    z.writestr('sound', b)
                return next(ff.iter_zip(fn))
            url = 'http://sounds.example/%d' % i
            web[url] = i
            if d['src'] == 'request':
                return requests.Request(method='GET', url=url, headers={})
            return url

        ids = ff.UserSpecifiedIdProvider(key='_id')

        def bind(graph, db):
            return type('Doc', (graph, ff.PersistenceSettings), {
                'id_provider': ids, 'key_builder': kb, 'database': db})

        def read(cls, i, name):
            v = getattr(cls('doc%d' % i), name)
            return v[slice(None)] if name == 'ogg' else v

        chunked = self.graph(case, case['chunk'])
        whole = self.graph(case, 10 ** 7)
        names = sorted(set(self.names(chunked)).union(
            self.promised(case)) - set(['meta']))
        if 'ogg' not in names:
            raise Violation('graph', 'no ogg in %s' % (names,))

        def same(label, name, got, want):
            if type(got) is not type(want):
                raise Violation('type', '%s is a %s, expected %s' % (
                    label, type(got).__name__, type(want).__name__))
            if name == 'slices':
                a = [(t.start, t.duration) for t in got.slices]
                b = [(t.start, t.duration) for t in want.slices]
                if a != b:
                    raise Violation('slices', '%s: %d slices, expected %d, '
                                    'first difference %s' % (
                                        label, len(a), len(b), [
                                            (x, y) for x, y in zip(a, b)
                                            if x != y][:1]))
                return
            if name == 'ogg':
                if got.shape != want.shape:
                    raise Violation('shape', '%s has shape %s, expected %s' % (
                        label, got.shape, want.shape))
                # Vorbis decides anew what it may leave out
                a, b = np.asarray(got), np.asarray(want)
                e = np.sqrt(((a - b) ** 2).mean())
                rms = np.sqrt((b ** 2).mean())
                if not e <= .3 * rms + .01:
                    raise Violation('values', '%s differs by %s of %s' % (
                        label, e, rms))
                same_dims(label, got, want)
                return
            same_array(label, got, want, rtol=1e-4, atol=1e-5)
            same_dims(label, got, want)

        # what it should be: alone, and in one piece
        ref = []
        for i, d in enumerate(case['ops']):
            cls = bind(whole, ff.InMemoryDatabase(kb))
            try:
                cls.process(_id='doc%d' % i, meta=io.BytesIO(data[i]))
                ref.append({n: read(cls, i, n) for n in names})
            except Exception as e:
                raise Violation(
                    'healthy', 'document %d (%s %s) cannot be processed: %s'
                    % (i, d['fmt'], d['sub'], one_line(e)),
                    'healthy:' + type(e).__name__)

        def make_db(tag):
            return make_database(
                disk, kb, '%s/%s' % (case['sseed'], tag))

        def main(s_):
            errs = []
            first = make_db('first')

            def guarded(what, f, *a):
                def go():
                    try:
                        f(*a)
                    except Violation as e:
                        errs.append(e)
                    except Exception as e:
                        errs.append(Violation(
                            'raised', '%s: %s' % (what, one_line(e)),
                            'raised:' + type(e).__name__))
                return go

            def process(i, d):
                bind(chunked, first).process(
                    _id='doc%d' % i, meta=source(i, d))

            def look(r, i):
                db = make_db('reader %d' % r) if case['restart'] else first
                cls = bind(chunked, db)
                rng = random.Random('%s/%s/%s' % (case['order'], r, i))
                todo = list(names)
                rng.shuffle(todo)
                doc = cls('doc%d' % i)
                want = about(i, case['ops'][i])
                if doc.meta != want:
                    raise Violation('meta', 'document %d is described '
                                    'by %s, expected %s' % (
                                        i, doc.meta, want))
                for n in todo:
                    label = 'document %d (%s), %s' % (
                        i, case['ops'][i]['src'], n)
                    v = getattr(doc, n) if rng.random() < .5 \
                        else getattr(cls('doc%d' % i), n)
                    same(label, n, v[slice(None)] if n == 'ogg' else v,
                         ref[i][n])

            jobs = [('document %d from %s' % (i, d['src']), process, i, d)
                    for i, d in enumerate(case['ops'])]
            self.together(case, s_, jobs, guarded, errs)
            n = len(net.NET[0].log)
            jobs = [('reading document %d' % i, look, r, i)
                    for r in range(case['readers'])
                    for i in range(len(case['ops']))]
            before = dict(disk.files)
            self.together(case, s_, jobs, guarded, errs)
            if dict(disk.files) != before:
                raise Violation('changed', 'reading changed what is stored')
            if len(net.NET[0].log) != n:
                raise Violation('download', 'reading stored features '
                                'downloads the sound again')

        simulate(case, res, main, max_steps=6000000)
        pieces = [len(data[i]) / float(case['chunk'])
                  for i in range(len(data))]
        res.nontrivial = max(pieces) > 1.5
        res.fault('several chunks', sum(p > 1.5 for p in pieces))
        res.note(names, [x[names[0]].shape for x in ref])

    def together(self, case, s_, jobs, guarded, errs):
        ts = []
        for job in jobs:
            g = guarded(*job)
            if case['threads_']:
                ts.append(s_.spawn(g, job[0]))
            else:
                g()
        for t in ts:
            s_.join(t)
        if errs:
            raise errs[0]


class Pieces(io.BytesIO):
    """a file whose reads return as much as they like"""

    def __init__(self, data, reads, res):
        super(Pieces, self).__init__(data)
        self._reads = reads
        self._i = 0
        self._res = res

    def read(self, n=-1):
        if self._reads and n is not None and n > 0:
            k = self._reads[self._i % len(self._reads)]
            self._i += 1
            if k and k < n:
                self._res.fault('short read')
                n = k
        return super(Pieces, self).read(n)


CHECK = C24()
