"""
C07: decoding an audio stream does not depend on how its bytes arrive
"""
import json

import numpy as np

from sim.runner import Check, Violation, sched_spec, simulate, one_line
from checks import audio
from checks.streams import same_array


class C07(Check):
    id = 'C07'
    runs = {'quick': 700, 'thorough': 12000}
    rule = (
        'a case is 1-3 sound files (format, encoding, rate, channels, length), '
        'the chunk size of the byte stream, how much each read of the source '
        'returns, the way of transport, and an interleaving of their decoding; '
        'non-trivial when some file arrived in more than one piece')
    real = ['zounds.soundfile.AudioStream', 'zounds.timeseries.AudioSamples',
            'featureflow.ByteStream, graph and storage', 'libsndfile']
    stub = ['source of bytes: file object or http response with short reads',
            'thread scheduling']
    assumptions = ['libsndfile decodes a complete file correctly',
                   'buffer limits scaled down from 10 MB in most runs']

    def generate(self, rng, tier):
        docs = []
        big = rng.random() < 0.012
        for _ in range(1 if big else rng.choice([1, 1, 2, 3])):
            fmt, sub = rng.choice(audio.FORMATS)
            rate = rng.choice(audio.RATES)
            ch = rng.choice([1, 1, 2, 2, 2, 3, 6])
            if 'ADPCM' in sub:
                ch = min(ch, 2)
            k = rng.random()
            if k < 0.1:
                n = rng.randint(1, 60)
            elif k < 0.8:
                n = rng.randint(500, 30000)
            else:
                n = rng.randint(30000, 8 * rate)
            if big:
                fmt, sub, ch, rate = 'WAV', 'FLOAT', 2, 96000
                n = 1600000 + rng.randint(0, 1000000)
            size = n * ch * (4 if big else 2) + 500
            docs.append({
                'fmt': fmt, 'sub': sub, 'rate': rate, 'ch': ch, 'n': n,
                'seed': rng.getrandbits(16),
                'chunk': rng.randint(2000000, 6000000) if big else
                audio.chunksize(rng, size),
                'reads': [] if big else audio.make_reads(rng, size),
                'http': rng.random() < 0.3})
        return {
            'ops': docs,
            'mono': rng.random() < 0.5,
            'max': None if big else rng.choice(
                [None, 3000, 20000, 100000]),
            'threads_': rng.random() < 0.3,
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for k, v in (('threads_', False), ('mono', False), ('max', None)):
            if case[k] != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})
        for i, d in enumerate(case['ops']):
            for k, v in (('reads', []), ('http', False), ('ch', 1),
                         ('n', d['n'] // 2 or 1), ('chunk', d['chunk'] * 2)):
                if d[k] != v and (k != 'chunk' or v < 10 ** 7):
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    yield c

    def execute(self, case, res):
        import inspect
        import featureflow as ff
        import zounds
        import requests
        import zounds.soundfile.audiostream as mod

        def model(chunk):
            @zounds.simple_in_memory_settings
            class Doc(ff.BaseModel):
                raw = ff.ByteStreamFeature(
                    ff.ByteStream, chunksize=chunk, store=False)
                pcm = zounds.AudioSamplesFeature(
                    zounds.AudioStream, sum_to_mono=case['mono'], needs=raw,
                    store=True)
            return Doc

        sources = {}

        class Response(object):
            def __init__(self, raw, n):
                self.raw = raw
                self.headers = {'Content-Length': str(n)}

            def raise_for_status(self):
                pass

        def get(url, stream=False, **kwargs):
            data, reads = sources[url]
            return Response(audio.SimFile(data, reads, res), len(data))

        def one(i, d):
            x = audio.signal(d['n'], d['ch'], d['seed'])
            data = audio.encode(x, d['rate'], d['fmt'], d['sub'])
            want, rate = audio.decode(data)
            if case['mono'] and want.ndim == 2:
                want = np.asarray(zounds.AudioSamples(
                    want, zounds.audio_sample_rate(rate)).mono)
            if d['chunk'] < len(data) or any(d['reads']):
                res.nontrivial = True
            if d['http']:
                url = 'http://example.com/%d' % i
                sources[url] = data, d['reads']
                src = url
            else:
                src = audio.SimFile(data, d['reads'], res)
            label = 'file %d (%s %s, %d Hz, %d channels)' % (
                i, d['fmt'], d['sub'], d['rate'], d['ch'])
            M = model(d['chunk'])
            try:
                got = M(M.process(raw=src)).pcm
            except Violation:
                raise
            except Exception as e:
                raise Violation('raised', '%s: %s' % (label, one_line(e)))
            # how often the source was asked for more
            res.probe('chunks', 1 + len(data) // d['chunk'])
            same_array(label, got, want, rtol=1e-12, atol=1e-13)
            if got.samplerate != zounds.audio_sample_rate(rate):
                raise Violation('rate', '%s: decoded as %r' % (
                    label, got.samplerate))
            res.note(label, got.shape, repr(round(
                float(np.abs(want).sum()), 4)))

        def main(s_):
            errs = []

            def run(i, d):
                def go():
                    try:
                        one(i, d)
                    except Exception as e:
                        errs.append(e)
                return go
            ts = []
            for i, d in enumerate(case['ops']):
                if case['threads_']:
                    ts.append(s_.spawn(run(i, d), 'file %d' % i))
                else:
                    run(i, d)()
            for t in ts:
                s_.join(t)
            if errs:
                raise errs[0]

        real_get = requests.get
        init = getattr(getattr(mod, 'MemoryBuffer', None), '__init__', get)
        defaults = init.__defaults__
        requests.get = get
        if case['max'] and list(inspect.signature(
                init).parameters)[-1] == 'max_size' and defaults:
            init.__defaults__ = (case['max'],)
        try:
            simulate(case, res, main, max_steps=4000000)
        finally:
            requests.get, init.__defaults__ = real_get, defaults


CHECK = C07()
