"""
C08: stored audio decodes to the same samples at any point, in any order
"""
import io
import json

import numpy as np

from sim.runner import Check, Violation, sched_spec, simulate, one_line
from checks import audio
from checks.streams import same_array


class C08(Check):
    id = 'C08'
    runs = {'quick': 450, 'thorough': 8000}
    rule = (
        'a case is a sound file (format, rate, channels, length), the way its '
        'bytes arrive, and 1-3 threads of slice reads, full reads and chunk '
        'iterations over one or two handles, with their interleaving; '
        'non-trivial when there are at least two reads')
    real = ['zounds.soundfile.OggVorbis and OggVorbisWrapper',
            'featureflow.ByteStream, graph and storage', 'libsndfile']
    stub = ['source of bytes with short reads', 'thread scheduling']
    assumptions = ['libsndfile decodes a complete file correctly and encodes '
                   'Vorbis within 0.12 of itself']

    def generate(self, rng, tier):
        long = rng.random() < 0.02
        if long:
            # only at high rates does the second's length not divide evenly
            doc = {'fmt': 'WAV', 'sub': 'PCM_U8', 'rate': 96000, 'ch': 1,
                   'n': 96000 * rng.randint(160, 190) + rng.randint(0, 96000),
                   'direct': True}
        else:
            fmt, sub = rng.choice(audio.FORMATS)
            rate = rng.choice([11025, 11025, 16000, 22050, 44100, 48000])
            k = rng.random()
            if k < 0.1:
                n = rng.randint(1, 400)
            elif k < 0.6:
                n = rng.randint(500, 40000)
            elif k < 0.66:
                # more encoded data than fits into one buffer anywhere
                rate = rng.choice([44100, 48000, 96000])
                n = rate * rng.randint(8, 24) + rng.randint(0, rate)
            elif k < 0.8:
                n = rate * rng.randint(1, 3) + rng.choice([-1, 0, 0, 1])
            else:
                n = rng.randint(30000, 90000)
            doc = {'fmt': fmt, 'sub': sub, 'rate': rate,
                   'ch': rng.choice([1, 1, 1, 2, 2, 3, 5]), 'n': n, 'direct': False}
        size = doc['n'] * doc['ch'] * 2 + 500
        if 'ADPCM' in doc['sub']:
            doc['ch'] = min(doc['ch'], 2)
        doc['seed'] = rng.getrandbits(16)
        doc['chunk'] = audio.chunksize(rng, size)
        doc['reads'] = audio.make_reads(rng, size)
        if doc['n'] > 300000 and not long:
            doc['chunk'] = max(doc['chunk'], size // 12)
            doc['reads'] = []
            long = True
        secs = doc['n'] / doc['rate']
        threads = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 2 if long else 6)):
                h = rng.choice([0, 0, 0, 1])
                k = rng.random()
                if k < 0.1:
                    ops.append(['all', h])
                elif k < (0.9 if long else 0.25):
                    ops.append(['iter', h])
                elif k < 0.35:
                    ops.append(['info', h])
                else:
                    start = rng.choice([0, rng.uniform(0, secs),
                                        rng.uniform(0, secs),
                                        max(0, secs - rng.random() * .1)])
                    dur = rng.choice([None, rng.uniform(0, secs / 2),
                                      rng.uniform(0, secs), .01,
                                      secs + rng.random()])
                    ops.append(['ts', h, int(start * 1e6), None if dur is None
                                else max(1, int(dur * 1e6))])
            threads.append(ops)
        return {'doc': doc, 'threads': threads,
                'max': rng.choice([None, 3000, 20000, 100000]),
                'sched': sched_spec(rng)}

    def shrink(self, case):
        d = case['doc']
        for k, v in (('reads', []), ('ch', 1), ('n', d['n'] // 2 or 1),
                     ('chunk', d['chunk'] * 2)):
            if d[k] != v and (k != 'chunk' or v < 10 ** 7):
                c = json.loads(json.dumps(case))
                c['doc'][k] = v
                yield c

    def execute(self, case, res):
        import inspect
        import featureflow as ff
        import zounds
        from zounds.timeseries import TimeSlice, Picoseconds, Microseconds
        import zounds.soundfile.audiostream as mod
        d = case['doc']
        x = audio.signal(d['n'], d['ch'], d['seed'], smooth=True)
        data = audio.encode(x, d['rate'], d['fmt'], d['sub'])
        source, rate = audio.decode(data)
        sr = zounds.audio_sample_rate(rate)
        freq = sr.frequency
        res.nontrivial = sum(len(t) for t in case['threads']) > 1

        @zounds.simple_in_memory_settings
        class Doc(ff.BaseModel):
            raw = ff.ByteStreamFeature(
                ff.ByteStream, chunksize=d['chunk'], store=False)
            ogg = zounds.OggVorbisFeature(
                zounds.OggVorbis, needs=raw, store=True)

        def check_stored(stored):
            if d['fmt'] == 'OGG':
                if stored != data:
                    raise Violation(
                        'bytes', 'an ogg file of %d bytes was stored as %d '
                        'different bytes' % (len(data), len(stored)))
                return source
            whole, r = audio.decode(stored)
            if r != rate:
                raise Violation('rate', 'stored at %d Hz, not %d' % (r, rate))
            want, _ = audio.decode(audio.encode(source, rate, 'OGG', 'VORBIS'))
            same_array('the stored audio', whole, want, rtol=0, atol=.12)
            return whole

        def main(s_):
            if d['direct']:
                whole = source
                handles = [zounds.soundfile.ogg_vorbis.OggVorbisWrapper(
                    io.BytesIO(data)) for _ in range(2)]
            else:
                src = audio.SimFile(data, d['reads'], res)
                try:
                    _id = Doc.process(raw=src)
                except Exception as e:
                    raise Violation('raised', 'storing %s %s: %s' % (
                        d['fmt'], d['sub'], one_line(e)))
                stream = Doc.database.read_stream(Doc.key_builder.build(
                    _id, 'ogg', Doc.ogg.version))
                whole = check_stored(stream.read())
                handles = [Doc(_id).ogg, Doc(_id).ogg]
            full = zounds.AudioSamples(whole, sr)

            def compare(label, got, want):
                if got.samplerate != sr:
                    raise Violation('rate', '%s: at %r' % (
                        label, got.samplerate))
                same_array(label, got, want, rtol=0, atol=1e-6)

            def op(t, i, o):
                label = 'thread %d read %d (%s)' % (
                    t, i, ' '.join(str(v) for v in o))
                h = handles[o[1]]
                if o[0] == 'all':
                    compare(label, h[:], full)
                elif o[0] == 'info':
                    if (h.samplerate, h.channels) != (
                            rate, 1 if whole.ndim == 1 else whole.shape[1]) \
                            or abs(h.duration_seconds -
                                   len(whole) / rate) > 1e-6:
                        raise Violation('info', '%s: %s Hz, %s channels, %s s'
                                        % (label, h.samplerate, h.channels,
                                           h.duration_seconds))
                elif o[0] == 'iter':
                    parts = [np.asarray(c) for c in h.iter_chunks()]
                    res.probe('chunks iterated', len(parts))
                    compare(label, zounds.AudioSamples(
                        np.concatenate(parts), sr), full)
                else:
                    start = Picoseconds(1) * (o[2] * 10 ** 6)
                    if o[3] is None:
                        ts = TimeSlice(start=start)
                        stop = len(whole)
                    else:
                        ts = TimeSlice(
                            start=start,
                            duration=Picoseconds(1) * (o[3] * 10 ** 6))
                        stop = None
                    a = int(start / freq)
                    if a > len(whole):
                        return
                    if stop is None:
                        stop = a + int(ts.duration / freq)
                    compare(label, h[ts], full[a: stop])
                res.note(label, 'ok')

            errs = []

            def run(t, ops):
                def go():
                    try:
                        for i, o in enumerate(ops):
                            try:
                                op(t, i, o)
                            except Violation:
                                raise
                            except Exception as e:
                                raise Violation(
                                    'raised', 'thread %d read %d (%s): %s' % (
                                        t, i, o, one_line(e)))
                    except Violation as e:
                        errs.append(e)
                return go

            ts = [s_.spawn(run(t, ops), 'reader %d' % t)
                  for t, ops in enumerate(case['threads'])]
            for t in ts:
                s_.join(t)
            if errs:
                raise errs[0]

        init = mod.MemoryBuffer.__init__
        defaults = init.__defaults__
        if case['max'] and list(inspect.signature(
                init).parameters)[-1] == 'max_size':
            init.__defaults__ = (case['max'],)
        try:
            simulate(case, res, main, max_steps=4000000)
        finally:
            init.__defaults__ = defaults


CHECK = C08()
