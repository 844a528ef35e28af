"""
C11: feature computation does not depend on chunking or arrival order
"""
import json

import numpy as np

from sim.runner import Check, Violation, sched_spec, simulate, one_line
from checks.streams import node_classes, make_cuts, split, same_array

SPECTRA = ['bark', 'chroma', 'bfcc', 'weighted', 'adaptive', 'flatness']
TIME = ['dct', 'dctiv', 'mdct']


LASTING = []


def forget():
    """windows remembered by default arguments outlive a run"""
    if not LASTING:
        import gc
        from zounds.spectral import WindowingFunc
        LASTING.append([
            (o, {k: v for k, v in o.__dict__.items() if isinstance(v, dict)})
            for o in gc.get_objects() if isinstance(o, WindowingFunc)])
    for o, caches in LASTING[0]:
        for c in caches.values():
            c.clear()


def array_of(x):
    return np.asarray(x)


def pool(name):
    f = getattr(np, name)

    def op(x, axis):
        x = np.asarray(x)
        # a segment can lie past the last frame there is
        return f(x, axis=axis) if len(x) else np.zeros(x.shape[1:])
    return op


class C11(Check):
    id = 'C11'
    runs = {'quick': 600, 'thorough': 10000}
    rule = (
        'a case is a graph of features over a signal, 1-2 signals with their '
        'divisions into chunks, stages between any two features that split, '
        'merge or hold back what passes (so that merged inputs arrive in '
        'either order), and an interleaving of the documents; non-trivial '
        'when the signal was divided or a stage re-divided it')
    real = ['the nodes of zounds.spectral, zounds.segment and zounds.basic',
            'featureflow graph and storage']
    stub = ['delivery of chunks', 'stages that re-divide and delay',
            'thread scheduling']
    assumptions = ['a feature computed from one piece is right where no '
                   'formula is written down here']

    def generate(self, rng, tier):
        w = rng.choice([16, 32, 64])
        feats = rng.sample(SPECTRA, rng.randint(1, 3))
        if rng.random() < 0.3:
            feats += [rng.choice(TIME)]
        if w < 64:
            feats = [f for f in feats if f != 'adaptive']
        docs = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.15:
                n = rng.randint(w, 4 * w)
            else:
                n = rng.randint(4 * w, 60 * w)
            docs.append({'n': n, 'seed': rng.getrandbits(16),
                         'cuts': make_cuts(rng, n, (w, w // 2))})
        return {
            'w': w, 'hop': rng.choice([1, 2, 2, 2, 4]),
            'ops': docs, 'feats': sorted(feats),
            'centroid': rng.random() < 0.4,
            'flux': rng.choice([None, False, True]),
            'mot': rng.random() < 0.5,
            'onsets': rng.random() < 0.6,
            'prep': rng.choice([3, 3, 4]),
            'span': rng.choice([11, 7, 5]), 'padwith': rng.choice([5, 3, 0]),
            'aggregate': rng.choice(['mean', 'median']),
            'pooled': rng.choice([None, 'max', 'mean']),
            'merge': rng.choice([None, None, 'equal', 'equal', 'longer',
                                 'three']),
            'basic': rng.choice([None, 'sum', 'max', 'slice', 'binarize']),
            'jitter': rng.choice([0, .3, .3, .6, 1]),
            'jseed': rng.getrandbits(20),
            'threads_': rng.random() < 0.3,
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for k, v in (('threads_', False), ('centroid', False), ('flux', None),
                     ('mot', False), ('onsets', False), ('pooled', None),
                     ('merge', None), ('basic', None), ('jitter', 0)):
            if case[k] != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})
        for f in case['feats']:
            yield dict(json.loads(json.dumps(case)),
                       feats=[x for x in case['feats'] if x != f])
        for i, d in enumerate(case['ops']):
            for j in range(len(d['cuts'])):
                c = json.loads(json.dumps(case))
                del c['ops'][i]['cuts'][j]
                yield c
            c = json.loads(json.dumps(case))
            c['ops'][i]['n'] = d['n'] * 3 // 4
            c['ops'][i]['cuts'] = [x for x in d['cuts']
                                   if x < c['ops'][i]['n']]
            if c['ops'][i]['n'] >= case['w']:
                yield c

    def build(self, case, jitter):
        """the document class, and what depends on what"""
        import random
        import featureflow as ff
        import zounds
        from zounds.timeseries import SampleRate, Stride
        from zounds.spectral import (
            BarkBands, SpectralCentroid, Chroma, BFCC, FFT, DCT, DCTIV, MDCT,
            SpectralFlatness, FrequencyWeighting, FrequencyAdaptiveTransform,
            SlidingWindow, FrequencyBand, AWeighting, LinearScale)
        from zounds.segment.onset import (
            ComplexDomain, MovingAveragePeakPicker, TimeSliceFeature, Flux,
            MeasureOfTransience)
        from zounds.basic.basic import Slice, Sum, Max, Pooled, Merge, Binarize
        Chunks, Raw, Jitter = node_classes()
        rng = random.Random(case['jseed'])
        sr = zounds.SR11025()
        w = case['w']
        wscheme = SampleRate(
            frequency=sr.frequency * (w // case['hop']),
            duration=sr.frequency * w)
        attrs = {}
        needs = {}

        def wrap(f):
            if not jitter or rng.random() >= case['jitter']:
                return f
            g = ff.Feature(
                Jitter, seed=rng.getrandbits(20), needs=f, store=False)
            attrs['stage%d' % len(attrs)] = g
            return g

        def add(name, feature, node, source, **kw):
            dep = [attrs[n] for n in source]
            dep = [wrap(f) for f in dep]
            attrs[name] = feature(
                node, needs=dep[0] if len(dep) == 1 else dep,
                store=True, **kw)
            needs[name] = source

        attrs['raw'] = ff.Feature(Raw, store=False)
        attrs['chunks'] = ff.Feature(Chunks, needs=attrs['raw'], store=False)
        A = zounds.ArrayWithUnitsFeature
        add('windowed', A, SlidingWindow, ['chunks'], wscheme=wscheme,
            wfunc=zounds.OggVorbisWindowingFunc())
        add('fft', A, FFT, ['windowed'])
        band = FrequencyBand(20, sr.nyquist)
        for f in case['feats']:
            if f == 'bark':
                add('bark', A, BarkBands, ['fft'], frequency_band=band,
                    n_bands=12)
            elif f == 'chroma':
                add('chroma', A, Chroma, ['fft'], frequency_band=band)
            elif f == 'bfcc':
                add('bfcc', A, BFCC, ['fft'], n_coeffs=5)
            elif f == 'weighted':
                add('weighted', A, FrequencyWeighting, ['fft'],
                    weighting=AWeighting())
            elif f == 'flatness':
                add('flatness', A, SpectralFlatness, ['fft'])
            elif f == 'adaptive':
                add('adaptive', zounds.FrequencyAdaptiveFeature,
                    FrequencyAdaptiveTransform, ['fft'],
                    transform=np.fft.irfft, window_func=np.hanning,
                    scale=zounds.GeometricScale(
                        700, 4000, 1., 6, always_even=True))
            elif f == 'dct':
                add('dct', A, DCT, ['windowed'])
            elif f == 'dctiv':
                add('dctiv', A, DCTIV, ['windowed'])
            elif f == 'mdct':
                add('mdct', A, MDCT, ['windowed'])
        series = [f for f in ('bark', 'chroma', 'bfcc') if f in attrs]
        if case['centroid'] and series:
            add('centroid', A, SpectralCentroid, [series[0]])
        if case['flux'] is not None and series:
            add('flux', A, Flux, [series[-1]], unit_norm=case['flux'])
        if case['mot']:
            add('mot', A, MeasureOfTransience, ['fft'])
        if case['onsets']:
            add('prep', A, SlidingWindow, ['fft'],
                wscheme=wscheme * Stride(frequency=1, duration=case['prep']))
            add('detect', A, ComplexDomain, ['prep'])
            add('sliding', A, SlidingWindow, ['detect'],
                wscheme=wscheme * Stride(frequency=1, duration=case['span']),
                padwith=case['padwith'])
            add('slices', TimeSliceFeature, MovingAveragePeakPicker,
                ['sliding'], aggregate=getattr(np, case['aggregate']))
            if case['pooled'] and series:
                add('pooled', zounds.VariableRateTimeSeriesFeature, Pooled,
                    ['slices', series[0]],
                    op=pool(case['pooled']), axis=0)
        if case['merge'] and 'bfcc' in attrs:
            add('bfcc3', A, BFCC, ['fft'], n_coeffs=3)
            parts = ['bfcc', 'bfcc3']
            if case['merge'] != 'equal':
                # has a few more frames than the others
                add('padded', A, SlidingWindow, ['chunks'], wscheme=wscheme,
                    wfunc=zounds.OggVorbisWindowingFunc(),
                    padwith=w * (1 + case['padwith']))
                add('fftp', A, FFT, ['padded'])
                add('bfccp', A, BFCC, ['fftp'], n_coeffs=4)
                if case['merge'] == 'longer':
                    parts.pop()
                parts.insert(case['padwith'] % 2, 'bfccp')
            add('merged', A, Merge, parts)
        if case['basic'] and series:
            b = {'sum': (Sum, {'axis': 1}), 'max': (Max, {'axis': 1}),
                 'slice': (Slice, {'sl': slice(1, 4)}),
                 'binarize': (Binarize, {'predicate': lambda x: x > 1})}
            add('basic', A, b[case['basic']][0], [series[-1]],
                **b[case['basic']][1])
        cls = type('Doc', (ff.BaseModel,), attrs)
        return zounds.simple_in_memory_settings(cls), needs

    def execute(self, case, res):
        import zounds
        from zounds.nputil import safe_unit_norm
        from zounds.timeseries import AudioSamples, Picoseconds
        forget()
        sr = zounds.SR11025()
        w = case['w']
        Doc, needs = self.build(case, True)
        Whole, _ = self.build(case, False)

        def signal(d):
            rng = np.random.RandomState(d['seed'])
            t = np.arange(d['n'])
            x = .05 * rng.normal(0, 1, d['n'])
            for _ in range(rng.randint(1, 6)):
                a = rng.randint(0, d['n'])
                e = np.exp(-np.arange(d['n'] - a) / (3. * w))
                x[a:] += e * np.sin(t[a:] * rng.uniform(.05, 2.5))
            if rng.rand() < .3:
                a = rng.randint(0, d['n'])
                x[a: a + 5 * w] = 0
            return AudioSamples(x, sr)

        def formula(name, doc):
            """what a stage should make of what the one before it made"""
            src = getattr(doc, needs[name][0], None) \
                if needs[name][0] != 'chunks' else None
            x = None if src is None else array_of(src)
            if name in ('fft', 'fftp'):
                return np.fft.rfft(x, norm='ortho')
            if name in ('bfcc', 'bfcc3', 'bfccp'):
                k = {'bfcc': 6, 'bfcc3': 4, 'bfccp': 5}[name]
                from scipy.fftpack import dct
                from zounds.nputil import safe_log
                return dct(safe_log(np.abs(x)), axis=1)[:, 1: k]
            if name == 'dct':
                from scipy.fftpack import dct
                return dct(x, norm='ortho')
            if name == 'flatness':
                m = np.abs(x)
                g = np.exp(np.mean(np.log(m), axis=1))
                mean = m.mean(axis=1)
                mean[mean == 0] = -1e5
                return g / mean
            if name == 'centroid':
                b = np.arange(1, x.shape[1] + 1)
                return (np.abs(x) * b).sum(axis=1) / b.sum()
            if name == 'flux':
                if case['flux']:
                    x = safe_unit_norm(x)
                return np.linalg.norm(
                    np.diff(np.vstack((x[:1], x)), axis=0), axis=-1)
            if name == 'mot':
                m = np.abs(x)
                m = np.vstack((m[:1], m))[:, 2:] ** 2
                b = np.arange(1, x.shape[1] + 1)[2:]
                energy, hfc = m.sum(axis=1), (m * b).sum(axis=1)
                energy[energy == 0] = 1e-12
                hfc[hfc == 0] = 1e-12
                return hfc[1:] / hfc[:-1] * (hfc[1:] / energy[1:])
            if name == 'detect':
                a = np.unwrap(np.angle(x), axis=1)
                a = np.angle(a[:, 2] - 2 * a[:, 1] + a[:, 0])
                e, c = np.abs(x[:, 1]), np.abs(x[:, 2])
                d = np.sqrt(np.maximum(
                    0, e ** 2 + c ** 2 - 2 * e * c * np.cos(a)))
                return np.where(a == 0, e - c, d).sum(axis=1)
            if name == 'merged':
                parts = [array_of(getattr(doc, n)) for n in needs[name]]
                m = min(len(p) for p in parts)
                return np.concatenate([p[:m] for p in parts], axis=1)
            if name == 'basic':
                return {'sum': lambda: x.sum(axis=1),
                        'max': lambda: x.max(axis=1),
                        'slice': lambda: x[:, 1:4],
                        'binarize': lambda: x > 1}[case['basic']]()
            return None

        def segments(label, doc):
            sl = list(doc.slices.slices)
            s = doc.sliding
            freq = s.dimensions[0].frequency
            end = freq * len(s)
            pos = Picoseconds(0)
            for t in sl:
                if t.start != pos:
                    raise Violation(
                        'tiling', '%s: a segment starts at %s, the one before '
                        'ends at %s' % (label, t.start, pos))
                pos = t.start + t.duration
            if pos != end:
                raise Violation(
                    'tiling', '%s: the segments end at %s of %s' % (
                        label, pos, end))
            x = array_of(s)
            c = x.shape[1] // 2
            agg = getattr(np, case['aggregate'])(x, axis=1) * 1.25
            peak = (x[:, c - 1] > x[:, c - 2]) & (x[:, c] < x[:, c - 1]) & \
                (x[:, c] > agg)
            want = [0] + [int(i) for i in np.where(peak)[0]]
            got = [int(round(t.start / freq)) for t in sl]
            if got != want:
                raise Violation('segments', '%s: segments start at windows %s, '
                                'expected %s' % (label, got, want))

        def pooled(label, doc, arr):
            op = pool(case['pooled'])
            sl = list(doc.slices.slices)
            p = doc.pooled
            if [(t.start, t.duration) for t in p.slices] != [
                    (t.start, t.duration) for t in sl]:
                raise Violation('pooled', '%s: pooled over other segments'
                                % label)
            for i, t in enumerate(sl):
                ex = array_of(arr[t])
                if len(ex):
                    same_array('%s: pooled segment %d' % (label, i),
                               p.slicedata[i], op(ex, axis=0),
                               rtol=1e-5, atol=1e-6)

        def one(i, d):
            x = signal(d)
            label = 'signal %d' % i
            chunks = split(x, d['cuts'])
            doc = Doc(Doc.process(raw=chunks))
            ref = Whole(Whole.process(raw=[x]))
            for name in needs:
                tag = '%s %s' % (label, name)
                if name in ('slices', 'pooled'):
                    continue
                a, b = getattr(doc, name), getattr(ref, name)
                same_array(tag, a, b, rtol=1e-5, atol=1e-7)
                if type(a) is not type(b):
                    raise Violation('type', '%s is a %s, expected %s' % (
                        tag, type(a).__name__, type(b).__name__))
                da, db = a.dimensions, b.dimensions
                if len(da) != len(db) or any(
                        type(p) is not type(q) for p, q in zip(da, db)):
                    raise Violation('dimensions', '%s has %r, expected %r' % (
                        tag, da, db))
                if (da[0].frequency, da[0].duration) != (
                        db[0].frequency, db[0].duration):
                    raise Violation('time-base', '%s has %r, expected %r' % (
                        tag, da[0], db[0]))
                want = formula(name, doc)
                if want is not None:
                    same_array(tag + ' by its formula', a, want, rtol=1e-5,
                               atol=1e-7)
                res.note(tag, array_of(a).shape)
            if 'slices' in needs:
                segments(label, doc)
                u = [(t.start, t.duration) for t in doc.slices.slices]
                v = [(t.start, t.duration) for t in ref.slices.slices]
                if u != v:
                    raise Violation('segments', '%s: %d segments, expected %d'
                                    % (label, len(u), len(v)))
                res.probe('segments', len(u))
            if 'pooled' in needs:
                pooled(label, doc, getattr(doc, needs['pooled'][1]))

        def main(s_):
            errs = []

            def run(i, d):
                def go():
                    try:
                        one(i, d)
                    except Violation as e:
                        errs.append(e)
                    except Exception as e:
                        errs.append(Violation('raised', 'signal %d: %s' % (
                            i, one_line(e))))
                return go
            ts = []
            for i, d in enumerate(case['ops']):
                if case['threads_']:
                    ts.append(s_.spawn(run(i, d), 'signal %d' % i))
                else:
                    run(i, d)()
            for t in ts:
                s_.join(t)
            if errs:
                raise errs[0]

        simulate(case, res, main, max_steps=4000000)
        res.nontrivial = any(d['cuts'] for d in case['ops']) or \
            case['jitter'] > 0
        if case['jitter']:
            res.fault('re-divided or delayed stage')
        res.fault('divided delivery', sum(len(d['cuts']) > 0
                                          for d in case['ops']))


CHECK = C11()
