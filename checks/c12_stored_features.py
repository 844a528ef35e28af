"""
C12: stored features decode to what was computed
"""
import json
import os
import random

import numpy as np

from sim.runner import Check, Violation, sched_spec, simulate, one_line, \
    scratch
from checks.streams import node_classes, make_cuts
from checks.store import Disk, make_database

KINDS = ['array', 'array', 'array', 'packed', 'audio', 'adaptive', 'events']
DTYPES = ['f4', 'f8', 'c8', 'c16', 'i2', 'i8', 'u1', '?', 'f2', '>f4']
SCALES = ['linear', 'even', 'geometric', 'bark', 'mel', 'chroma', 'explicit',
          'sliced']
RATES = ['SR11025', 'SR22050', 'SR44100', 'SR48000', 'SR96000']


def make_scale(d):
    import zounds
    from zounds.spectral import (
        LinearScale, GeometricScale, BarkScale, MelScale, ChromaScale,
        ExplicitScale, FrequencyBand)
    rng = random.Random(d['seed'])
    k = d['scale']
    n = d['size']
    lo = rng.uniform(20, 300)
    hi = rng.uniform(2000, 20000)
    band = FrequencyBand(lo, hi)
    if k == 'linear':
        return LinearScale(band, n)
    if k == 'even':
        return LinearScale(band, n, always_even=True)
    if k == 'geometric':
        return GeometricScale(
            lo, hi, rng.uniform(.01, .5), n, always_even=rng.random() < .5)
    if k == 'bark':
        return BarkScale(band, n)
    if k == 'mel':
        return MelScale(band, n)
    if k == 'chroma':
        return ChromaScale(band)
    if k == 'sliced':
        return LinearScale(band, n + 7)[3: 3 + n]
    starts = sorted(rng.uniform(20, 8000) for _ in range(n))
    return ExplicitScale(
        [FrequencyBand(s, s + rng.uniform(1, 900)) for s in starts])


def make_dim(d):
    from zounds.core import IdentityDimension
    from zounds.timeseries import TimeDimension, Picoseconds
    from zounds.spectral import FrequencyDimension, \
        ExplicitFrequencyDimension
    if d['dim'] == 'identity':
        return IdentityDimension()
    if d['dim'] == 'time':
        dur = None if d['duration'] is None else \
            np.timedelta64(d['duration'], d['unit'])
        return TimeDimension(np.timedelta64(d['frequency'], d['unit']), dur)
    if d['dim'] == 'frequency':
        return FrequencyDimension(make_scale(d))
    scale = make_scale(d)
    edges = [0] + list(np.cumsum(d['widths']))
    return ExplicitFrequencyDimension(
        scale, [slice(int(a), int(b)) for a, b in zip(edges, edges[1:])])


def gen_time(rng, unit=None):
    unit = unit or rng.choice(['s', 'ms', 'us', 'ps', 'ps', 'ps', 'ns'])
    f = {'s': rng.randint(1, 3), 'ms': rng.randint(1, 900),
         'us': rng.randint(1, 90000), 'ns': rng.randint(1000, 10 ** 8),
         'ps': rng.randint(10 ** 6, 10 ** 11)}[unit]
    dur = rng.choice([None, f, 2 * f, f + rng.randint(1, f + 1)])
    return {'dim': 'time', 'unit': unit, 'frequency': f, 'duration': dur}


def gen_freq(rng, size=None, bands=False):
    # the bands of a chroma scale are not defined
    k = rng.choice([x for x in SCALES if not bands or x != 'chroma'])
    n = 12 if k == 'chroma' else (size or rng.randint(2, 20))
    return {'dim': 'frequency', 'scale': k, 'size': n,
            'seed': rng.getrandbits(20)}


def dim_size(d, rng):
    if d['dim'] == 'frequency':
        return d['size']
    if d['dim'] == 'explicit':
        return sum(d['widths'])
    return rng.randint(1, 9)


def bands(s):
    from zounds.spectral import ChromaScale
    if isinstance(s, ChromaScale) or len(s) < 2:
        # bands that are not defined
        return s.frequency_band.start_hz, s.frequency_band.stop_hz, s.n_bands
    return [(t.start_hz, t.stop_hz) for t in s]


def usual(s):
    from zounds.spectral import ChromaScale, FrequencyBand
    if isinstance(s, ChromaScale):
        return [FrequencyBand(100, 1000)]
    return list(s)


def check_dim(label, i, a, b):
    if type(a) is not type(b):
        raise Violation('dimensions', '%s: dimension %d is a %s, expected %s'
                        % (label, i, type(a).__name__, type(b).__name__))
    if hasattr(b, 'frequency'):
        x = (a.frequency, a.duration, a.size)
        y = (b.frequency, b.duration, b.size)
        if x != y:
            raise Violation('time-base', '%s: dimension %d is %s, expected %s'
                            % (label, i, x, y))
    if hasattr(b, 'scale'):
        x, y = bands(a.scale), bands(b.scale)
        if type(a.scale) is not type(b.scale) or x != y or \
                a.scale.always_even != b.scale.always_even:
            raise Violation('frequency-base', '%s: dimension %d is %s, '
                            'expected %s' % (label, i, a.scale, b.scale))
    if hasattr(b, 'slices') and list(a.slices) != list(b.slices):
        raise Violation('frequency-base', '%s: dimension %d has slices %s, '
                        'expected %s' % (label, i, a.slices, b.slices))


def check_array(label, a, b):
    if type(a) is not type(b):
        raise Violation('type', '%s is a %s, expected %s' % (
            label, type(a).__name__, type(b).__name__))
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype != y.dtype:
        raise Violation('shape', '%s is %s %s, expected %s %s' % (
            label, x.dtype, x.shape, y.dtype, y.shape))
    if x.tobytes() != y.tobytes():
        raise Violation('values', '%s has other values' % label)
    if hasattr(b, 'dimensions'):
        if len(a.dimensions) != len(b.dimensions):
            raise Violation('dimensions', '%s has %d dimensions, not %d' % (
                label, len(a.dimensions), len(b.dimensions)))
        for i, (p, q) in enumerate(zip(a.dimensions, b.dimensions)):
            check_dim(label, i, p, q)


def check_events(label, a, b):
    if type(a) is not type(b):
        raise Violation('type', '%s is a %s' % (label, type(a).__name__))
    x = [(t.start, t.duration) for t in a.slices]
    y = [(t.start, t.duration) for t in b.slices]
    if x != y:
        raise Violation('events', '%s has slices %s, expected %s' % (
            label, x[:4], y[:4]))
    p, q = np.asarray(a.slicedata), np.asarray(b.slicedata)
    if p.dtype != q.dtype or p.shape != q.shape or \
            p.tobytes() != q.tobytes():
        raise Violation('values', '%s has other data' % label)


class Events(object):
    """what is to be known about events, as plain as it gets"""

    def __init__(self, ev):
        self.ev = sorted(ev, key=lambda e: (e[0].start / UNIT,
                                            e[0].duration / UNIT))

    def check(self, label, got, index=None):
        want = self.ev
        if index is not None:
            want = [(t, x) for t, x in want
                    if t.start + t.duration > index.start
                    and t.start < index.start + index.duration]
        a = sorted((t.start / UNIT, t.duration / UNIT, np.asarray(x).tobytes())
                   for t, x in zip(got.slices, got.slicedata))
        b = sorted((t.start / UNIT, t.duration / UNIT, np.asarray(x).tobytes())
                   for t, x in want)
        if a != b:
            raise Violation('events', '%s has %d events, expected %d%s' % (
                label, len(a), len(b),
                ' others' if len(a) == len(b) else ''))
        starts = [t.start / UNIT for t in got.slices]
        if starts != sorted(starts):
            raise Violation('events', '%s is out of order' % label)


UNIT = np.timedelta64(1, 'ps')


class C12(Check):
    id = 'C12'
    runs = {'quick': 900, 'thorough': 20000}
    rule = (
        'a case is up to three documents, each with a feature of some type, '
        'its dimensions, its division into chunks and the way storage cuts '
        'its bytes when they are read, and an interleaving of writers and '
        'readers; non-trivial when a feature is divided')
    real = ['zounds.persistence', 'zounds.timeseries.variablerate',
            'zounds.core', 'featureflow graph, encoders and writers']
    stub = ['document store (in part of the runs)', 'delivery of chunks',
            'thread scheduling', 'process restart (nothing but the stored '
            'bytes is kept)']
    assumptions = ['slice times of events stay below 2.5 hours, within which '
                   'the encoder\'s division is exact',
                   'the first chunk of events is not empty']

    def generate(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(KINDS)
            n = rng.choice([0, 1, 2]) if rng.random() < .1 \
                else rng.randint(1, 40)
            d = {'kind': kind, 'n': n, 'seed': rng.getrandbits(20),
                 'dtype': rng.choice(DTYPES),
                 'layout': rng.choice(['C', 'C', 'F', 'strided', 'back'])}
            if kind in ('array', 'packed'):
                nd = rng.choice([1, 2, 2, 3] if kind == 'array' else [2, 3])
                dims = []
                for i in range(nd):
                    k = rng.random()
                    if i == 0:
                        dim = gen_time(rng) if k < .7 else \
                            {'dim': 'identity'}
                    elif kind == 'packed' and i == nd - 1:
                        dim = {'dim': 'identity'}
                    elif k < .35:
                        dim = gen_freq(rng)
                    elif k < .5:
                        dim = gen_time(rng)
                    elif k < .7:
                        f = gen_freq(rng, bands=True)
                        f.update(dim='explicit', widths=[
                            rng.randint(1, 5) for _ in range(f['size'])])
                        dim = f
                    else:
                        dim = {'dim': 'identity'}
                    dims.append(dim)
                d['dims'] = dims
                d['shape'] = [dim_size(x, rng) for x in dims[1:]]
            elif kind == 'audio':
                d['rate'] = rng.choice(RATES)
                d['stereo'] = rng.random() < .3
                d['dtype'] = rng.choice(['f4', 'f8', 'i2'])
                d['n'] = max(n, 1)
            elif kind == 'adaptive':
                f = gen_freq(rng, bands=True)
                f['widths'] = [rng.randint(1, 6) for _ in range(f['size'])]
                d['freq'] = f
                d['time'] = gen_time(rng)
                d['dtype'] = rng.choice(['f4', 'f8', 'c16'])
            else:
                d['n'] = max(n, 1)
                d['shape'] = [rng.randint(0, 5)
                              for _ in range(rng.choice([0, 1, 1, 2]))]
                d['dtype'] = rng.choice(['f4', 'f8', 'u1', 'i8'])
            d['cuts'] = make_cuts(rng, d['n'])
            d['empties'] = [rng.randint(1, len(d['cuts']) + 1)
                            for _ in range(rng.choice([0, 0, 0, 1]))]
            ops.append(d)
        return {'ops': ops,
                'store': rng.choice(['sim', 'sim', 'sim', 'memory', 'files']),
                'sseed': rng.getrandbits(20),
                'restart': rng.random() < .6,
                'threads_': rng.random() < .4,
                'readers': rng.choice([1, 1, 2, 3]),
                'sched': sched_spec(rng)}

    def shrink(self, case):
        for k, v in (('threads_', False), ('readers', 1), ('restart', False),
                     ('store', 'memory')):
            if case[k] != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})
        for i, d in enumerate(case['ops']):
            for j in range(len(d['cuts'])):
                c = json.loads(json.dumps(case))
                del c['ops'][i]['cuts'][j]
                c['ops'][i]['empties'] = []
                yield c
            if d['n'] > 1:
                c = json.loads(json.dumps(case))
                c['ops'][i]['n'] = d['n'] // 2
                c['ops'][i]['cuts'] = [x for x in d['cuts']
                                       if x < d['n'] // 2]
                c['ops'][i]['empties'] = []
                yield c

    def execute(self, case, res):
        import featureflow as ff
        import zounds
        from zounds.core import ArrayWithUnits
        from zounds.persistence import PackedArrayWithUnitsFeature
        from zounds.spectral import FrequencyAdaptive, FrequencyBand
        from zounds.timeseries import AudioSamples, TimeSlice, Picoseconds, \
            VariableRateTimeSeries
        Chunks, Raw, Jitter = node_classes()

        class Twice(ff.Node):
            def _process(self, data):
                if isinstance(data, ArrayWithUnits):
                    yield ArrayWithUnits(
                        np.asarray(data)[..., ::-1] * 2, data.dimensions)
                else:
                    yield data

        # -- what is computed

        def values(d, shape, rng):
            x = rng.normal(0, 100, (d['n'],) + tuple(shape))
            if d['dtype'] == '?':
                return x > 0
            if np.dtype(d['dtype']).kind == 'c':
                x = x + 1j * rng.normal(0, 1, x.shape)
            if np.dtype(d['dtype']).kind == 'u':
                x = np.abs(x)
            return x.astype(d['dtype'])

        def laid_out(x, layout):
            """the same values, lying elsewhere in memory"""
            if layout == 'F':
                return np.asfortranarray(x)
            if layout == 'strided':
                y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
                y[..., ::2] = x
                return y[..., ::2]
            if layout == 'back':
                return x[::-1].copy()[::-1]
            return x

        def whole(d):
            """the feature, and how to take rows a:b of it while computing"""
            rng = np.random.RandomState(d['seed'])
            if d['kind'] in ('array', 'packed'):
                if d['kind'] == 'packed':
                    x = rng.randint(0, 2, [d['n']] + d['shape']).astype(
                        '?' if d['dtype'] == '?' else 'f4')
                else:
                    x = values(d, d['shape'], rng)
                x = laid_out(x, d['layout'])
                dims = [make_dim(v) for v in d['dims']]
                return ArrayWithUnits(x, dims), \
                    lambda a, b: ArrayWithUnits(x[a: b], dims)
            if d['kind'] == 'audio':
                x = values(d, [2] if d['stereo'] else [], rng)
                sr = getattr(zounds, d['rate'])()
                return AudioSamples(x, sr), \
                    lambda a, b: AudioSamples(x[a: b], sr)
            if d['kind'] == 'adaptive':
                scale = make_scale(d['freq'])
                arrs = [values(d, [w], rng) for w in d['freq']['widths']]
                td = make_dim(d['time'])
                return FrequencyAdaptive(arrs, td, scale), \
                    lambda a, b: FrequencyAdaptive(
                        [y[a: b] for y in arrs], td, scale)
            x = values(d, d['shape'], rng)
            starts = np.sort(rng.randint(0, 10 ** 15, d['n']))
            lengths = [int(v) for v in rng.randint(0, 10 ** 13, d['n'])]
            if d['layout'] == 'back':
                # some of them happen at the very same time
                starts = starts // 10 ** 14 * 10 ** 14
                lengths = [10 ** 12] * d['n']
            ev = [(TimeSlice(
                start=Picoseconds(int(s)),
                duration=Picoseconds(lengths[i])), x[i])
                for i, s in enumerate(starts)]
            v = VariableRateTimeSeries(ev)
            v.events = Events(ev)
            return v, \
                lambda a, b: VariableRateTimeSeries(ev[a: b])

        def chunks(d, part):
            edges = [0] + [c for c in d['cuts'] if 0 < c < d['n']] + [d['n']]
            out = [part(a, b) for a, b in zip(edges, edges[1:])]
            for e in d['empties']:
                if d['kind'] != 'events' and e <= len(out):
                    out.insert(e, part(0, 0))
            return out

        def model(d):
            F = {'array': zounds.ArrayWithUnitsFeature,
                 'packed': PackedArrayWithUnitsFeature,
                 'audio': zounds.AudioSamplesFeature,
                 'adaptive': zounds.FrequencyAdaptiveFeature,
                 'events': zounds.VariableRateTimeSeriesFeature}[d['kind']]
            raw = ff.Feature(Raw, store=False)
            stored = F(Chunks, needs=raw, store=True)
            twice = (zounds.VariableRateTimeSeriesFeature
                     if d['kind'] == 'events' else
                     zounds.ArrayWithUnitsFeature)(
                         Twice, needs=stored, store=False)
            return type('Doc', (ff.BaseModel,), {
                'raw': raw, 'stored': stored, 'twice': twice})

        kb = ff.StringDelimitedKeyBuilder()
        ids = ff.UuidProvider()
        disk = Disk()
        path = scratch('store')
        memory = {}

        def bind(d, doc):
            if case['store'] == 'sim':
                db = make_database(disk, kb, '%s/%s' % (case['sseed'], doc))
            elif case['store'] == 'files':
                db = ff.FileSystemDatabase(path, kb, createdirs=True)
            else:
                db = ff.InMemoryDatabase(kb)
                db._dict = memory
            return type('Stored', (model(d), ff.PersistenceSettings), {
                'id_provider': ids, 'key_builder': kb, 'database': db})

        # -- comparing

        def compare(label, d, got, ref):
            if d['kind'] == 'events':
                check_events(label, got, ref)
                return
            check_array(label, got, ref)

        def attempt(f):
            try:
                return f(), None
            except Exception as e:
                return None, e

        def compare_slices(label, d, got, ref, rng):
            for _ in range(4):
                n = d['n']
                if d['kind'] == 'events':
                    index = TimeSlice(
                        start=Picoseconds(rng.randint(0, 10 ** 15)),
                        duration=Picoseconds(rng.randint(1, 10 ** 14)))
                    if n and rng.random() < .5:
                        # beginning or ending with an event
                        t = ref.events.ev[rng.randrange(n)][0]
                        index = rng.choice([
                            TimeSlice(start=t.start, duration=t.duration +
                                      Picoseconds(1)),
                            TimeSlice(start=t.start + t.duration,
                                      duration=Picoseconds(10 ** 13)),
                            TimeSlice(duration=t.start + Picoseconds(1))])
                    ref.events.check('%s[%s]' % (label, index), got[index],
                                     index)
                else:
                    first = ref.dimensions[0]
                    if hasattr(first, 'frequency') and rng.random() < .7:
                        unit = first.frequency
                        span = max(1, n) * unit
                        a = span * rng.uniform(0, 1)
                        b = span * rng.uniform(0, 1)
                        index = rng.choice([
                            TimeSlice(start=a, duration=b),
                            TimeSlice(start=a),
                            slice(min(a, b), max(a, b)),
                            slice(a, None), slice(None, b),
                            slice(-b, None), slice(None, -a)])
                    else:
                        index = slice(*sorted(
                            [rng.randint(0, n), rng.randint(0, n)]))
                    dims = ref.dimensions
                    if len(dims) > 1 and hasattr(dims[1], 'scale') and \
                            rng.random() < .6:
                        hz = sorted([rng.uniform(0, 9000),
                                     rng.uniform(0, 9000)])
                        index = (index, rng.choice([
                            FrequencyBand(hz[0], hz[1] + 1),
                            rng.choice(usual(dims[1].scale))]))
                a, e1 = attempt(lambda: got[index])
                b, e2 = attempt(lambda: ref[index])
                if type(e1) is not type(e2):
                    raise Violation('slice', '%s[%s]: %s, expected %s' % (
                        label, index, one_line(e1) if e1 else 'a value',
                        one_line(e2) if e2 else 'a value'))
                if e1 is None:
                    compare('%s[%s]' % (label, index), d, a, b)

        def expected(d, w):
            if d['kind'] == 'packed':
                return ArrayWithUnits(np.packbits(
                    np.asarray(w).astype(np.uint8), axis=-1), w.dimensions)
            return w

        def read(i, d, Doc, _id, r):
            w, _ = whole(d)
            ref = expected(d, w)
            label = 'document %d (%s)' % (i, d['kind'])
            rng = random.Random('%s/%s/%s' % (d['seed'], i, r))
            doc = Doc(_id)
            got = doc.stored
            compare(label, d, got, ref)
            if d['kind'] == 'events':
                ref.events.check(label, got)
            compare_slices(label, d, got, ref, rng)
            if d['n']:
                t = doc.twice
                if d['kind'] == 'events':
                    check_events(label + ' derived', t, w)
                else:
                    check_array(label + ' derived', t, ArrayWithUnits(
                        np.asarray(ref)[..., ::-1] * 2, ref.dimensions))
            res.note(label, d['n'])

        def main(s_):
            errs = []

            def guard(f, label):
                def go():
                    try:
                        f()
                    except Violation as e:
                        errs.append(e)
                    except Exception as e:
                        errs.append(Violation('raised', '%s: %s' % (
                            label, one_line(e))))
                return go

            def one(i, d):
                def go():
                    Doc = bind(d, i)
                    _, part = whole(d)
                    _id = Doc.process(raw=chunks(d, part))
                    if case['restart']:
                        Doc = bind(d, '%d again' % i)
                        res.fault('restart')
                    ts = []
                    for r in range(case['readers']):
                        f = guard(lambda r=r: read(i, d, Doc, _id, r),
                                  'reading document %d (%s)' % (i, d['kind']))
                        if case['threads_'] and r:
                            ts.append(s_.spawn(f, 'reader %d.%d' % (i, r)))
                        else:
                            f()
                    for t in ts:
                        s_.join(t)
                return go

            ts = []
            for i, d in enumerate(case['ops']):
                f = guard(one(i, d), 'document %d (%s)' % (i, d['kind']))
                if case['threads_']:
                    ts.append(s_.spawn(f, 'writer %d' % i))
                else:
                    f()
            for t in ts:
                s_.join(t)
            if errs:
                raise errs[0]

        simulate(case, res, main, max_steps=2000000)
        res.nontrivial = any(d['cuts'] for d in case['ops'])
        if case['store'] == 'sim':
            res.fault('short reads')
        res.fault('divided delivery',
                  sum(len(d['cuts']) > 0 for d in case['ops']))


CHECK = C12()
