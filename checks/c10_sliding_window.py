"""
C10: streaming windowing is independent of chunk boundaries
"""
import json

import numpy as np

from sim.runner import Check, Violation, sched_spec, simulate
from checks.streams import (
    node_classes, make_cuts, split, same_array, same_dims)


def reference(sig, w, s, n):
    """the first n windows of a signal, by the definition"""
    out = np.zeros((n, w) + sig.shape[1:], dtype=sig.dtype)
    for i in range(n):
        piece = sig[i * s: i * s + w]
        out[i, :len(piece)] = piece
    return out


class C10(Check):
    id = 'C10'
    runs = {'quick': 1200, 'thorough': 20000}
    rule = (
        'a case is a window and step, 1-3 signals with their divisions into '
        'chunks, a stage that re-divides, merges or holds back chunks, and an '
        'interleaving of their processing; non-trivial when a signal arrived '
        'in more than one chunk')
    real = ['zounds.spectral.SlidingWindow', 'zounds.core.ArrayWithUnits',
            'zounds.nputil.windowed', 'featureflow graph and storage']
    stub = ['delivery of chunks', 'thread scheduling']
    assumptions = ['windows have at least two samples',
                   'the sample rate is constant within a signal']

    def generate(self, rng, tier):
        w = rng.choice([1, 2, 3, 4, 5, 8, 8, 16, 31])
        k = rng.random()
        if k < 0.25:
            s = w
        elif k < 0.5 and w % 2 == 0:
            s = w // 2
        elif k < 0.75:
            s = rng.randint(1, w)
        else:
            s = rng.randint(w + 1, 2 * w + 3)
        docs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.15:
                n = rng.randint(1, w)
            elif k < 0.5:
                n = w + s * rng.randint(0, 12) + rng.choice([-1, 0, 0, 0, 1])
            else:
                n = rng.randint(w, 14 * max(w, s))
            docs.append({
                'n': max(1, n),
                'cuts': make_cuts(rng, max(1, n), (w, s, 2 * s)),
                'again': rng.random() < 0.2})
        return {
            'w': w, 's': s, 'ops': docs,
            'freq': rng.choice([1000, 22675736, 90702947, 10 ** 9, 10 ** 12]),
            'overlap': rng.choice([1, 1, 1, 2, 3]),
            'features': rng.choice([0, 0, 0, 1, 2, 5]),
            'dtype': rng.choice(['f8', 'f4', 'i2', 'c8']),
            'pad': rng.choice([0, 0, 0, 1, w // 2, w]),
            'func': rng.choice(['none', 'none', 'hanning', 'vorbis']),
            'jitter': rng.choice([None, rng.getrandbits(20)]),
            'threads_': rng.random() < 0.4,
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for k, v in (('overlap', 1), ('features', 0), ('pad', 0),
                     ('func', 'none'), ('jitter', None), ('threads_', False),
                     ('dtype', 'f8')):
            if case[k] != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})
        for i, d in enumerate(case['ops']):
            for j in range(len(d['cuts'])):
                c = json.loads(json.dumps(case))
                del c['ops'][i]['cuts'][j]
                yield c
            if d['n'] > 1:
                c = json.loads(json.dumps(case))
                c['ops'][i]['n'] = d['n'] - 1
                c['ops'][i]['cuts'] = [
                    x for x in d['cuts'] if x < d['n'] - 1]
                yield c

    def execute(self, case, res):
        import zounds
        import featureflow as ff
        from zounds.core import ArrayWithUnits, IdentityDimension
        from zounds.timeseries import TimeDimension, Picoseconds, SampleRate
        Chunks, Raw, Jitter = node_classes()
        w, s = case['w'], case['s']
        freq = Picoseconds(case['freq'])
        wscheme = SampleRate(frequency=freq * s, duration=freq * w)
        func = case['func']
        if case['features'] or case['dtype'] in ('i2',):
            func = 'none'
        wfunc = {
            'none': None,
            'hanning': zounds.HanningWindowingFunc(),
            'vorbis': zounds.OggVorbisWindowingFunc()}[func]

        def model(jitter):
            @zounds.simple_in_memory_settings
            class Doc(ff.BaseModel):
                raw = ff.Feature(Raw, store=False)
                chunks = ff.Feature(Chunks, needs=raw, store=False)
                if jitter is None:
                    src = chunks
                else:
                    src = ff.Feature(
                        Jitter, seed=jitter, needs=chunks, store=False)
                windowed = zounds.ArrayWithUnitsFeature(
                    zounds.SlidingWindow, wscheme=wscheme, wfunc=wfunc,
                    padwith=case['pad'], needs=src, store=True)
            return Doc

        def signal(i, d):
            rng = np.random.RandomState(1000 + i)
            shape = (d['n'],) + (
                (case['features'],) if case['features'] else ())
            a = rng.normal(0, 100, shape)
            if case['dtype'] == 'c8':
                a = a + 1j * rng.normal(0, 100, shape)
            a = a.astype({'c8': np.complex64}.get(case['dtype'],
                                                  case['dtype']))
            dims = [TimeDimension(freq, freq * case['overlap'])]
            if case['features']:
                dims.append(IdentityDimension())
            return ArrayWithUnits(a, dims)

        def check(label, sig, got, one):
            raw = np.asarray(sig)
            # padwith asks for that many empty windows before the first
            pad = case['pad']
            if np.asarray(got[:pad]).any() or len(got) < pad:
                raise Violation('padding', '%s: the %d leading windows are '
                                'not empty' % (label, pad))
            everything, got = got, got[pad:]
            total = len(raw)
            full = 0 if total < w else (total - w) // s + 1
            n = len(got)
            if n < full:
                raise Violation(
                    'lost', '%s: %d windows, the signal has %d full ones' % (
                        label, n, full))
            if n > max(1, full + 1):
                raise Violation(
                    'extra', '%s: %d windows, the signal has only %d full '
                    'ones' % (label, n, full))
            last = (n - 1) * s + w
            if last < total and s <= w and total - last >= s:
                raise Violation(
                    'lost', '%s: the last window ends at %d of %d' % (
                        label, last, total))
            want = reference(raw, w, s, n)
            if func == 'hanning':
                want = want * np.hanning(w).astype(raw.dtype)
            elif func == 'vorbis':
                i = np.sin((np.arange(w) + .5) / w * np.pi) ** 2
                f = np.sin(.5 * np.pi * i)
                want = want * (f / f.max()).astype(raw.dtype)
            same_array(label, got, want, rtol=1e-5, atol=1e-4)
            if got.dtype != want.dtype:
                raise Violation('dtype', '%s: %s, expected %s' % (
                    label, got.dtype, want.dtype))
            td = everything.dimensions[0]
            over = freq * (case['overlap'] - 1)
            if td.frequency != freq * s or td.duration != freq * w + over:
                raise Violation(
                    'time-base', '%s: windows at %r, expected every %s for '
                    '%s' % (label, td, freq * s, freq * w + over))
            if one is not None:
                if len(one) != n + pad:
                    raise Violation(
                        'count', '%s: %d windows, but %d when the signal is '
                        'delivered in one piece' % (label, n + pad, len(one)))
                same_dims(label, everything, one)
            res.note(label, got.shape, repr(float(abs(want).sum())))

        def main(s_):
            Doc = model(case['jitter'])
            Whole = model(None)
            errs = []
            todo = []
            for i, d in enumerate(case['ops']):
                todo.append((i, d, 'signal %d' % i))
                if d['again']:
                    todo.append((i, d, 'signal %d again' % i))

            def one(i, d, label):
                def run():
                    try:
                        sig = signal(i, d)
                        chunks = split(sig, d['cuts'])
                        if len(chunks) > 1:
                            res.probe('chunks', len(chunks))
                        _id = Doc.process(raw=chunks)
                        got = Doc(_id).windowed
                        ref = Whole(Whole.process(raw=[sig])).windowed
                        check(label, sig, got, ref)
                    except Exception as e:
                        errs.append(e)
                return run

            ts = []
            for t in todo:
                if case['threads_']:
                    ts.append(s_.spawn(one(*t), t[2]))
                else:
                    one(*t)()
            for t in ts:
                s_.join(t)
            if errs:
                raise errs[0]

        simulate(case, res, main, max_steps=2000000)
        res.nontrivial = any(d['cuts'] for d in case['ops']) or \
            case['jitter'] is not None
        if case['jitter'] is not None:
            res.fault('re-divided or delayed stream')
        res.fault('divided delivery', sum(len(d['cuts']) > 0
                                          for d in case['ops']))


CHECK = C10()
