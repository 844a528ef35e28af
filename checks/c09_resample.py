"""
C09: streaming resampling is independent of chunk boundaries
"""
import ctypes
import json
import threading

import numpy as np

from sim.runner import Check, Violation, sched_spec, simulate, one_line
from checks.streams import node_classes, make_cuts, split, same_array

RATES = [11025, 16000, 22050, 44100, 48000, 96000]


class Converter(object):
    """libsamplerate, which may fail once, at any call"""

    def __init__(self, lib, fail, res):
        self.lib = lib
        self.fail = fail
        self.res = res
        self.calls = {}
        self.hit = set()

    def __getattr__(self, name):
        return getattr(self.lib, name)

    def fails(self, what):
        self.calls[what] = self.calls.get(what, 0) + 1
        if self.fail is None or self.fail[0] != what or \
                self.fail[1] != self.calls[what]:
            return False
        self.hit.add(threading.get_ident())
        self.res.fault('converter fails' if what == 'process'
                       else 'no memory for a converter')
        return True

    @property
    def src_process(self):
        return Function(self, 'src_process', 'process')

    @property
    def src_new(self):
        return Function(self, 'src_new', 'new')


class Function(object):
    """a function of the library, that may fail"""

    def __init__(self, converter, name, what):
        self.__dict__.update(converter=converter, what=what,
                             real=getattr(converter.lib, name))

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __setattr__(self, name, value):
        setattr(self.real, name, value)

    def __call__(self, *args):
        if self.converter.fails(self.what):
            return self.real.restype() if self.what == 'new' \
                else self.converter.fail[2]
        return self.real(*args)


class C09(Check):
    id = 'C09'
    runs = {'quick': 900, 'thorough': 15000}
    rule = (
        'a case is a pair of sample rates, 1-3 signals (mono or stereo) with '
        'their divisions into chunks, a stage that re-divides or delays '
        'chunks, and an interleaving of their conversion; non-trivial when a '
        'signal arrived in more than one chunk')
    real = ['zounds.soundfile.Resampler', 'libsamplerate',
            'featureflow graph and storage']
    stub = ['delivery of chunks', 'thread scheduling']
    assumptions = ['libsamplerate is right about signals converted in one '
                   'piece']

    def generate(self, rng, tier):
        src, dst = rng.choice(RATES), rng.choice(RATES)
        docs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.15:
                n = rng.randint(1, 100)
            elif k < 0.9:
                n = rng.randint(100, 5000)
            else:
                n = rng.randint(5000, 3 * src)
            docs.append({'n': n, 'ch': rng.choice([1, 1, 1, 2, 2, 3, 5]),
                         'cuts': make_cuts(rng, n, (100, 1000)),
                         'f8': rng.random() < 0.4,
                         'freq': rng.uniform(0.01, 0.15),
                         'seed': rng.getrandbits(16)})
        return {'src': src, 'dst': dst, 'ops': docs,
                'jitter': rng.choice([None, None, rng.getrandbits(20)]),
                'threads_': rng.random() < 0.4,
                'fail': rng.choice([
                    None, None, None, ['new', rng.randint(1, 3), 0],
                    ['process', rng.choice([1, 2, rng.randint(1, 30)]),
                     rng.randint(1, 20)]]),
                'sched': sched_spec(rng)}

    def shrink(self, case):
        for k, v in (('jitter', None), ('threads_', False),
                     ('fail', None)):
            if case[k] != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})
        for i, d in enumerate(case['ops']):
            for j in range(len(d['cuts'])):
                c = json.loads(json.dumps(case))
                del c['ops'][i]['cuts'][j]
                yield c
            for k, v in (('ch', 1), ('f8', False), ('n', d['n'] * 3 // 4)):
                if d[k] != v and v:
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    c['ops'][i]['cuts'] = [
                        x for x in d['cuts'] if x < c['ops'][i]['n']]
                    yield c

    def execute(self, case, res):
        import featureflow as ff
        import zounds
        from zounds.soundfile.functional import resample
        import sys
        module = sys.modules['zounds.soundfile.resample']
        lib = Converter(None, case['fail'], res)
        for name, real in sorted(vars(module).items()):
            if isinstance(real, Converter):
                real = real.lib
            if isinstance(real, ctypes.CDLL) and \
                    hasattr(real, 'src_process'):
                lib.lib = real
                setattr(module, name, lib)
        Chunks, Raw, Jitter = node_classes()
        src = zounds.audio_sample_rate(case['src'])
        dst = zounds.audio_sample_rate(case['dst'])
        ratio = case['dst'] / case['src']

        def model(jitter):
            @zounds.simple_in_memory_settings
            class Doc(ff.BaseModel):
                raw = ff.Feature(Raw, store=False)
                chunks = ff.Feature(Chunks, needs=raw, store=False)
                pcm = chunks if jitter is None else ff.Feature(
                    Jitter, seed=jitter, needs=chunks, store=False)
                out = zounds.AudioSamplesFeature(
                    zounds.Resampler, samplerate=dst, needs=pcm, store=True)
            return Doc

        Doc, Whole = model(case['jitter']), model(None)

        def signal(d):
            rng = np.random.RandomState(d['seed'])
            t = np.arange(d['n'])
            # well below half of the lower of the two rates
            f = d['freq'] * min(1, ratio)
            cols = [.5 * np.sin(2 * np.pi * f * (1 + .3 * k) * t +
                                rng.uniform(0, 6)) for k in range(d['ch'])]
            x = np.stack(cols, axis=1)
            if d['ch'] == 1:
                x = x[:, 0]
            return zounds.AudioSamples(
                x.astype('f8' if d['f8'] else 'f4'), src), f

        def ideal(d, f, m):
            """the same sines at the other rate"""
            rng = np.random.RandomState(d['seed'])
            t = np.arange(m) / ratio
            cols = [.5 * np.sin(2 * np.pi * f * (1 + .3 * k) * t +
                                rng.uniform(0, 6)) for k in range(d['ch'])]
            x = np.stack(cols, axis=1)
            return x[:, 0] if d['ch'] == 1 else x

        def converted(label, f):
            me = threading.get_ident()
            lib.hit.discard(me)
            try:
                r = f()
            except Exception:
                if me not in lib.hit:
                    raise
                # it fails only once
                lib.hit.discard(me)
                return f()
            if me in lib.hit:
                raise Violation('silent', '%s: that the conversion failed '
                                'went unnoticed' % label)
            return r

        def one(i, d):
            label = 'signal %d (%d Hz to %d Hz)' % (
                i, case['src'], case['dst'])
            x, f = signal(d)
            chunks = split(x, d['cuts'])
            got = converted(
                label, lambda: Doc(Doc.process(raw=chunks)).out)
            res.probe('chunks', len(chunks))
            expected = d['n'] * ratio
            if abs(len(got) - expected) > 1:
                raise Violation(
                    'length', '%s: %d samples became %d, expected about %.1f'
                    % (label, d['n'], len(got), expected))
            if got.samplerate != dst:
                raise Violation('rate', '%s: at %r' % (label, got.samplerate))
            whole = converted(
                label, lambda: Whole(Whole.process(raw=[x])).out)
            same_array(label + ' against one piece', got, whole, rtol=0,
                       atol=1e-5)
            same_array(label + ' against resample()', converted(
                label, lambda: resample(x, dst)), whole, rtol=0, atol=1e-5)
            want = ideal(d, f, len(got))
            # the converter needs some context on both sides
            m = int(np.ceil(60 * max(1, ratio)))
            if len(got) > 2 * m:
                same_array(label + ' against the ideal', got[m: -m],
                           want[m: -m], rtol=0, atol=2e-3)
            res.note(label, got.shape, repr(round(
                float(np.abs(np.asarray(got)).sum()), 2)))

        def main(s_):
            errs = []

            def run(i, d):
                def go():
                    try:
                        one(i, d)
                    except Violation as e:
                        errs.append(e)
                    except Exception as e:
                        errs.append(Violation('raised', 'signal %d: %s' % (
                            i, one_line(e))))
                return go
            ts = []
            for i, d in enumerate(case['ops']):
                if case['threads_']:
                    ts.append(s_.spawn(run(i, d), 'signal %d' % i))
                else:
                    run(i, d)()
            for t in ts:
                s_.join(t)
            if errs:
                raise errs[0]

        simulate(case, res, main, max_steps=2000000)
        res.nontrivial = any(d['cuts'] for d in case['ops'])
        res.fault('divided delivery', sum(len(d['cuts']) > 0
                                          for d in case['ops']))
        if case['jitter'] is not None:
            res.fault('re-divided or delayed stream')


CHECK = C09()
