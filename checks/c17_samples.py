"""
C17: sampled training examples are real and aligned across features
"""
import itertools
import json
import random

import numpy as np

from sim import sched
from sim.runner import Check, Violation, sched_spec, simulate, one_line
from checks.store import Disk, make_database, StoreError
from checks.streams import node_classes

STEP = 1000000      # distance between the features of one example
KINDS = ['reservoir', 'reservoir', 'multiplexed', 'multiplexed', 'stream',
         'stream', 'documents']


class Multi(object):
    """the features of one document, side by side"""

    def __init__(self, parts):
        self.parts = parts

    def __len__(self):
        return len(next(iter(self.parts.values())))

    def __getitem__(self, ix):
        return dict((k, v[ix]) for k, v in self.parts.items())


class C17(Check):
    id = 'C17'
    runs = {'quick': 1300, 'thorough': 40000}
    rule = (
        'a case is a reservoir of any size and kind, batches of one or '
        'several features from up to four threads (or chunks of a stream, or '
        'stored documents), some of them malformed, requests for samples in '
        'between, and an interleaving; non-trivial when threads interleave '
        'or something is refused or fails')
    real = ['zounds.learn.random_samples', 'zounds.core', 'featureflow']
    stub = ['worker pools', 'document store', 'thread scheduling']
    assumptions = []

    def generate(self, rng, tier):
        kind = rng.choice(KINDS)
        ops = []
        for _ in range(rng.choice([1, 2, 4, 8, 14])):
            n = rng.choice([0, 1, 2, rng.randint(1, 12), rng.randint(1, 60)])
            op = {'op': 'add', 'n': n, 'thread': rng.randint(0, 3)}
            k = rng.random()
            if kind == 'reservoir' and k < .3:
                op = {'op': 'batch', 'n': rng.randint(1, 40),
                      'thread': rng.randint(0, 3)}
            elif kind in ('reservoir', 'multiplexed') and k > .8:
                op = {'op': 'get', 'n': 0, 'thread': rng.randint(0, 3)}
            elif kind == 'multiplexed' and k < .15:
                op['bad'] = rng.choice(['lengths', 'missing', 'extra'])
            elif kind == 'reservoir' and k < .35:
                op['bad'] = 'indices'
            ops.append(op)
        return {
            'ops': ops, 'kind': kind,
            'nsamples': rng.choice([1, 2, 5, rng.randint(2, 30),
                                    rng.randint(10, 100)]),
            'features': rng.choice([1, 2, 2, 3]),
            'width': rng.choice([None, 1, 3, 8]),
            'units': rng.random() < .5,
            'dtype': rng.choice([None, 'float32', 'float64']),
            'explicit': rng.random() < .4,
            'sampler': rng.choice(['ReservoirSampler', 'ShuffledSamples',
                                   'multiplexed']),
            'jitter': rng.random() < .3,
            'parallel': rng.random() < .7,
            'multi': rng.random() < .6,
            'take': rng.choice([1, 2, 3]),
            'fault': rng.randint(1, 40) if rng.random() < .25 else None,
            'threads_': rng.random() < .85,
            'opcodes': rng.random() < .15,
            'entropy': rng.getrandbits(30),
            'sseed': rng.getrandbits(20),
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for k, v in (('threads_', False), ('opcodes', False),
                     ('units', False), ('width', 1), ('dtype', None),
                     ('fault', None), ('jitter', False), ('take', 1),
                     ('features', 2)):
            if case[k] != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})
        for i, o in enumerate(case['ops']):
            if o['n'] > 1:
                c = json.loads(json.dumps(case))
                c['ops'][i]['n'] = o['n'] // 2
                yield c

    # rows carry what they are: the number of the example, plus STEP times
    # the number of the feature, in all of their elements

    def rows(self, case, tokens, feature=0):
        from zounds.core import ArrayWithUnits, IdentityDimension
        w = case['width']
        t = np.asarray(tokens, dtype='float64') + STEP * feature
        if w is None:
            x = t
        else:
            x = np.repeat(t[:, None], w + feature, axis=1)
        x = x.astype('float32' if feature == 1 else 'float64')
        if case['units']:
            x = ArrayWithUnits(x, [IdentityDimension()] * x.ndim)
        return x

    def tokens(self, case, x, feature, valid, when):
        from zounds.core import ArrayWithUnits
        if case['units'] and not isinstance(x, ArrayWithUnits):
            raise Violation('units', '%s: units are lost' % when)
        a = np.asarray(x)
        if case['width'] is not None:
            if a.ndim != 2 or a.shape[1] != case['width'] + feature:
                raise Violation('shape', '%s: shape %s' % (when, a.shape))
            bad = np.nonzero((a != a[:, :1]).any(axis=1))[0]
            if len(bad):
                raise Violation(
                    'torn', '%s: row %d mixes examples: %s' % (
                        when, bad[0], a[bad[0]].tolist()))
            a = a[:, 0]
        elif a.ndim != 1:
            raise Violation('shape', '%s: shape %s' % (when, a.shape))
        t = (a.astype('float64') - STEP * feature).astype(int).tolist()
        for v in t:
            if v not in valid:
                raise Violation(
                    'not added', '%s: row %s was never added to feature %d' %
                    (when, v + STEP * feature, feature))
        return t

    def execute(self, case, res):
        getattr(self, '_' + case['kind'])(case, res)

    def _dtype(self, case, x, feature, when):
        want = case['dtype'] or ('float32' if feature == 1 else 'float64')
        if str(np.asarray(x).dtype) != want:
            raise Violation('dtype', '%s: %s instead of %s' % (
                when, np.asarray(x).dtype, want))

    def _threads(self, case, s_, work):
        """the operations, by one thread or several, in the order of each"""
        errs = []
        by = {}
        for k, op in enumerate(case['ops']):
            by.setdefault(op['thread'] if case['threads_'] else 0,
                          []).append((k, op))

        def run(mine):
            def go():
                for k, op in mine:
                    try:
                        work(k, op)
                    except Violation as e:
                        errs.append(e)
                    except Exception as e:
                        errs.append(Violation('raised', '%s %d of %d: %s' % (
                            op['op'], k, len(case['ops']), one_line(e))))
            return go
        ts = [s_.spawn(run(m), 'thread %d' % t) for t, m in sorted(
            by.items())]
        for t in ts:
            s_.join(t)
        if errs:
            raise errs[0]
        return len(by)

    # -- one feature --------------------------------------------------------

    def _reservoir(self, case, res):
        from zounds.learn import Reservoir
        n = case['nsamples']
        r = Reservoir(n, dtype=case['dtype'])
        counter = itertools.count(1)
        began = set()
        done = set()
        slots = {}
        ambiguous = set()
        rng = random.Random(case['sseed'])
        held = []

        def work(k, op):
            when = '%s %d' % (op['op'], k)
            if op['op'] == 'get':
                self._get(r, done, when, res, lambda x, when: self.tokens(
                    case, x, 0, began, when), held)
                return
            if op['op'] == 'batch':
                lower = len(r)
                added = set(done)
                try:
                    x = r.get_batch(op['n'])
                except ValueError:
                    res.note(when, 'refused')
                    res.probe('refused batch')
                    if op['n'] <= lower:
                        raise Violation(
                            'refused', '%s: %d refused, although there were '
                            '%d' % (when, op['n'], lower))
                    return
                if len(x) != op['n']:
                    raise Violation('size', '%s: %d rows instead of %d' % (
                        when, len(x), op['n']))
                if op['n'] > n or op['n'] > len(began):
                    raise Violation(
                        'not enough', '%s: a batch of %d from %d examples in '
                        '%d places' % (when, op['n'], len(began), n))
                t = self.tokens(case, x, 0, began, when)
                res.note(when, t)
                return
            toks = [next(counter) for _ in range(op['n'])]
            x = self.rows(case, toks)
            if op.get('bad') == 'indices':
                try:
                    r.add(x, indices=np.arange(op['n'] + 1) % n)
                except ValueError:
                    res.probe('refused add')
                    return
                raise Violation('accepted', '%s: %d examples for %d places '
                                'were accepted' % (when, op['n'],
                                                   op['n'] + 1))
            began.update(toks)
            if case['explicit']:
                mine = [rng.randrange(n) for _ in toks]
                for i, t in zip(mine, toks):
                    if slots.get(i, (op['thread'], 0))[0] != op['thread']:
                        ambiguous.add(i)
                    slots[i] = (op['thread'], t)
                r.add(x, indices=np.array(mine, dtype=int))
            else:
                r.add(x)
            done.update(toks)
            res.note(when, len(r))

        def main(s_):
            k = self._threads(case, s_, work)
            if not began:
                return
            self._held(held)
            x = r.get()
            t = self.tokens(case, x, 0, began, 'in the end')
            self._dtype(case, x, 0, 'in the end')
            res.note('end', t)
            if len(t) != len(r) or not 0 < len(t) <= min(n, len(began)):
                raise Violation(
                    'size', 'in the end: %d rows from %d examples in %d '
                    'places, and a length of %d' % (
                        len(t), len(began), n, len(r)))
            if len(set(t)) != len(t):
                raise Violation('repeated', 'in the end: %s' % t)
            if r.percent_full() != len(t) / float(n):
                raise Violation('size', 'in the end: %s full' %
                                r.percent_full())
            if case['explicit']:
                if len(t) != len(slots):
                    raise Violation(
                        'size', 'in the end: %d places filled, %d in use' % (
                            len(slots), len(t)))
                for i, got in zip(sorted(slots), t):
                    if i not in ambiguous and got != slots[i][1]:
                        raise Violation(
                            'lost', 'in the end: place %d holds %d instead '
                            'of %d' % (i, got, slots[i][1]))
            res.nontrivial = k > 1 and case['threads_']

        simulate(case, res, main, max_steps=400000, opcodes=case['opcodes'])

    # -- several features ---------------------------------------------------

    def _multiplexed(self, case, res):
        from zounds.learn.random_samples import MultiplexedReservoir
        n = case['nsamples']
        m = max(2, case['features'])
        names = ['f%d' % i for i in range(m)]
        r = MultiplexedReservoir(n, dtype=case['dtype'])
        counter = itertools.count(1)
        began = set()
        good = any(not o.get('bad') for o in case['ops'])
        first = [True]
        done = set()
        held = []

        def work(k, op):
            when = '%s %d' % (op['op'], k)
            if op['op'] == 'get':
                self._get(r, done, when, res, lambda x, when: self._aligned(
                    case, x, names, began, n, when, res), held)
                return
            toks = [next(counter) for _ in range(op['n'])]
            batch = dict((names[i], self.rows(case, toks, i))
                         for i in range(m))
            bad = op.get('bad')
            if bad == 'lengths':
                f = names[k % m]
                batch[f] = np.concatenate([batch[f], batch[f], batch[f][:1]])
                if not op['n']:
                    batch[f] = self.rows(case, [next(counter)], k % m)
            elif bad == 'missing':
                del batch[names[k % m]]
            elif bad == 'extra':
                batch['other'] = batch[names[0]]
            if bad and bad != 'lengths' and first[0]:
                # the first batch decides what the features are
                return
            if bad:
                try:
                    r.add(batch)
                except ValueError:
                    res.probe('refused add')
                    res.note(when, 'refused')
                    return
                raise Violation('accepted', '%s: accepted although malformed '
                                '(%s)' % (when, bad))
            began.update(toks)
            r.add(batch)
            done.update(toks)
            first[0] = False
            res.note(when)

        def main(s_):
            k = self._threads(case, s_, work)
            if not began:
                return
            self._held(held)
            self._aligned(case, r.get(), names, began, n, 'in the end', res)
            res.nontrivial = k > 1

        simulate(case, res, main, max_steps=400000, opcodes=case['opcodes'])

    def _aligned(self, case, d, names, valid, n, when, res, distinct=True):
        if sorted(d) != sorted(names):
            raise Violation('features', '%s: %s' % (when, sorted(d)))
        ts = []
        for i, f in enumerate(names):
            t = self.tokens(case, d[f], i, valid, '%s, %s' % (when, f))
            self._dtype(case, d[f], i, '%s, %s' % (when, f))
            ts.append(t)
        res.note(when, ts[0])
        for i, t in enumerate(ts):
            if t != ts[0]:
                raise Violation(
                    'misaligned', '%s: examples %s in %s, but %s in %s' % (
                        when, ts[0], names[0], t, names[i]))
        if not 0 < len(ts[0]) <= n:
            raise Violation('size', '%s: %d rows in %d places' % (
                when, len(ts[0]), n))
        if distinct and len(set(ts[0])) != len(ts[0]):
            raise Violation('repeated', '%s: %s' % (when, ts[0]))
        return ts[0]

    # what was handed out may be used while more is added

    def _get(self, r, done, when, res, look, held):
        some = bool(done)
        try:
            x = r.get()
        except Exception:
            if some:
                raise
            return
        if not some and not len(next(iter(x.values())) if isinstance(
                x, dict) else x):
            return
        res.probe('whole reservoir in between')
        held.append((x, look(x, when), when, look))

    def _held(self, held):
        for x, was, when, look in held:
            now = look(x, '%s, later' % when)
            if now != was:
                raise Violation('changed', '%s gave %s, which is %s later' % (
                    when, was, now))

    # -- a stream -----------------------------------------------------------

    def _stream(self, case, res):
        import featureflow as ff
        import zounds
        Chunks, _, Jitter = node_classes()
        n = case['nsamples']
        multi = case['sampler'] == 'multiplexed'
        m = max(2, case['features']) if multi else 1
        names = ['f%d' % i for i in range(m)]
        counter = itertools.count(1)
        valid = set()
        chunks = []
        for op in case['ops']:
            if not op['n']:
                continue
            toks = [next(counter) for _ in range(op['n'])]
            valid.update(toks)
            if multi:
                chunks.append(dict((names[i], self.rows(case, toks, i))
                                   for i in range(m)))
            else:
                chunks.append(self.rows(case, toks))
        if not chunks:
            return
        jitter = case['jitter'] and case['units'] and not multi
        out = []

        class Sink(ff.Node):
            def __init__(self, needs=None):
                super(Sink, self).__init__(needs=needs)

            def _process(self, data):
                out.append(data)
                yield True

        @zounds.simple_in_memory_settings
        class Doc(ff.BaseModel):
            chunks = ff.Feature(Chunks, store=False)
            if jitter:
                up = ff.Feature(
                    Jitter, seed=case['sseed'], needs=chunks, store=False)
            if case['sampler'] == 'ReservoirSampler':
                sampled = ff.Feature(
                    zounds.ReservoirSampler, nsamples=n,
                    needs=up if jitter else chunks,
                    store=False)
            else:
                sampled = ff.Feature(
                    zounds.ShuffledSamples, nsamples=n, multiplexed=multi,
                    dtype=case['dtype'],
                    needs=up if jitter else chunks, store=False)
            sink = ff.PickleFeature(Sink, needs=sampled, store=True)
        when = '%s of %d from %d examples in %d chunks' % (
            case['sampler'], n, len(valid), len(chunks))
        def main(s_):
            try:
                Doc.process(chunks=chunks)
            except Exception as e:
                raise Violation('raised', '%s: %s' % (when, one_line(e)))
            if len(out) != 1:
                raise Violation('size', '%s: %d results' % (when, len(out)))
            if multi:
                self._aligned(case, out[0], names, valid, n, when, res)
                return
            t = self.tokens(case, out[0], 0, valid, when)
            if case['sampler'] == 'ShuffledSamples':
                self._dtype(case, out[0], 0, when)
                ok = 0 < len(t) <= min(n, len(valid))
            else:
                ok = len(t) == min(n, len(valid))
            if not ok:
                raise Violation('size', '%s: %d rows' % (when, len(t)))
            if len(set(t)) != len(t):
                raise Violation('repeated', '%s: %s' % (when, t))
            res.note(t)

        simulate(case, res, main, max_steps=400000, quiet=True)
        res.nontrivial = len(chunks) > 1

    # -- stored documents ---------------------------------------------------

    def _documents(self, case, res):
        import featureflow as ff
        import zounds
        from zounds.learn.random_samples import InfiniteSampler
        n = case['nsamples']
        multi = case['multi']
        m = max(2, case['features']) if multi else 1
        names = ['f%d' % i for i in range(m)]
        disk = Disk()
        kb = ff.StringDelimitedKeyBuilder()
        armed = [None, False]

        def plan(db, op, key, k):
            if armed[0] is not None and op == 'read':
                armed[0] -= 1
                if armed[0] == 0:
                    armed[1] = True
                    res.fault('store error on read')
                    raise StoreError('simulated')
        db = make_database(disk, kb, case['sseed'], plan)
        units = dict(case, units=True)

        Chunks, _, _ = node_classes()
        body = {}
        for i, f in enumerate(names):
            body[f] = zounds.ArrayWithUnitsFeature(Chunks, store=True)
        Doc = type('Doc', (ff.BaseModel, ff.PersistenceSettings), dict(
            body, id_provider=ff.UserSpecifiedIdProvider(key='_id'),
            key_builder=kb, database=db))
        counter = itertools.count(1)
        valid = set()
        docs = 0
        for k, op in enumerate(case['ops']):
            if not op['n']:
                continue
            toks = [next(counter) for _ in range(op['n'])]
            valid.update(toks)
            Doc.process(_id='d%d' % k, **dict(
                (names[i], [self.rows(units, toks, i)]) for i in range(m)))
            docs += 1
        if not docs:
            return

        def feature(_id=None, persistence=None):
            if not multi:
                return getattr(Doc, names[0])(
                    _id=_id, persistence=persistence)
            return Multi(dict((f, getattr(Doc, f)(
                _id=_id, persistence=persistence)) for f in names))

        def main(s_):
            sampler = InfiniteSampler(
                nsamples=n, multiplexed=multi, dtype=case['dtype'],
                parallel=case['parallel'])
            out = iter(sampler._process((Doc, feature)))
            armed[0] = case['fault']
            for k in range(case['take']):
                when = 'sample %d of %d from %d documents' % (k, n, docs)
                try:
                    x = next(out)
                except Exception as e:
                    res.note(when, type(e).__name__)
                    if not armed[1]:
                        raise Violation('raised', '%s: %s' % (
                            when, one_line(e)))
                    return
                if armed[1]:
                    raise Violation(
                        'unreported', '%s: a document could not be read, and '
                        'nothing was reported' % when)
                if multi:
                    self._aligned(units, x, names, valid, n, when, res,
                                  False)
                else:
                    t = self.tokens(units, x, 0, valid, when)
                    self._dtype(case, x, 0, when)
                    res.note(when, t)
                    if not 0 < len(t) <= n:
                        raise Violation('size', '%s: %d rows' % (
                            when, len(t)))

        sched.FakeCpu.value = 3
        try:
            simulate(case, res, main, max_steps=400000,
                     opcodes=case['opcodes'])
        finally:
            sched.FakeCpu.value = 4
        res.nontrivial = docs > 1


CHECK = C17()
