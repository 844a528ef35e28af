"""shared pieces of the checks on streaming computation"""
import random
import numpy as np

from sim.runner import Violation


def node_classes():
    """built lazily: featureflow must be imported after the seams are in"""
    import featureflow as ff
    from featureflow import NotEnoughData
    from zounds.core import ArrayWithUnits

    class Chunks(ff.Node):
        """a source that delivers a list of chunks"""

        def __init__(self, needs=None, part=None):
            super(Chunks, self).__init__(needs=needs)
            self._part = part

        def _process(self, data):
            if self._part is not None:
                data = data[self._part]
            for c in data:
                yield c

    class Raw(ff.Node):
        """hands its input on, whole"""

        def __init__(self, needs=None):
            super(Raw, self).__init__(needs=needs)

        def _process(self, data):
            yield data

    class Jitter(ff.Node):
        """
        a stage that splits, coalesces and holds back what passes through it
        """

        def __init__(self, seed=None, needs=None):
            super(Jitter, self).__init__(needs=needs)
            self._seed = seed
            self._rng = random.Random(seed)
            self._mode = self._rng.choice(['split', 'mix', 'hold'])

        def _enqueue(self, data, pusher):
            if self._cache is None:
                self._cache = data
            elif isinstance(data, ArrayWithUnits):
                self._cache = self._cache.concatenate(data)
            else:
                self._cache = self._cache.concat(data)

        def _dequeue(self):
            if self._cache is None:
                raise NotEnoughData()
            if not self._finalized:
                if self._mode == 'hold':
                    raise NotEnoughData()
                if self._mode == 'mix' and self._rng.random() < 0.4:
                    raise NotEnoughData()
            v, self._cache = self._cache, None
            return v

        def _process(self, data):
            n = len(data)
            if n < 2 or self._rng.random() < 0.3:
                yield data
                return
            k = self._rng.randint(1, min(4, n - 1))
            cuts = sorted(self._rng.sample(range(1, n), k))
            for a, b in zip([0] + cuts, cuts + [n]):
                yield data[a: b]

    return Chunks, Raw, Jitter


def make_cuts(rng, n, special=()):
    """a division of n items into chunks"""
    if n < 2:
        return []
    k = rng.random()
    if k < 0.1:
        return []
    if k < 0.25:
        step = rng.choice([1, 2, 3, 5, 7, 16])
        return list(range(step, n, step))[:60]
    if k < 0.5 and special:
        step = rng.choice(list(special))
        cuts = [i + rng.choice([-1, 0, 0, 0, 1])
                for i in range(step, n, step)]
    else:
        cuts = rng.sample(range(1, n), rng.randint(1, min(n - 1, 8)))
    return sorted(set(c for c in cuts if 0 < c < n))[:60]


def split(arr, cuts):
    n = len(arr)
    edges = [0] + [c for c in cuts if 0 < c < n] + [n]
    return [arr[a: b] for a, b in zip(edges, edges[1:])]


def same_array(name, got, want, rtol=1e-6, atol=1e-8):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(
            'shape', '%s has shape %s, expected %s' % (
                name, g.shape, w.shape))
    if g.dtype.kind in 'fc':
        ok = np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    else:
        ok = np.array_equal(g, w)
    if not ok:
        with np.errstate(all='ignore'):
            d = np.argwhere(~np.isclose(
                g.astype(complex) if g.dtype.kind == 'c' else
                g.astype(float),
                w, rtol=rtol, atol=atol, equal_nan=True))
        first = tuple(int(x) for x in d[0]) if len(d) else ()
        raise Violation(
            'values', '%s differs in %d of %d places, first at %s: %s, '
            'expected %s' % (
                name, len(d), g.size, first,
                g[first] if first else g, w[first] if first else w))


def same_time(name, got, want):
    """the time base of two features"""
    a, b = got.dimensions[0], want.dimensions[0]
    if type(a) is not type(b):
        raise Violation('dimensions', '%s: first dimension %r, expected %r' % (
            name, a, b))
    if hasattr(a, 'frequency') and (
            a.frequency != b.frequency or a.duration != b.duration):
        raise Violation('time-base', '%s: %r, expected %r' % (name, a, b))


def same_dims(name, got, want):
    a, b = got.dimensions, want.dimensions
    if len(a) != len(b):
        raise Violation('dimensions', '%s: %d dimensions, expected %d' % (
            name, len(a), len(b)))
    for i, (x, y) in enumerate(zip(a, b)):
        if type(x) is not type(y) or not (x == y):
            raise Violation(
                'dimensions', '%s: dimension %d is %s, expected %s' % (
                    name, i, x, y))
