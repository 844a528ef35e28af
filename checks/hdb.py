"""shared pieces of the Hamming database checks"""
import random
import numpy as np

from sim.runner import Violation


def popcount_distance(a, b):
    """reference: hamming distance of two byte strings, bit by bit"""
    return sum(bin(x ^ y).count('1') for x, y in zip(bytearray(a), bytearray(b)))


def make_code(rng, size, pool, spread):
    """
    codes near to one another, so that distances tie and nearly tie
    """
    if pool and rng.random() < 0.7:
        c = bytearray(rng.choice(pool))
        for _ in range(rng.randint(0, spread)):
            i = rng.randrange(size)
            c[i] ^= 1 << rng.randrange(8)
    else:
        c = bytearray(rng.getrandbits(8) for _ in range(size))
    return bytes(c)


def buggify_capacity(n):
    """
    shrink the in-memory store's initial capacity, so that the growth path
    runs; a tuning knob, never semantics
    """
    import zounds.index.hammingdb as m
    from zounds.nputil import Growable
    if not hasattr(m, 'Growable'):
        return
    if n is None:
        m.Growable = Growable
        return

    def small(data, *a, **k):
        if not a and not k:
            return Growable(data[:n].copy())
        return Growable(data, *a, **k)
    m.Growable = small


class Entry(object):
    __slots__ = ('payload', 'code', 'start', 'end', 'ok', 'seen')

    def __init__(self, payload, code, start):
        self.payload = payload
        self.code = code
        self.start = start
        self.end = None
        self.ok = None
        self.seen = None


def check_search(entries, query, n, results, start, end, sort, label,
                 expect_exact_n=True):
    """
    entries: payload -> Entry.  The search ran in [start, end] (event numbers).
    Sound: accepts iff some set between "acknowledged (or already seen by a
    finished search) before start" and "invoked before end" explains it.
    """
    must, may = {}, {}
    for e in entries.values():
        if e.start is not None and e.start <= end and e.ok is not False:
            may[e.payload] = e
            if (e.ok and e.end < start) or (
                    e.seen is not None and e.seen < start):
                must[e.payload] = e
    got = []
    for r in results:
        r = bytes(r)
        if r not in entries:
            raise Violation(
                'foreign-result', '%s returned %r, which nobody appended'
                % (label, r[:60]))
        if r not in may:
            raise Violation(
                'phantom', '%s returned %r, whose append had not started or '
                'had failed' % (label, r[:60]))
        got.append(r)
    if len(set(got)) != len(got):
        raise Violation(
            'duplicate', '%s returned an entry twice: %r' % (label, got))
    if len(got) > n:
        raise Violation(
            'too-many', '%s returned %d of %d' % (label, len(got), n))
    if len(got) < min(n, len(must)):
        raise Violation(
            'too-few', '%s returned %d results, asked for %d of at least %d '
            'entries' % (label, len(got), n, len(must)))
    dist = [popcount_distance(query, may[p].code) for p in got]
    if sort and any(x > y for x, y in zip(dist, dist[1:])):
        raise Violation(
            'order', '%s asked for sorted results, distances %s'
            % (label, dist))
    missing = [p for p in must if p not in set(got)]
    if missing:
        if len(got) < n:
            raise Violation(
                'lost', '%s missed %r, acknowledged before it began, though '
                'it returned only %d of %d' % (
                    label, missing[0], len(got), n))
        best = min(popcount_distance(query, may[p].code) for p in missing)
        if dist and max(dist) > best:
            raise Violation(
                'not-nearest', '%s returned an entry at distance %d, but '
                'missed an acknowledged one at %d' % (label, max(dist), best))
    for p in got:
        e = entries[p]
        e.seen = end if e.seen is None else min(e.seen, end)
