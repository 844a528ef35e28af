"""
C04: a failed Hamming database write has no effect
"""
import os
import lmdb

from sim.runner import (
    Check, Violation, sched_spec, simulate, scratch, one_line, where)
from sim import sched, lmdbsim
from checks.hdb import (
    make_code, buggify_capacity, Entry, check_search)


class C04(Check):
    id = 'C04'
    runs = {'quick': 1500, 'thorough': 20000}
    rule = (
        'a case is a sequence of appends (some with unacceptable arguments), '
        'metadata writes, searches and reopenings for 1-2 threads with storage '
        'failures placed at individual LMDB calls, or a database file too '
        'small for them; non-trivial when a write failed')
    real = ['zounds.index.HammingDb', 'LMDB (its own out-of-space handling '
            'included)']
    stub = ['failures of individual LMDB calls', 'thread scheduling']
    assumptions = ['faults strike at the boundary of the storage library']

    def generate(self, rng, tier):
        size = rng.choice([8, 8, 16])
        pool = [bytes(rng.getrandbits(8) for _ in range(size))]
        uid = [0]
        small = rng.random() < 0.2

        def op():
            k = rng.random()
            if k < 0.5:
                uid[0] += 1
                return ['append', make_code(rng, size, pool, 3).hex(),
                        'p%d' % uid[0] + 'z' * (
                            rng.choice([500, 3000, 9000]) if small else 0),
                        rng.random() < 0.5]
            if k < 0.6:
                return ['bad', rng.choice([
                    'long', 'short', 'text', 'number', 'nodata', 'intdata',
                    'empty', 'searchlong', 'searchshort'])]
            if k < 0.7:
                uid[0] += 1
                return ['meta', rng.choice(['a', 'b']), 'm%d' % uid[0]]
            if k < 0.76:
                return ['badmeta']
            if k < 0.93:
                return ['search', make_code(rng, size, pool, 3).hex(),
                        rng.choice([1, 2, 40]), rng.random() < 0.3,
                        rng.random() < 0.5]
            return ['len']

        n_threads = rng.choice([1, 1, 1, 2])
        threads = [[op() for _ in range(rng.randint(2, 9))]
                   for _ in range(n_threads)]
        faults = []
        if not small:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                o = rng.choice(['put', 'put', 'commit', 'commit', 'begin_w',
                                'get', 'begin_r'])
                faults.append({
                    'op': o, 'at': rng.randrange(0, 16 if o in (
                        'get', 'begin_r') else 10),
                    'kind': {'put': rng.choice(['map_full', 'disk']),
                             'commit': rng.choice(['map_full', 'disk',
                                                   'error'])}.get(
                        o, rng.choice(['disk', 'error']))})
        return {'size': size, 'threads': threads, 'faults': faults,
                'map_size': rng.choice([50000, 90000]) if small else None,
                'capacity': rng.choice([None, 1, 2]),
                'ops': [],
                'sched': sched_spec(rng)}

    def execute(self, case, res):
        from zounds.index import HammingDb
        disk = lmdbsim.begin_run()
        disk.map_size = case['map_size']
        buggify_capacity(case['capacity'])
        path = os.path.join(scratch(), 'db')
        entries, meta, history, errors = {}, {}, [], []
        clock = [0]

        def tick():
            clock[0] += 1
            return clock[0]

        def injected(e):
            return isinstance(e, lmdb.Error)

        def bad(db, how):
            size = case['size']
            c = b'\x01' * size
            return {
                'long': lambda: db.append(c + b'\x00', 'x'),
                'short': lambda: db.append(c[:-1], 'x'),
                'empty': lambda: db.append(b'', 'x'),
                'text': lambda: db.append(u'\u00e9' * size, 'x'),
                'number': lambda: db.append(7, 'x'),
                'nodata': lambda: db.append(c, None),
                'intdata': lambda: db.append(c, 7),
                'searchlong': lambda: list(db.search(c + c, 1)),
                'searchshort': lambda: list(db.search(c[1:], 1)),
            }[how]()

        def do(db, who, op):
            start = tick()
            if op[0] == 'append':
                e = Entry(op[2].encode(), bytes.fromhex(op[1]), start)
                entries[e.payload] = e
                try:
                    db.append(e.code, op[2] if op[3] else e.payload)
                except Exception as x:
                    if not injected(x):
                        raise
                    e.ok = False
                    e.end = tick()
                    res.probe('append failed')
                    res.note(who, 'append failed', op[2][:8],
                             type(x).__name__)
                    return
                e.end = tick()
                e.ok = True
                res.note(who, start, e.end, 'append', op[2][:8])
            elif op[0] == 'bad':
                try:
                    bad(db, op[1])
                except (ValueError, TypeError, lmdb.Error, AttributeError):
                    res.probe('unacceptable arguments refused')
                    return
                raise Violation('accepted', 'unacceptable arguments (%s) were '
                                'accepted' % op[1])
            elif op[0] == 'badmeta':
                try:
                    db.set_metadata(b'a', 7)
                except (TypeError, lmdb.Error):
                    return
                raise Violation('accepted', 'metadata 7 was accepted')
            elif op[0] == 'meta':
                old = meta.get(op[1], set([None]))
                meta[op[1]] = old | set([op[2]])
                try:
                    db.set_metadata(op[1].encode(), op[2].encode())
                except Exception as x:
                    if not injected(x):
                        raise
                    meta[op[1]] = (meta[op[1]] - set([op[2]])) or old
                    res.probe('metadata write failed')
                    return
                if len(case['threads']) == 1:
                    meta[op[1]] = set([op[2]])
            elif op[0] == 'search':
                try:
                    r = [bytes(x) for x in db.search(
                        bytes.fromhex(op[1]), op[2], multithreaded=op[3],
                        sort=op[4])]
                except Exception as x:
                    if not injected(x):
                        raise
                    res.probe('search failed')
                    return
                end = tick()
                res.note(who, start, end, 'search', op[1:],
                         [x[:8] for x in r])
                history.append((start, end, bytes.fromhex(op[1]), op[2], r,
                                op[4], '%s search' % who))
            elif op[0] == 'len':
                lo = sum(1 for e in entries.values() if e.ok)
                try:
                    n = len(db)
                except Exception as x:
                    if not injected(x):
                        raise
                    return
                hi = sum(1 for e in entries.values() if e.ok is not False or
                         e.end > start)
                if not lo <= n <= hi:
                    raise Violation(
                        'len', 'len() gave %d, must be in [%d, %d]'
                        % (n, lo, hi))

        def client(db, i, prog):
            def run():
                for op in prog:
                    try:
                        do(db, 'c%d' % i, op)
                    except Violation as v:
                        errors.append(v)
                        return
                    except Exception as x:
                        errors.append(Violation(
                            'operation-failed', '%s: %s @ %s' % (
                                op[:2], one_line(x), where(x)),
                            'operation-failed:' + type(x).__name__))
                        return
            return run

        def final(db, label):
            n = sum(1 for e in entries.values() if e.ok)
            if len(db) != n:
                raise Violation(
                    'len', '%s: %d entries, %d appends were acknowledged'
                    % (label, len(db), n))
            for e in list(entries.values())[:8]:
                for k, mt in ((n + 2, False), (1, True)):
                    do(db, label, ['search', e.code.hex(), k, mt, True])
            for k, may in meta.items():
                v = db.get_metadata(k.encode())
                v = None if v is None else bytes(v).decode()
                if v not in may:
                    raise Violation(
                        'metadata', '%s: metadata %s is %r, expected one of '
                        '%s' % (label, k, v, sorted(map(str, may))))

        def main(s):
            db = HammingDb(path, code_size=case['size'])
            disk.counts.clear()
            disk.plan.extend(dict(f) for f in case['faults'])
            ts = [s.spawn(client(db, i, p), 'c%d' % i)
                  for i, p in enumerate(case['threads'])]
            for t in ts:
                s.join(t)
            if errors:
                raise errors[0]
            # the fault is gone
            disk.fire_enabled = False
            before = sum(1 for e in entries.values() if e.ok)
            final(db, 'after faults')
            if not case['map_size']:
                do(db, 'after', ['append', '05' * case['size'], 'last', True])
                final(db, 'after recovery')
            db.close()
            disk.map_size = None
            db = HammingDb(path, code_size=None)
            final(db, 'reopened')
            do(db, 'reopened', ['append', '06' * case['size'], 'very last',
                                True])
            if not entries[b'very last'].ok:
                raise Violation('no-recovery', 'append fails after the fault '
                                'is gone')
            final(db, 'reopened and appended')

        try:
            simulate(case, res, main, max_steps=400000)
        finally:
            buggify_capacity(None)
            for k in disk.fired:
                res.fault(k)
        if case['map_size'] and res.probes.get('append failed'):
            res.fault('file too small', res.probes['append failed'])
        history.sort(key=lambda h: h[1])
        for start, end, q, n, r, sort, label in history:
            check_search(entries, q, n, r, start, end, sort, label)
        res.nontrivial = bool(
            res.probes.get('append failed') or
            res.probes.get('metadata write failed') or
            res.probes.get('unacceptable arguments refused'))


CHECK = C04()
