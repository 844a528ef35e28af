"""
C03: every handle on a Hamming database sees what others acknowledged
"""
import os
import json

from sim.runner import (
    Check, Violation, sched_spec, simulate, scratch, one_line, where)
from sim import sched, lmdbsim
from checks.hdb import (
    make_code, buggify_capacity, Entry, check_search)


class C03(Check):
    id = 'C03'
    runs = {'quick': 1000, 'thorough': 15000}
    rule = (
        'a case is 2-4 simulated processes that open handles on one database '
        '(some write-only, some with a conflicting code size, at any moment), '
        'append, search and close, plus a seeded interleaving; non-trivial '
        'when a search ran on a handle other than the one that appended')
    real = ['zounds.index.HammingDb', 'LMDB']
    stub = ['processes (thread groups sharing one LMDB environment per path)',
            'LMDB writer lock', 'thread scheduling', 'os.urandom']
    assumptions = ['cross-process visibility is LMDB\'s MVCC, exercised '
                   'through one shared environment']

    def generate(self, rng, tier):
        size = rng.choice([8, 8, 16, 24])
        other = rng.choice([s for s in (8, 16, 24) if s != size])
        pool = [bytes(rng.getrandbits(8) for _ in range(size))
                for _ in range(rng.randint(1, 2))]
        uid = [0]

        def op(writeonly, shared=False):
            k = rng.random() * (0.92 if shared else 1)
            if k < 0.5:
                uid[0] += 1
                return ['append', make_code(rng, size, pool, 4).hex(),
                        'p%d' % uid[0], rng.random() < 0.5]
            if k < 0.85:
                return ['search', make_code(rng, size, pool, 4).hex(),
                        rng.choice([1, 1, 2, 3, 30]), rng.random() < 0.3,
                        rng.random() < 0.5]
            if k < 0.92:
                return ['len']
            return ['reopen', rng.choice(['size', 'none']), rng.random() < 0.2]

        fresh = rng.random() < 0.5
        threads = []
        opens = []
        mates = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            wo = rng.random() < 0.2
            opens.append([
                rng.choice(['size', 'size', 'none', 'other', 'bad'])
                if rng.random() < 0.4 else 'size', wo])
            # some processes have several threads that share one handle
            shared = rng.random() < 0.5
            threads.append([op(wo, shared) for _ in range(rng.randint(1, 6))])
            mates.append([
                [op(wo, True) for _ in range(rng.randint(1, 4))]
                for _ in range(rng.choice([1, 1, 2]))] if shared else [])
        return {
            'size': size, 'other': other, 'fresh': fresh,
            'pool': [p.hex() for p in pool],
            'opens': opens,
            'capacity': rng.choice([None, 1, 2, 3]),
            'cpus': rng.choice([1, 2, 4]),
            'threads': threads,
            'mates': mates,
            'sched': sched_spec(rng)}

    def execute(self, case, res):
        from zounds.index import HammingDb
        lmdbsim.begin_run()
        buggify_capacity(case['capacity'])
        sched.FakeCpu.value = case['cpus']
        path = os.path.join(scratch(), 'db')
        entries = {}
        owner = {}
        history = []
        clock = [0]
        sizes = []      # code sizes of successfully opened handles
        refused = []
        errors = []

        def tick():
            clock[0] += 1
            return clock[0]

        def open_handle(how, writeonly, initialized):
            want = {'size': case['size'], 'none': None,
                    'other': case['other'], 'bad': case['size'] + 3}[how]
            if how == 'bad':
                try:
                    HammingDb(path, code_size=want, writeonly=writeonly)
                except ValueError:
                    res.probe('impossible code size refused')
                    return None
                raise Violation('code-size', 'opened with code size %d' % want)
            try:
                db = HammingDb(path, code_size=want, writeonly=writeonly)
            except ValueError:
                # nothing to restore yet, or a conflicting size
                if how == 'none' and not initialized:
                    res.probe('opened before creation')
                    return None
                if want is not None and (
                        not sizes or any(x != want for x in sizes)
                        or clock_open[0]):
                    refused.append(want)
                    res.probe('conflicting code size refused')
                    return None
                raise
            if want is not None and db.code_size != want:
                raise Violation(
                    'code-size', 'asked for %r, got %r' % (
                        want, db.code_size))
            sizes.append(db.code_size)
            if len(set(sizes)) != 1:
                raise Violation(
                    'code-size', 'handles on one database with code sizes %s'
                    % sorted(set(sizes)))
            res.note('open', how, writeonly)
            # as in a with statement
            if db.__enter__() is not db:
                raise Violation('handle', 'with gives something else')
            return db

        # conflicting creations may be in flight at once
        clock_open = [0]

        def main(s):
            if not case['fresh']:
                db = open_handle('size', False, True)
                db.close()

            def mate(i, j, db, prog, writeonly):
                def run():
                    try:
                        for op in prog:
                            do(db, 'h%d' % i, op, writeonly)
                    except Violation as v:
                        errors.append(v)
                    except Exception as x:
                        errors.append(Violation(
                            'operation-failed', 'process %d: %s @ %s' % (
                                i, one_line(x), where(x)),
                            'operation-failed:' + type(x).__name__))
                return run

            def proc(i, how, writeonly, prog, mates):
                def run():
                    try:
                        clock_open[0] += 1
                        db = open_handle(how, writeonly, bool(sizes))
                        clock_open[0] -= 1
                        if db is None:
                            return
                        wo = writeonly
                        if mates:
                            res.probe('handle shared by threads')
                        ts = [s.spawn(mate(i, j, db, p, wo),
                                      'h%d.%d' % (i, j), group='g%d' % i)
                              for j, p in enumerate(mates)]
                        for op in prog:
                            if op[0] == 'reopen':
                                db.__exit__(None, None, None)
                                wo = op[2]
                                db = open_handle(
                                    op[1] if db.code_size == case['size']
                                    else 'other', wo, True)
                                continue
                            do(db, 'h%d' % i, op, wo)
                        for t in ts:
                            s.join(t)
                    except Violation as v:
                        errors.append(v)
                    except Exception as x:
                        errors.append(Violation(
                            'operation-failed', 'process %d: %s @ %s' % (
                                i, one_line(x), where(x)),
                            'operation-failed:' + type(x).__name__))
                return run

            ts = [s.spawn(proc(i, o[0], o[1], p, m), 'h%d' % i,
                          group='g%d' % i)
                  for i, (o, p, m) in enumerate(zip(
                      case['opens'], case['threads'], case['mates']))]
            for t in ts:
                s.join(t)
            if errors:
                raise errors[0]
            if not sizes:
                return
            # a newcomer sees it all
            db = open_handle('none', False, True)
            n = len(entries)
            if len(db) != n:
                raise Violation('len', '%d entries after %d acknowledged '
                                'appends' % (len(db), n))
            for e in list(entries.values())[:6]:
                do(db, 'final', ['search', e.code.hex(), n + 2, False, True],
                   False)

        def do(db, who, op, writeonly):
            size = db.code_size
            start = tick()

            def fit(c):
                c = bytes.fromhex(c)
                return (c * 3)[:size]

            if op[0] == 'append':
                e = Entry(op[2].encode(), fit(op[1]), start)
                entries[e.payload] = e
                owner[e.payload] = who
                db.append(e.code, op[2] if op[3] else e.payload)
                e.end = tick()
                e.ok = True
                res.note(who, start, e.end, 'append', op[2])
            elif op[0] == 'search':
                if writeonly:
                    try:
                        list(db.search(fit(op[1]), op[2], multithreaded=op[3],
                                       sort=op[4]))
                    except RuntimeError:
                        res.probe('search refused, write-only')
                        return
                    raise Violation(
                        'writeonly', 'a write-only handle answered a search')
                r = [bytes(x) for x in db.search(
                    fit(op[1]), op[2], multithreaded=op[3], sort=op[4])]
                end = tick()
                if any(e.ok and e.end < start and owner[e.payload] != who
                       for e in entries.values()):
                    res.probe('search after a foreign append')
                res.note(who, start, end, 'search', op[1:], r)
                history.append((start, end, fit(op[1]), op[2], r, op[4],
                                '%s search' % who))
            elif op[0] == 'len':
                lo = sum(1 for e in entries.values() if e.ok)
                n = len(db)
                hi = len(entries)
                if not lo <= n <= hi:
                    raise Violation('len', 'len() gave %d, must be in [%d, %d]'
                                    % (n, lo, hi))

        try:
            simulate(case, res, main, max_steps=400000)
        finally:
            buggify_capacity(None)
        if errors:
            raise errors[0]
        history.sort(key=lambda h: h[1])
        for start, end, q, n, r, sort, label in history:
            check_search(entries, q, n, r, start, end, sort, label)
        res.nontrivial = bool(res.probes.get('search after a foreign append'))
        res.fault('preemption', res.probes.get('context switches', 0))


CHECK = C03()
