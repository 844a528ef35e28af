"""
C01: concurrent appends and searches on one Hamming database are linearizable
"""
import os
import random

from sim.runner import (
    Check, Violation, sched_spec, simulate, scratch, one_line, where)
from sim import sched, lmdbsim
from checks.hdb import (
    make_code, buggify_capacity, Entry, check_search)


class C01(Check):
    id = 'C01'
    runs = {'quick': 700, 'thorough': 12000}
    rule = (
        'a case is a random program of appends and searches for 1-4 caller '
        'threads on one database plus a seeded interleaving; non-trivial when '
        'at least one append overlapped another operation')
    real = ['zounds.index.HammingDb', 'zounds.nputil.Growable',
            'zounds.nputil.packed_hamming_distance', 'countbits extension',
            'LMDB']
    stub = ['thread scheduling (real threads, one at a time)',
            'LMDB writer lock', 'thread pool', 'os.urandom', 'cpu_count',
            'initial capacity of the in-memory array']
    assumptions = [
        'preemption happens at Python line boundaries, at bytecode boundaries '
        'in a share of the runs, and at every storage call',
        'numpy and LMDB calls are atomic with respect to other threads']

    def generate(self, rng, tier):
        size = rng.choice([8, 8, 8, 16, 24, 64])
        spread = rng.choice([1, 3, 10])
        pool = [bytes(rng.getrandbits(8) for _ in range(size))
                for _ in range(rng.randint(1, 3))]
        n_threads = rng.choice([1, 2, 2, 2, 3, 3, 4])
        uid = [0]

        def op():
            k = rng.random()
            if k < 0.5:
                uid[0] += 1
                c = make_code(rng, size, pool, spread)
                if rng.random() < 0.3:
                    pool.append(c)
                pay = 'p%d' % uid[0] + rng.choice(['', 'x' * rng.randint(1, 40)])
                return ['append', c.hex(), pay, rng.random() < 0.5]
            if k < 0.9:
                q = make_code(rng, size, pool, spread)
                return ['search', q.hex(), rng.choice([0, 1, 1, 2, 3, 5, 20]),
                        rng.random() < 0.4, rng.random() < 0.5]
            if k < 0.95:
                return ['len']
            return ['random', rng.choice([1, 2, 3, 20]), rng.random() < 0.4,
                    rng.random() < 0.5]

        big = rng.random() < 0.15
        threads = []
        for t in range(n_threads):
            threads.append([op() for _ in range(
                rng.randint(8, 25) if big else rng.randint(1, 6))])
        pre = []
        for _ in range(rng.choice([0, 0, 1, 2, 5, 12])):
            uid[0] += 1
            pre.append(['append', make_code(rng, size, pool, spread).hex(),
                        'p%d' % uid[0], True])
        return {
            'code_size': size,
            'capacity': rng.choice([None, 1, 1, 2, 3, 4]),
            'cpus': rng.choice([1, 2, 3, 4, 8]),
            'ops': pre,
            'threads': threads,
            'opcodes': rng.random() < 0.15 and not big,
            'sched': sched_spec(rng),
        }

    def execute(self, case, res):
        from zounds.index import HammingDb
        lmdbsim.begin_run()
        buggify_capacity(case['capacity'])
        sched.FakeCpu.value = case['cpus']
        path = os.path.join(scratch(), 'db')
        entries = {}
        history = []
        clock = [0]
        active = [0]

        def tick():
            clock[0] += 1
            return clock[0]

        def do(db, who, op):
            kind = op[0]
            start = tick()
            active[0] += 1
            if active[0] > 1:
                res.probe('overlapping operations')
            try:
                if kind == 'append':
                    pay = op[2].encode()
                    e = Entry(pay, bytes.fromhex(op[1]), start)
                    entries[pay] = e
                    db.append(e.code, op[2] if op[3] else pay)
                    e.end = tick()
                    e.ok = True
                    res.note(who, start, e.end, 'append', op[2])
                elif kind == 'search':
                    r = list(db.search(
                        bytes.fromhex(op[1]), op[2], multithreaded=op[3],
                        sort=op[4]))
                    end = tick()
                    res.note(who, start, end, 'search', op[1:], r)
                    history.append((
                        start, end, bytes.fromhex(op[1]), op[2], r, op[4],
                        '%s search %s' % (who, op[1:])))
                elif kind == 'random':
                    acked = any(e.ok for e in entries.values())
                    try:
                        code, r = db.random_search(
                            op[1], multithreaded=op[2], sort=op[3])
                        r = list(r)
                    except Exception as x:
                        # an empty database has no random entry
                        if acked:
                            raise
                        res.note(who, start, 'random: nothing to draw')
                        return
                    end = tick()
                    res.note(who, start, end, 'random', op[1:], r)
                    code = bytes(code)
                    if not any(e.code == code and e.start <= end
                               for e in entries.values()):
                        raise Violation(
                            'random-code', 'random search used a code that '
                            'nobody appended')
                    history.append((
                        start, end, code, op[1], r, op[3],
                        '%s random search' % who))
                elif kind == 'len':
                    lo = sum(1 for e in entries.values() if e.ok)
                    n = len(db)
                    end = tick()
                    hi = len(entries)
                    res.note(who, start, end, 'len', n)
                    if not lo <= n <= hi:
                        raise Violation(
                            'len', 'len() gave %d, must be in [%d, %d]'
                            % (n, lo, hi))
            finally:
                active[0] -= 1

        def main(s):
            db = HammingDb(path, code_size=case['code_size'])
            for op in case['ops']:
                do(db, 'main', op)
            errors = []

            def client(i, prog):
                def run():
                    for op in prog:
                        try:
                            do(db, 'c%d' % i, op)
                        except Violation as v:
                            errors.append(v)
                            return
                        except Exception as x:
                            errors.append(Violation(
                                'operation-failed', '%s raised %s @ %s' % (
                                    op[:1] + op[2:], one_line(x), where(x)),
                                'operation-failed:' + type(x).__name__))
                            return
                return run

            ts = [s.spawn(client(i, p), 'c%d' % i)
                  for i, p in enumerate(case['threads'])]
            for t in ts:
                s.join(t)
            if errors:
                raise errors[0]
            # afterwards: everything acknowledged is there, exactly once
            n = len(entries)
            if len(db) != n:
                raise Violation(
                    'len', '%d entries after %d acknowledged appends'
                    % (len(db), n))
            for e in list(entries.values()):
                for mt in (False, True):
                    for k in sorted(set([1, n // 2, n - 1, n, n + 3])):
                        if k < 0:
                            continue
                        do(db, 'final', ['search', e.code.hex(), k, mt, True])
                if n > 12:
                    break
            db.close()

        try:
            simulate(case, res, main, opcodes=case['opcodes'],
                     max_steps=400000)
        finally:
            buggify_capacity(None)
        history.sort(key=lambda h: h[1])
        for start, end, q, n, r, sort, label in history:
            check_search(entries, q, n, r, start, end, sort, label)
        res.nontrivial = bool(res.probes.get('overlapping operations'))
        if len(case['threads']) > 1:
            res.fault('preemption', res.probes.get('context switches', 0))


CHECK = C01()
