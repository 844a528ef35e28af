"""
C02: acknowledged Hamming database writes survive process crashes
"""
import os
import sys
import json
import random

from sim.runner import (
    Check, Violation, HarnessError, sched_spec, simulate, scratch, one_line,
    where)
from sim import sched, lmdbsim, boot
from checks.hdb import make_code, buggify_capacity, Entry, check_search


def apply(db, op):
    """one operation through the public interface"""
    if op[0] == 'append':
        db.append(bytes.fromhex(op[1]), op[2].encode() if op[3] else op[2])
    elif op[0] == 'meta':
        db.set_metadata(op[1].encode(), op[2].encode())
    elif op[0] == 'search':
        return [bytes(x) for x in db.search(
            bytes.fromhex(op[1]), op[2], multithreaded=op[3])]
    elif op[0] == 'len':
        return len(db)


class C02(Check):
    id = 'C02'
    runs = {'quick': 700, 'thorough': 12000}
    rule = (
        'a case is a sequence of process lifetimes, each with its operations '
        'and a crash point (a storage operation, a code line or a clean '
        'close); non-trivial when at least one crash hit a live process')
    real = ['zounds.index.HammingDb', 'LMDB files']
    stub = ['process (thread group killed, in-flight transactions rolled '
            'back) in simulated lifetimes; real forked and killed processes '
            'in the others', 'thread scheduling']
    assumptions = ['a process crash keeps the page cache; no power loss']

    def generate(self, rng, tier):
        size = rng.choice([8, 8, 16, 24])
        pool = [bytes(rng.getrandbits(8) for _ in range(size))
                for _ in range(2)]
        uid = [0]

        def op():
            k = rng.random()
            if k < 0.6:
                uid[0] += 1
                return ['append', make_code(rng, size, pool, 3).hex(),
                        'p%d' % uid[0] + 'y' * rng.choice([0, 0, 7, 900]),
                        rng.random() < 0.5]
            if k < 0.8:
                uid[0] += 1
                return ['meta', rng.choice(['a', 'timestamp', 'b']),
                        'm%d' % uid[0]]
            if k < 0.95:
                return ['search', make_code(rng, size, pool, 3).hex(),
                        rng.choice([1, 2, 50]), rng.random() < 0.3]
            return ['len']

        lives = []
        for _ in range(rng.randint(1, 5)):
            ops = [op() for _ in range(rng.randint(0, 7))]
            k = rng.random()
            if k < 0.35:
                crash = ['storage', rng.randrange(0, 8 + 6 * len(ops))]
            elif k < 0.75:
                crash = ['line', rng.randrange(1, 60 + 40 * len(ops))]
            elif k < 0.9:
                crash = ['after']
            else:
                crash = ['close']
            lives.append({
                'ops': ops, 'crash': crash,
                'mode': 'real' if rng.random() < 0.2 else 'sim',
                'open': rng.choice(['size', 'size', 'none', 'wrong']),
                'writeonly': rng.random() < 0.15,
                'threads': rng.choice([1, 1, 2])})
        return {
            'code_size': size,
            'wrong_size': rng.choice([s for s in (8, 16, 24) if s != size]),
            'capacity': rng.choice([None, 1, 2]),
            'ops': lives,
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for i, l in enumerate(case['ops']):
            for j in range(len(l['ops'])):
                c = json.loads(json.dumps(case))
                del c['ops'][i]['ops'][j]
                yield c
            for k, v in (('threads', 1), ('mode', 'sim'), ('open', 'size'),
                         ('crash', ['close']), ('crash', ['after'])):
                if l[k] != v:
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    yield c

    # -- the two kinds of process ---------------------------------------------

    def sim_life(self, case, res, path, life, start, end):
        """returns True if the process crashed"""
        from zounds.index import HammingDb
        disk = lmdbsim.begin_run()
        out = {'crashed': False, 'error': None, 'opened': False}
        shared = {}

        def main(s):
            def die():
                out['crashed'] = True
                disk.crash('proc')
                s.kill_group('proc')

            if life['crash'][0] == 'storage':
                disk.plan.append({
                    'op': 'any', 'at': life['crash'][1], 'kind': 'crash',
                    'hook': die})
            elif life['crash'][0] == 'line':
                s.fuses['proc'] = [life['crash'][1], die]

            def proc():
                try:
                    shared['db'] = self.open(HammingDb, case, life, path)
                    out['opened'] = True
                    self.verify_open(shared['db'], case)
                    ops = life['ops']
                    k = life['threads']
                    if k == 1:
                        client(ops)
                    else:
                        ts = [s.spawn(lambda part=ops[i::k]: client(part),
                                      group='proc') for i in range(k)]
                        for t in ts:
                            s.join(t)
                    if life['crash'][0] == 'close':
                        shared['db'].close()
                except Exception as e:
                    out['error'] = e

            def client(ops):
                try:
                    for op in ops:
                        start(op)
                        r = apply(shared['db'], op)
                        end(op, r)
                except Exception as e:
                    out['error'] = e

            t = s.spawn(proc, 'proc', group='proc')
            s.join(t)
            s.fuses.clear()
            disk.fire_enabled = False
            if not out['crashed'] and life['crash'][0] != 'close':
                # it dies after its last operation
                disk.crash('proc')
                s.kill_group('proc')
                out['crashed'] = True

        simulate(case, res, main, max_steps=300000)
        shared.clear()
        lmdbsim.end_run()
        if out['error'] is not None and not out['crashed']:
            raise out['error']
        if isinstance(out['error'], Violation):
            raise out['error']
        return out['crashed']

    def real_life(self, case, res, path, life, start, end):
        """a real process, really killed"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self.child(case, life, path, w, res.probes['lives'])
            finally:
                os._exit(97)
        os.close(w)
        buf = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        for l in buf.decode().split('\n'):
            if not l:
                continue
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m[0] == 's':
                start(life['ops'][m[1]])
            elif m[0] == 'e':
                end(life['ops'][m[1]], m[2])
            elif m[0] == 'x':
                raise Violation('exception', m[1], 'exception:' + m[1])
            elif m[0] == 'v':
                raise Violation(m[1], m[2])
        code = os.waitstatus_to_exitcode(status)
        if code not in (0, 42):
            raise HarnessError('child ended with %s' % code)
        return code == 42

    def child(self, case, life, path, w, n):
        from zounds.index import HammingDb
        # every process has entropy of its own
        sched.GLOBAL_ENTROPY[0] = random.Random(
            'child:%s:%d' % (case['entropy'], n))

        def send(m):
            os.write(w, (json.dumps(m) + '\n').encode())

        left = [life['crash'][1] if len(life['crash']) > 1 else -1]

        def on_line():
            if left[0] > 0:
                left[0] -= 1
                if left[0] == 0:
                    os._exit(42)

        if life['crash'][0] in ('line', 'storage'):
            sched.LINE_HOOK[0] = on_line
        try:
            db = self.open(HammingDb, case, life, path)
            self.verify_open(db, case)
            for i, op in enumerate(life['ops']):
                send(['s', i])
                r = apply(db, op)
                if op[0] == 'search':
                    r = [x.decode() for x in r]
                send(['e', i, r])
        except Violation as v:
            send(['v', v.kind, v.msg])
        except Exception as e:
            send(['x', one_line(e) + ' @ ' + where(e)])
        sched.LINE_HOOK[0] = None
        if life['crash'][0] == 'close':
            db.close()
            os._exit(0)
        os._exit(42)

    def open(self, HammingDb, case, life, path):
        size = case['code_size']
        how = life['open']
        if how == 'wrong':
            try:
                db = HammingDb(path, code_size=case['wrong_size'])
            except ValueError:
                pass
            else:
                if self.created:
                    raise Violation(
                        'code-size', 'opened with code size %d, but the '
                        'database was created with %d' % (
                            case['wrong_size'], size))
                # a new database: the wrong size is the right one; start over
                db.close()
                raise Skip()
        if how == 'none':
            try:
                return HammingDb(
                    path, code_size=None, writeonly=life['writeonly'])
            except ValueError:
                if self.created:
                    raise
        return HammingDb(path, code_size=size, writeonly=life['writeonly'])

    def verify_open(self, db, case):
        if db.code_size != case['code_size']:
            raise Violation('code-size', 'code size %r after opening, created '
                            'with %r' % (db.code_size, case['code_size']))
        try:
            db.append(b'\x00' * (case['code_size'] + 8), b'bad')
        except ValueError:
            return
        raise Violation('code-size', 'a code of the wrong size was accepted')

    # -- the history ----------------------------------------------------------

    def execute(self, case, res):
        from zounds.index import HammingDb
        buggify_capacity(case['capacity'])
        path = os.path.join(scratch(), 'db')
        entries = {}
        meta = {}       # key -> acknowledged value
        meta_maybe = {}  # key -> set of possible values
        clock = [0]
        self.created = False
        crashes = 0
        try:
            for n, life in enumerate(case['ops']):
                if not self.created and life['open'] != 'size':
                    life = dict(life, open='size')
                inflight = []
                res.probe('lives')

                def start(op):
                    clock[0] += 1
                    if op[0] == 'append':
                        e = Entry(op[2].encode(), bytes.fromhex(op[1]),
                                  clock[0])
                        entries[e.payload] = e
                    elif op[0] == 'meta':
                        meta_maybe.setdefault(
                            op[1], set([meta.get(op[1])])).add(op[2])
                        inflight.append(op)
                    elif op[0] == 'search':
                        inflight.append([op, clock[0]])

                def end(op, r):
                    clock[0] += 1
                    self.created = True
                    if op[0] == 'append':
                        e = entries[op[2].encode()]
                        e.ok = True
                        e.end = clock[0]
                    elif op[0] == 'meta':
                        meta[op[1]] = op[2]
                        inflight.remove(op)
                        if not any(x[0] == 'meta' and x[1] == op[1]
                                   for x in inflight
                                   if isinstance(x[0], str)):
                            if life['threads'] == 1:
                                meta_maybe[op[1]] = set([op[2]])
                    elif op[0] == 'search':
                        s = [x for x in inflight if x[0] is op][0]
                        inflight.remove(s)
                        check_search(
                            entries, bytes.fromhex(op[1]), op[2],
                            [x.encode() if isinstance(x, str) else x
                             for x in r], s[1], clock[0],
                            False, 'search in life %d' % n)

                if life['writeonly']:
                    life = dict(life, ops=[
                        o for o in life['ops'] if o[0] != 'search'])
                run = self.real_life if life['mode'] == 'real' \
                    else self.sim_life
                crashed = run(case, res, path, life, start, end)
                if crashed:
                    crashes += 1
                    res.fault('crash: %s (%s)' % (
                        life['crash'][0], life['mode']))
                res.note('life', n, life['mode'], life['crash'],
                         'crashed' if crashed else 'closed')
                lmdbsim.begin_run()
                simulate(
                    case, res,
                    lambda s: self.inspect(
                        case, path, entries, meta, meta_maybe, clock, n, res),
                    max_steps=300000, quiet=True)
                lmdbsim.end_run()
        finally:
            buggify_capacity(None)
        res.nontrivial = crashes > 0

    def inspect(self, case, path, entries, meta, meta_maybe, clock, n, res):
        """restart, and look at everything there is"""
        from zounds.index import HammingDb
        if self.created:
            db = HammingDb(path, code_size=None)
        else:
            # creation may have been cut short
            db = HammingDb(path, code_size=case['code_size'])
        self.created = True
        if db.code_size != case['code_size']:
            raise Violation(
                'code-size', 'code size is %r after restart, was %r' % (
                    db.code_size, case['code_size']))
        total = len(db)
        acked = [e for e in entries.values() if e.ok]
        clock[0] += 1
        start = clock[0]
        first = (acked or list(entries.values()) or [None])[0]
        q = first.code if first else b'\0' * case['code_size']
        found = [bytes(x) for x in db.search(q, total + 5, sort=True)]
        clock[0] += 1
        # an append in flight at the crash is either there or not, for good
        check_search(entries, q, total + 5, found, start, clock[0], True,
                     'restart after life %d' % n)
        if len(found) != total:
            raise Violation('len', 'length %d but %d entries found' % (
                total, len(found)))
        for e in entries.values():
            if e.payload in found:
                if not e.ok:
                    res.probe('in-flight append survived')
                e.ok = True
                e.end = e.end or clock[0]
            elif not e.ok:
                if e.ok is None:
                    res.probe('in-flight append gone')
                e.ok = False
        for e in [e for e in entries.values() if e.ok][:8]:
            clock[0] += 1
            st = clock[0]
            r = [bytes(x) for x in db.search(e.code, 2, sort=True)]
            clock[0] += 1
            check_search(entries, e.code, 2, r, st, clock[0], True,
                         'search after restart')
        for k in set(meta) | set(meta_maybe):
            v = db.get_metadata(k.encode())
            v = None if v is None else bytes(v).decode()
            may = meta_maybe.get(k, set([meta.get(k)]))
            if v not in may:
                raise Violation(
                    'metadata', 'metadata %s is %r after restart, must be '
                    'one of %r' % (k, v, sorted(map(str, may))))
            meta[k] = v
            meta_maybe[k] = set([v])
        for bad in (case['wrong_size'],):
            try:
                d2 = HammingDb(path, code_size=bad)
            except ValueError:
                continue
            raise Violation('code-size', 'opened with code size %d' % bad)
        if len(db) != total or db.code_size != case['code_size']:
            raise Violation('code-size', 'refusing a wrong code size changed '
                            'the database')
        res.note('inspect', total, sorted(
            (k, v) for k, v in meta.items() if v))
        db.close()


class Skip(Exception):
    pass


CHECK = C02()
