"""
C05: a listening index indexes each document exactly once
"""
import os
import json
from collections import Counter

from sim.runner import (
    Check, Violation, sched_spec, simulate, scratch, one_line, where)
from sim import sched, lmdbsim
from checks.hdb import make_code, buggify_capacity
from checks.models import make_model, make_payload, slice_ms


class C05(Check):
    id = 'C05'
    runs = {'quick': 700, 'thorough': 10000}
    rule = (
        'a case is a set of documents computed by 1-2 producers, an indexing '
        'process with 1-5 lifetimes (each with searches, manual additions and '
        'a crash point) and a seeded interleaving; non-trivial when documents '
        'were indexed in at least two ways among: from the log, live, after '
        'a crash')
    real = ['zounds.index.HammingIndex and HammingDb', 'featureflow documents, '
            'event log and channel', 'LMDB']
    stub = ['processes (thread groups)', 'thread scheduling', 'clock',
            'document database (in memory, survives crashes)']
    assumptions = [
        'the document store and the event log outlive the indexing process']

    def generate(self, rng, tier):
        size = rng.choice([8, 8, 16])
        uid = [0]
        pool = []

        jumps_p = rng.choice([0, 0, .3])

        def doc(version):
            jumps = rng.random() < jumps_p
            uid[0] += 1
            return {
                'id': 'doc%d' % uid[0],
                'codes': [make_code(rng, size, pool, 9).hex()
                          for _ in range(rng.choice([1, 2, 3, 5]))],
                'others': [make_code(rng, size, pool, 9).hex()],
                'freq': 250, 'dur': rng.choice([250, 500]),
                'chunk': rng.choice([None, 1, 2]),
                'version': version,
                'jump': rng.choice([-3600, -5, -.01, 60]) if jumps else None}

        crashing = rng.random() < 0.75
        v1 = rng.choice([.8, .8, .4])
        n_prod = rng.choice([1, 1, 2, 3])
        threads = [[
            doc('v1' if rng.random() < v1 else 'v2')
            for _ in range(rng.randint(1, 5))] for _ in range(n_prod)]
        before = [doc('v1' if rng.random() < 0.8 else 'v2')
                  for _ in range(rng.choice([0, 0, 1, 3, 6]))]
        lives = []
        for i in range(rng.randint(1, 5) if crashing else 1):
            ops = []
            for _ in range(rng.randint(0, 3)):
                k = rng.random()
                if k < 0.4:
                    ops.append(['search', rng.choice([1, 3, 50])])
                elif k < 0.6:
                    ops.append(['add', rng.randrange(1 << 16)])
                elif k < 0.8:
                    ops.append(['wait'])
                else:
                    ops.append(['len'])
            k = rng.random()
            crash = ['close']
            if crashing:
                if k < 0.4:
                    crash = ['storage', rng.randrange(0, 40)]
                elif k < 0.8:
                    crash = ['line', rng.randrange(1, 600)]
                elif k < 0.9:
                    crash = ['end']
            lives.append({'ops': ops, 'crash': crash,
                          'wait': rng.random() < 0.5,
                          'listen': rng.choice(['ctor', 'call'])})
        return {
            'size': size, 'packed': rng.random() < 0.5,
            'before': before, 'threads': threads, 'ops': lives,
            'capacity': rng.choice([None, 1, 2]),
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for i in range(len(case['before'])):
            c = json.loads(json.dumps(case))
            del c['before'][i]
            yield c
        for i, l in enumerate(case['ops']):
            for j in range(len(l['ops'])):
                c = json.loads(json.dumps(case))
                del c['ops'][i]['ops'][j]
                yield c
            for k, v in (('crash', ['close']), ('crash', ['end']),
                         ('wait', True)):
                if l[k] != v:
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    yield c
        for i, t in enumerate(case['threads']):
            for j, d in enumerate(t):
                if len(d['codes']) > 1:
                    c = json.loads(json.dumps(case))
                    c['threads'][i][j]['codes'] = d['codes'][:-1]
                    yield c

    def execute(self, case, res):
        import featureflow as ff
        from zounds.index import HammingIndex
        disk = lmdbsim.begin_run()
        buggify_capacity(case['capacity'])
        root = scratch()
        done = {}      # id -> spec, documents whose processing returned
        started = {}
        manual = Counter()        # id -> acknowledged manual additions
        manual_maybe = Counter()  # id -> in-flight at a crash
        specs = list(case['before']) + [d for t in case['threads'] for d in t]
        flags = set()

        def unit(d, lo=True):
            """how often each of its slices may be in the index"""
            m = manual[d['id']]
            hi = m + manual_maybe[d['id']]
            if d['version'] == 'v1':
                m, hi = m + 1, hi + 1
            return m, hi

        def snapshot(index, label, final):
            n = len(index)
            if n == 0:
                got = Counter()
            else:
                q = bytes.fromhex(specs[0]['codes'][0])
                got = Counter()
                for r in index.search(q, n + 5):
                    if len(r) != 2:
                        raise Violation('result', 'unexpected result %r' % (
                            r,))
                    _id, ts = r
                    got[(_id,) + slice_ms(ts)] += 1
            want_lo, want_hi = Counter(), Counter()
            for d in (done if final else started).values():
                lo, hi = unit(d)
                for i in range(len(d['codes'])):
                    k = (d['id'], i * d['freq'], d['dur'])
                    want_lo[k] = lo
                    want_hi[k] = hi
            for k, v in sorted(got.items()):
                if v > want_hi.get(k, 0):
                    raise Violation(
                        'duplicate' if want_hi.get(k) else 'foreign',
                        '%s: %s is in the index %d times, at most %d expected'
                        % (label, k, v, want_hi.get(k, 0)))
            if final:
                for k, v in sorted(want_lo.items()):
                    if got.get(k, 0) < v:
                        raise Violation(
                            'missing', '%s: %s is in the index %d times, '
                            'expected %d' % (label, k, got.get(k, 0), v))
                for d in done.values():
                    c = set(got.get((d['id'], i * d['freq'], d['dur']), 0)
                            for i in range(len(d['codes'])))
                    if len(c) != 1:
                        raise Violation(
                            'partial', '%s: %s is partially indexed' % (
                                label, d['id']))
            res.note(label, sorted(got.items()))
            return got

        def main(s):
            kb = ff.StringDelimitedKeyBuilder()
            db = ff.InMemoryDatabase(key_builder=kb)
            channel = ff.InMemoryChannel()
            log = ff.EventLog(
                path=os.path.join(root, 'events'), channel=channel)
            models = dict((v, make_model(log, db, kb, v, case['packed']))
                          for v in ('v1', 'v2'))
            Doc = models['v1']

            def produce(d):
                if d.get('jump'):
                    s.clock_skew += d['jump']
                    res.fault('clock jump')
                started[d['id']] = d
                models[d['version']].process(
                    raw=make_payload(d, case['packed']))
                done[d['id']] = d
                res.note('computed', d['id'], d['version'])

            for d in case['before']:
                produce(d)

            prod_errors = []

            def producer(docs):
                def run():
                    try:
                        for d in docs:
                            produce(d)
                    except Exception as e:
                        prod_errors.append(e)
                return run

            producers = [s.spawn(producer(p), 'producer%d' % i, group='prod')
                         for i, p in enumerate(case['threads'])]

            def indexer(life, box):
                def run():
                    try:
                        # nothing else of the application has run yet when
                        # the first lifetime starts
                        if life['listen'] == 'ctor':
                            index = HammingIndex(
                                Doc, Doc.code, path=root, listen=True)
                        else:
                            index = HammingIndex(Doc, Doc.code, path=root)
                            index.listen()
                        box['index'] = index
                        for op in life['ops']:
                            if op[0] == 'search':
                                if len(index) == 0:
                                    continue
                                list(index.search(bytes.fromhex(
                                    specs[0]['codes'][0]), op[1]))
                                snapshot(index, 'while running', False)
                            elif op[0] == 'len':
                                len(index)
                            elif op[0] == 'wait':
                                for p in producers:
                                    s.join(p)
                            elif op[0] == 'add':
                                ids = sorted(done)
                                if not ids:
                                    continue
                                d = done[ids[op[1] % len(ids)]]
                                if d['version'] != 'v1':
                                    continue
                                manual_maybe[d['id']] += 1
                                index.add(d['id'])
                                manual_maybe[d['id']] -= 1
                                manual[d['id']] += 1
                                flags.add('manual')
                    except Exception as e:
                        box['error'] = e
                return run

            for i, life in enumerate(case['ops']):
                group = 'index%d' % i
                box = {}
                last = i == len(case['ops']) - 1

                def die(group=group):
                    box['crashed'] = True
                    disk.crash(group)
                    s.kill_group(group)

                fault = None
                if life['crash'][0] == 'storage':
                    fault = {
                        'op': 'any', 'kind': 'crash', 'hook': die,
                        'at': disk.counts.get('any', 0) + life['crash'][1],
                        'path': 'index.'}
                    disk.plan.append(fault)
                elif life['crash'][0] == 'line':
                    s.fuses[group] = [life['crash'][1], die]
                t = s.spawn(indexer(life, box), group, group=group)
                s.join(t)
                if life['wait'] and not box.get('crashed'):
                    s.quiesce()
                s.fuses.pop(group, None)
                if fault is not None:
                    fault['done'] = True
                err = box.get('error')
                if err is not None and not box.get('crashed'):
                    if isinstance(err, Violation):
                        raise err
                    raise Violation(
                        'operation-failed', '%s @ %s' % (
                            one_line(err), where(err)),
                        'operation-failed:' + type(err).__name__)
                if not box.get('crashed'):
                    res.fault('end of process')
                    die()
                else:
                    res.fault('crash at %s' % life['crash'][0])
                    flags.add('crash')
                self.check_thread_errors(s, group)

            # the faults have stopped
            for p in producers:
                s.join(p)
            if prod_errors:
                raise prod_errors[0]
            for k in range(2):
                out = {}

                def settle():
                    out['index'] = HammingIndex(
                        Doc, Doc.code, path=root, listen=True)

                group = 'final%d' % k
                s.join(s.spawn(settle, group, group=group))
                s.quiesce()
                self.check_thread_errors(s, group)
                snapshot(out['index'], 'after settling (%d)' % k, True)
                out['index'].close()
                out.clear()
                disk.crash(group)
                s.kill_group(group)

        try:
            simulate(case, res, main, max_steps=500000)
        finally:
            buggify_capacity(None)
        res.nontrivial = len(done) > 0 and (
            'crash' in flags or len(case['threads']) > 1 or
            bool(case['before']))

    @staticmethod
    def check_thread_errors(s, group):
        for t in s.threads:
            if t.group == group and t.exc is not None:
                raise Violation(
                    'listener-died', 'the listener ended with %s @ %s' % (
                        one_line(t.exc), where(t.exc)),
                    'listener-died:' + type(t.exc).__name__)


CHECK = C05()
