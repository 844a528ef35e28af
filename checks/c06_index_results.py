"""
C06: results of an index identify the right document, slice and extra data
"""
import os
import json
from collections import Counter

import numpy as np

from sim.runner import (
    Check, Violation, sched_spec, simulate, scratch, one_line, where)
from sim import sched, lmdbsim
from checks.hdb import make_code, buggify_capacity, popcount_distance
from checks.models import make_model, make_payload, slice_ms


class Injected(IOError):
    pass


class FaultyReads(object):
    """the document store; reads of one document's feature fail on demand"""

    def __init__(self, db):
        self.db = db
        self.fail = set()
        self.fired = 0

    def __getattr__(self, k):
        return getattr(self.db, k)

    def __contains__(self, k):
        return k in self.db

    def __iter__(self):
        return iter(self.db)

    def read_stream(self, key):
        for f in self.fail:
            if f in str(key):
                self.fired += 1
                raise Injected('injected: read of ' + f)
        return self.db.read_stream(key)


class Snap(object):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class C06(Check):
    id = 'C06'
    runs = {'quick': 900, 'thorough': 12000}
    rule = (
        'a case is a set of documents, 1-3 threads that add them to one or '
        'two indexes and search (all query forms), reads that fail, and '
        'restarts; non-trivial when searches overlapped additions, an '
        'addition failed or the index was reopened')
    real = ['zounds.index.HammingIndex, HammingDb and brute force search',
            'featureflow documents', 'LMDB']
    stub = ['thread scheduling', 'processes (thread groups)',
            'document database (in memory, with read faults)']
    assumptions = [
        'the document store itself is consistent',
        'documents of one index have codes of one size']

    def generate(self, rng, tier):
        size = rng.choice([8, 8, 16, 24])
        pool = []
        n_docs = rng.randint(1, 6)
        variable = rng.random() < 0.2
        docs = []
        for i in range(n_docs):
            freq = rng.choice([100, 250, 93])
            docs.append({
                'id': rng.choice(['doc%d', 'a b/%d', 'd%d_x', 'üni%d']) % i,
                'codes': [make_code(rng, size, pool, 9).hex()
                          for _ in range(rng.choice([1, 2, 3, 6]))],
                'others': [make_code(rng, size, pool, 9).hex()
                           for _ in range(rng.choice([1, 2]))],
                'freq': freq, 'dur': rng.choice([freq, 2 * freq]),
                'chunk': rng.choice([None, 1, 2])})
            pool.extend(bytes.fromhex(c) for c in docs[-1]['codes'])

        def op():
            k = rng.random()
            if k < 0.4:
                return ['add', rng.randrange(n_docs), rng.choice([0, 0, 0, 1])]
            if k < 0.85:
                return ['search', rng.randrange(3), rng.randrange(n_docs),
                        rng.randrange(8), rng.randrange(4),
                        rng.choice([1, 2, 3, 100, 100]), rng.random() < 0.3,
                        rng.random() < 0.5, rng.random() < 0.3,
                        make_code(rng, size, pool, 5).hex()]
            if k < 0.95:
                return ['random', rng.randrange(2),
                        rng.choice([1, 2, 100]), rng.random() < 0.3]
            return ['len', rng.randrange(3)]

        phases = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            phases.append([
                [op() for _ in range(rng.randint(1, 6))]
                for _ in range(rng.choice([1, 2, 2, 3]))])
        return {
            'size': size, 'packed': rng.random() < 0.5,
            'variable': variable, 'docs': docs, 'phases': phases,
            'extra': rng.choice(['none', 'none', 'id', 'both']),
            'fail': rng.choice([None, None, rng.randrange(n_docs)]),
            'fail_extra': rng.random() < 0.3,
            'add_all': rng.random() < 0.3,
            'version': rng.choice([None, None, 'one', '2020.1']),
            'capacity': rng.choice([None, 1, 2, 3]),
            'cpus': rng.choice([1, 2, 4]),
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for p in range(len(case['phases'])):
            c = json.loads(json.dumps(case))
            del c['phases'][p]
            if c['phases']:
                yield c
            for t in range(len(case['phases'][p])):
                c = json.loads(json.dumps(case))
                del c['phases'][p][t]
                if c['phases'][p]:
                    yield c
                for o in range(len(case['phases'][p][t])):
                    c = json.loads(json.dumps(case))
                    del c['phases'][p][t][o]
                    yield c
        for k, v in (('fail', None), ('add_all', False), ('variable', False),
                     ('extra', 'none'), ('cpus', 1), ('capacity', None)):
            if case[k] != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})

    def execute(self, case, res):
        import featureflow as ff
        from zounds.index import HammingIndex
        from zounds.index.index import SearchResults
        disk = lmdbsim.begin_run()
        buggify_capacity(case['capacity'])
        sched.FakeCpu.value = case['cpus']
        root = scratch()
        docs = case['docs']
        # per index (0: code, 1: other), per document: [completed, started]
        done = [Counter(), Counter()]
        begun = [Counter(), Counter()]
        failed = [Counter(), Counter()]
        flags = set()
        active = [0]
        err = []
        opened = {}

        def slices(which, d):
            out = []
            for i, h in enumerate(d['codes' if which == 0 else 'others']):
                out.append(((d['id'], i * d['freq'], d['dur']),
                            bytes.fromhex(h)))
            return out

        code_of = [{}, {}]
        for w in (0, 1):
            for d in docs:
                code_of[w].update(dict(slices(w, d)))
        ordinal = dict((d['id'], i) for i, d in enumerate(docs))

        def form(code, how):
            bits = np.unpackbits(np.frombuffer(code, dtype=np.uint8))
            if how == 0:
                return code
            if how == 1:
                return bits
            if how == 2:
                return bits.astype(bool)
            return np.frombuffer(code, dtype=np.uint64)

        def extra_check(r, key):
            want = None
            if case['extra'] == 'id':
                want = {'who': '<%s>' % key[0]}
            elif case['extra'] == 'both':
                d = docs[ordinal[key[0]]]
                want = {'who': '<%s>' % key[0],
                        'tail': [key[1], d['others'][0]]}
            if want is None:
                if len(r) != 2:
                    raise Violation('result', 'unexpected result %r' % (r,))
                return
            if len(r) != 3:
                raise Violation(
                    'extra-data', 'no extra data in a result: %r' % (r,))
            if r[2] != want:
                raise Violation(
                    'extra-data', 'extra data of %s is %r, expected %r' % (
                        key, r[2], want))

        def judge(which, code, n, got, sort, lo, hi, label, seen_all):
            """lo, hi: per document how often it is/may be in the index"""
            keys = []
            for r in got:
                key = (r[0],) + slice_ms(r[1])
                if key not in code_of[which]:
                    raise Violation(
                        'foreign', '%s: result %s is no slice of any '
                        'document' % (label, key))
                extra_check(r, key)
                keys.append(key)
            c = Counter(keys)
            for k, v in sorted(c.items()):
                if v > hi[k[0]]:
                    raise Violation(
                        'duplicate', '%s: %s returned %d times, it was added '
                        '%d times' % (label, k, v, hi[k[0]]))
            total = sum(lo[k[0]] for k in code_of[which])
            if len(keys) < min(n, total):
                raise Violation(
                    'too-few', '%s: %d results of %d, the index holds at '
                    'least %d' % (label, len(keys), n, total))
            if len(keys) > n:
                raise Violation('too-many', '%s: %d results' % (
                    label, len(keys)))
            dist = [popcount_distance(code, code_of[which][k]) for k in keys]
            if sort and dist != sorted(dist):
                raise Violation('order', '%s: distances %s' % (label, dist))
            for k, h in sorted(code_of[which].items()):
                if lo[k[0]] > c[k] and dist and \
                        popcount_distance(code, h) < max(dist):
                    raise Violation(
                        'not-nearest', '%s: %s at distance %d was left out '
                        'for one at %d' % (
                            label, k, popcount_distance(code, h), max(dist)))
            if n >= seen_all:
                for k in sorted(code_of[which]):
                    if c[k] < lo[k[0]]:
                        raise Violation(
                            'missing', '%s: %s is returned %d times, it was '
                            'added %d times' % (label, k, c[k], lo[k[0]]))

        def main(s):
            db = FaultyReads(ff.InMemoryDatabase(
                key_builder=ff.StringDelimitedKeyBuilder()))
            Doc = make_model(
                None, db, db.key_builder, 'v1', case['packed'],
                variable=case['variable'])
            for d in docs:
                Doc.process(raw=make_payload(
                    d, case['packed'], variable=case['variable']))
            funcs = {}

            def who(doc, ts):
                return '<%s>' % doc._id

            def tail(doc, ts):
                a = np.asarray(doc.tail)[0]
                h = a.tobytes() if case['packed'] else \
                    np.packbits(a).tobytes()
                return [slice_ms(ts)[0], h.hex()]

            if case['extra'] in ('id', 'both'):
                funcs['who'] = who
            if case['extra'] == 'both':
                funcs['tail'] = tail

            def index(which, where_=root):
                return HammingIndex(
                    Doc, Doc.code if which == 0 else Doc.other, path=where_,
                    version=case.get('version'), **funcs)

            def add(ix, which, d):
                begun[which][d['id']] += 1
                try:
                    ix.add(d['id'])
                except Injected:
                    failed[which][d['id']] += 1
                    begun[which][d['id']] -= 1
                    res.fault('read of a document failed')
                    flags.add('failed')
                    return
                done[which][d['id']] += 1

            def search(ix, which, op, label):
                if op[0] == 'random':
                    n, sort = op[2], op[3]
                    lo = Counter(done[which])
                    if not sum(lo.values()):
                        return
                    r = ix.random_search(n, sort=sort)
                    got = list(r)
                    hi = Counter(begun[which])
                    code = r.query
                    if not any(code == h and hi[k[0]]
                               for k, h in code_of[which].items()):
                        raise Violation(
                            'random-code', 'random search used a code that '
                            'is not in the index')
                else:
                    (_, _, di, ci, how, n, multi, sort, lazy, other) = op
                    d = docs[di % len(docs)]
                    mine = d['codes' if which == 0 else 'others']
                    code = bytes.fromhex(
                        mine[ci % len(mine)] if ci < 5 else other)
                    lo = Counter(done[which])
                    if not sum(lo.values()):
                        return
                    r = ix.search(form(code, how), n, multi, sort)
                    if bytes(r.query) != code:
                        raise Violation(
                            'query', 'the query of the results is %r, '
                            'expected %r' % (r.query, code))
                    bits = np.unpackbits(np.frombuffer(code, dtype=np.uint8))
                    if not np.array_equal(ix.decode_query(r.query), bits):
                        raise Violation(
                            'query', 'decode_query does not give the bits of '
                            'the query')
                    got = []
                    for x in r:
                        got.append(x)
                        if lazy:
                            s.yield_point('lazy')
                    hi = Counter(begun[which])
                res.note(label, sorted(
                    (g[0],) + slice_ms(g[1]) for g in got))
                judge(which, code, n, got, sort, lo, hi, label,
                      sum(hi[k[0]] for k in code_of[which]))

            def program(ops, ixs, name):
                def run():
                    try:
                        for j, op in enumerate(ops):
                            label = '%s.%d %s' % (name, j, op[:8])
                            active[0] += 1
                            if active[0] > 1:
                                flags.add('overlap')
                                res.probe('overlapping operations')
                            if op[0] == 'add':
                                add(ixs[op[2]], op[2],
                                    docs[op[1] % len(docs)])
                            elif op[0] == 'len':
                                w = op[1] % 2
                                lo = sum(done[w][k[0]] for k in code_of[w])
                                n = len(ixs[w])
                                hi = sum(begun[w][k[0]] for k in code_of[w])
                                if not lo <= n <= hi:
                                    raise Violation(
                                        'len', '%s: %d, not in [%d, %d]' % (
                                            label, n, lo, hi))
                            else:
                                w = 1 if op[1] == 1 else 0
                                ix = ixs[2] if op[1] == 2 else ixs[w]
                                search(ix, w, op, label)
                            active[0] -= 1
                    except Exception as e:
                        err.append(e)
                return run

            def second(box):
                # another process has the same index open
                try:
                    box['ix'] = index(0)
                except Exception as e:
                    err.append(e)

            for p, threads in enumerate(case['phases']):
                group = 'phase%d' % p
                box = {}

                def life(threads=threads, box=box, p=p):
                    try:
                        ixs = {0: index(0), 1: index(1), 2: box['ix']}
                        ts = [s.spawn(program(t, ixs, 'p%dt%d' % (p, i)),
                                      'p%dt%d' % (p, i))
                              for i, t in enumerate(threads)]
                        for t in ts:
                            s.join(t)
                    except Exception as e:
                        err.append(e)

                if case['fail'] is not None and p == 0:
                    db.fail.add(docs[case['fail'] % len(docs)]['id'] + (
                        ':tail' if case['fail_extra'] else ''))
                else:
                    db.fail.clear()
                s.join(s.spawn(lambda: second(box), 'second',
                               group='second%d' % p))
                s.join(s.spawn(life, group, group=group))
                if err:
                    raise err[0]
                for g in (group, 'second%d' % p):
                    disk.crash(g)
                    s.kill_group(g)
                if p:
                    flags.add('reopened')
                    res.fault('restart')
            db.fail.clear()

            # what is there in the end, seen by a fresh process
            for w in (0, 1):
                total = sum(done[w][k[0]] for k in code_of[w])
                ix = index(w)
                if len(ix) != total:
                    raise Violation(
                        'len', '%d entries in the end, expected %d' % (
                            len(ix), total))
                if total:
                    for k, code in sorted(code_of[w].items()):
                        for n in sorted(set([1, total])):
                            got = list(ix.search(code, n, sort=True))
                            judge(w, code, n, got, True, done[w], done[w],
                                  'final search', total)
                ix.close()
            if case.get('version'):
                self.twin(HammingIndex(
                    Doc, Doc.code, path=root, version='other', **funcs), docs)
                ix = index(0)
                total = sum(done[0][k[0]] for k in code_of[0])
                if len(ix) != total:
                    raise Violation(
                        'version', 'indexes of two versions of one feature '
                        'share their entries')
                ix.close()
            if case['add_all']:
                fresh = index(0, scratch('fresh'))
                fresh.add_all()
                total = len(code_of[0])
                once = Counter(d['id'] for d in docs)
                for k, code in sorted(code_of[0].items())[:4]:
                    got = list(fresh.search(code, total, sort=True))
                    judge(0, code, total, got, True, once, once,
                          'after add_all', total)
                fresh.close()
                if case['packed'] and not case['variable']:
                    self.brute(Doc, docs, code_of, s)

        try:
            simulate(case, res, main, max_steps=600000)
        finally:
            buggify_capacity(None)
        res.nontrivial = bool(flags)

    @staticmethod
    def twin(ix, docs):
        # another version of the same index, in the same place
        if len(ix):
            raise Violation('version', 'an index of another version already '
                            'has %d entries' % len(ix))
        ix.add(docs[0]['id'])
        if len(ix) != len(docs[0]['codes']):
            raise Violation('version', '%d entries in the index of another '
                            'version, expected %d' % (
                                len(ix), len(docs[0]['codes'])))
        ix.close()

    def brute(self, Doc, docs, code_of, s):
        from zounds.index import HammingDistanceBruteForceSearch
        bf = HammingDistanceBruteForceSearch(
            (d['id'], Doc(d['id']).code) for d in docs)
        total = len(code_of[0])
        for k, code in sorted(code_of[0].items())[:4]:
            for n in (1, total):
                got = list(bf.search(np.frombuffer(code, dtype=np.uint64), n))
                keys = [(r[0],) + slice_ms(r[1]) for r in got]
                if len(keys) != n or len(set(keys)) != n:
                    raise Violation(
                        'brute-force', 'brute force search gave %s' % (keys,))
                want = sorted(popcount_distance(code, h)
                              for h in code_of[0].values())[:n]
                have = [popcount_distance(code, code_of[0][x]) for x in keys]
                if have != want:
                    raise Violation(
                        'brute-force', 'brute force distances %s, expected '
                        '%s' % (have, want))


CHECK = C06()
