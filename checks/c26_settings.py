"""
C26: documents are found again wherever the shipped settings put them
"""
import json
import os

import numpy as np

from sim import cloud, lmdbsim, net, sched
from sim.runner import (
    Check, Violation, sched_spec, simulate, scratch, one_line)

IDS = ['http://sounds.example/a?b=c:1&d=[x]', 'http://sounds.example/a?b=c:2',
       'a', 'A', 'aa', '0', 'x:y', 'sp ace', u'\u00fc\u4e16', 'a/../b', '-' * 60]
REGIONS = ['DFW', 'ORD', 'LON']
# closing a database for object storage deletes what is in it
KEEP = []
FEATURES = ['arr', 'info', 'samples', 'made']


def token_of(name, v):
    """which writing of a document this is from; None if it's from none"""
    if name == 'info':
        return v['token'] if v == {'token': v['token'], 'text': u'\u00fc'} \
            else None
    x = np.asarray(v)
    if not x.size:
        return None
    t = float(x[0]) - 1
    if name == 'made':
        t = (float(x[0]) - 1) / 2
        want = (t + np.arange(len(x)) % 50) * 2 + 1
    else:
        want = 1 + t + np.arange(len(x)) % 50
    return int(t) if np.array_equal(x, want.astype(x.dtype)) else None


class C26(Check):
    id = 'C26'
    runs = {'quick': 600, 'thorough': 12000}
    rule = (
        'a case is 1-4 lives of 1-2 processes each that decorate models '
        'anew with the shipped settings, on one or two LMDB directories or in '
        'memory, threads that process, read, iterate and look up documents, '
        'storage faults, and a crash or a regular end of each life; '
        'non-trivial when a document was read by another process than the one '
        'that stored it, or two models were in use')
    real = ['zounds.util.persistence', 'zounds.persistence', 'featureflow',
            'LMDB', 'requests']
    stub = ['processes (thread groups sharing one LMDB environment per path)',
            'LMDB writer lock', 'service for object storage', 'thread scheduling', 'os.urandom']
    assumptions = [
        'a process crash keeps the page cache; no power loss',
        'identifiers of the user contain no |, which the key builder uses']

    def generate(self, rng, tier):
        places = [{'kind': rng.choice(['lmdb'] * 3 + ['memory', 'object']),
                   'user': rng.random() < .5,
                   'region': rng.choice(REGIONS),
                   'account': rng.randrange(2),
                   'container': rng.choice(['sounds', 'other']),
                   'map': rng.choice([None, None, 4e6, 64 << 20, 3e9])}
                  for _ in range(rng.choice([1, 2, 2, 3]))]
        token = [0]

        def op():
            k = rng.random()
            p = rng.randrange(len(places))
            i = rng.randrange(len(IDS))
            if k < .5:
                token[0] += 1
                n = rng.choice([1, 2, 50, rng.randint(3, 3000)])
                if rng.random() < .01:
                    n = 1500000
                return ['process', p, i, token[0], n]
            if k < .8:
                return ['read', p, i, rng.choice(FEATURES)]
            if k < .9:
                return ['list', p]
            return ['exists', p, i]

        lives = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            procs = []
            for _ in range(rng.choice([1, 1, 2])):
                procs.append([[op() for _ in range(rng.randint(1, 6))]
                              for _ in range(rng.choice([1, 1, 2, 3]))])
            k = rng.random()
            lives.append({
                'procs': procs,
                'end': ['close'] if k < .4 else ['after'] if k < .6 else
                ['storage', rng.randrange(0, 60)],
                'fault': None if rng.random() < .8 else [
                    rng.choice(['map_full', 'disk', 'net']),
                    rng.choice(['put', 'put', 'begin_w', 'commit', 'get']),
                    rng.randrange(0, 12)]})
        return {'places': places, 'ops': lives, 'entropy': rng.getrandbits(30),
                'sched': sched_spec(rng)}

    def shrink(self, case):
        for i, life in enumerate(case['ops']):
            for k, v in (('end', ['close']), ('fault', None)):
                if life[k] != v:
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    yield c
            for j, proc in enumerate(life['procs']):
                if len(life['procs']) > 1:
                    c = json.loads(json.dumps(case))
                    del c['ops'][i]['procs'][j]
                    yield c
                for t, ops in enumerate(proc):
                    if len(proc) > 1:
                        c = json.loads(json.dumps(case))
                        del c['ops'][i]['procs'][j][t]
                        yield c
                    for o in range(len(ops)):
                        c = json.loads(json.dumps(case))
                        del c['ops'][i]['procs'][j][t][o]
                        yield c
        for i, p in enumerate(case['places']):
            if p['map'] is not None:
                c = json.loads(json.dumps(case))
                c['places'][i]['map'] = None
                yield c

    def model(self, place, path):
        import featureflow as ff
        import zounds
        from zounds.timeseries import AudioSamples, SR11025

        class Info(ff.Node):
            def _process(self, x):
                yield {'token': int(x[0]), 'text': u'\u00fc'}

        class Arr(ff.Node):
            def _process(self, x):
                t, n = x
                yield zounds.ArrayWithUnits(
                    1. + t + np.arange(n) % 50, [zounds.IdentityDimension()])

        class Samples(ff.Node):
            def _process(self, x):
                yield AudioSamples(np.asarray(x, dtype=np.float64), SR11025())

        class Twice(ff.Node):
            def _process(self, x):
                yield zounds.ArrayWithUnits(
                    (np.asarray(x) - 1) * 2 + 1, [zounds.IdentityDimension()])

        class Sound(ff.BaseModel):
            data = ff.PickleFeature(ff.IteratorNode, store=False)
            arr = zounds.ArrayWithUnitsFeature(Arr, needs=data, store=True)
            info = ff.JSONFeature(Info, needs=data, store=True)
            samples = zounds.AudioSamplesFeature(
                Samples, needs=arr, store=True)
            # computed from what is stored
            made = zounds.ArrayWithUnitsFeature(Twice, needs=arr, store=False)
        Sound.__module__ = __name__

        if place['kind'] == 'memory':
            decorate = zounds.simple_in_memory_settings
        elif place['kind'] == 'object':
            decorate = zounds.simple_object_storage_settings(
                place['container'], place['region'],
                'user%d' % place['account'], 'key%d' % place['account'])
        else:
            kw = {}
            if place['map'] is not None:
                kw['map_size'] = place['map']
            if place['user']:
                kw['user_supplied_id'] = True
            decorate = zounds.simple_lmdb_settings(path, **kw)
        model = decorate(Sound)
        KEEP.append(model.database)
        if (model.__name__, model.__module__) != ('Sound', __name__):
            raise Violation('name', 'the model is called %s.%s' % (
                model.__module__, model.__name__))
        return model

    def execute(self, case, res):
        base = scratch('stores')
        places = case['places']
        service = cloud.Cloud({'user0': 'key0', 'user1': 'key1'}, REGIONS)

        def box(p):
            return ('user%d' % places[p]['account'], places[p]['region'],
                    places[p]['container'])
        import featureflow as ff
        clock = [0]
        writes = []         # every attempt to store a document
        read_elsewhere = [0]
        total = [0] * len(places)

        def tick():
            clock[0] += 1
            return clock[0]

        def user(p):
            return places[p]['kind'] == 'lmdb' and places[p]['user']

        def visible(w, where):
            """does it go where someone at where would look?"""
            if places[where[0]]['kind'] == 'object':
                return places[w['p']]['kind'] == 'object' and \
                    box(w['p']) == box(where[0])
            return w['p'] == where[0] and (
                places[w['p']]['kind'] == 'lmdb' or w['proc'] == where[1])

        def candidates(where, _id, name, start, end):
            """the tokens a read may give, and whether it has to find one"""
            base_ = 'arr' if name == 'made' else name
            ws = [w for w in writes if visible(w, where) and w['start'] < end
                  and w['id'] in (_id, None)]
            done = [w for w in ws if w['ok'] and w['end'] < start]
            out = set()
            for w in ws:
                # replaced before the read began
                if any(v['start'] > (w['end'] or clock[0] + 1)
                       for v in done if v['id'] == _id):
                    continue
                if w['end'] is None or w['id'] is not None or \
                        not w['ok']:
                    out.add(w['token'])
            return out, any(w['id'] == _id for w in done), base_

        def life(n, spec):
            disk = lmdbsim.begin_run()
            errs = []
            dead = [False]
            models = {}
            opened = {}

            def on_open(kind, kw):
                opened[sched.sim_me().group] = kw.get('map_size', 10485760)
            disk.on_event = on_open

            def main(s):
                def die():
                    dead[0] = True
                    for j in range(len(spec['procs'])):
                        disk.crash('p%d' % j)
                        s.kill_group('p%d' % j)
                if spec['end'][0] == 'storage':
                    disk.plan.append({
                        'op': 'any', 'at': spec['end'][1], 'kind': 'crash',
                        'hook': die})
                refused = []

                def refuse(request, k):
                    # featureflow takes no notice of writes that fail
                    if disk.fire_enabled and spec['fault'] is not None and \
                            spec['fault'][0] == 'net' and not refused and \
                            k >= spec['fault'][2] * 3 and \
                            request.method != 'PUT':
                        refused.append(k)
                        disk.fired.append('connection refused')
                        return {'kind': 'refuse'}
                net.NET[0] = net.SimNet(service.handler, refuse)
                if spec['fault'] is not None and spec['fault'][0] != 'net':
                    disk.plan.append({
                        'op': spec['fault'][1], 'at': spec['fault'][2],
                        'kind': spec['fault'][0]})

                def proc(j):
                    def go():
                        try:
                            for p, place in enumerate(places):
                                opened.pop('p%d' % j, None)
                                models[j, p] = self.model(
                                    place, os.path.join(base, 's%d' % p))
                                want = place['map'] or 1e9
                                if place['kind'] == 'lmdb' and (
                                        opened.get('p%d' % j, 0) < want):
                                    raise Violation(
                                        'size', 'a store of %d bytes was '
                                        'asked for, it can hold %s' % (
                                            want, opened.get('p%d' % j)))
                        except Violation as e:
                            errs.append(e)
                            return
                        except Exception as e:
                            if not disk.fired:
                                errs.append(Violation(
                                    'open', 'a store cannot be opened: %s' %
                                    one_line(e)))
                            return
                        ts = [s.spawn(client(j, ops), 'p%d.%d' % (j, t),
                                      group='p%d' % j)
                              for t, ops in enumerate(spec['procs'][j])]
                        for t in ts:
                            s.join(t)
                    return go

                def client(j, ops):
                    def go():
                        try:
                            for op in ops:
                                step(j, op)
                        except Violation as e:
                            errs.append(e)
                    return go

                def step(j, op):
                    model = models[j, op[1]]
                    where = (op[1], (n, j))
                    fired = len(disk.fired)
                    try:
                        act(j, model, where, op)
                    except sched.SimKill:
                        raise
                    except Violation:
                        raise
                    except Exception as e:
                        if len(disk.fired) == fired and not dead[0]:
                            raise Violation(
                                'raised', '%s on store %d (%s) raised %s' % (
                                    op[0], op[1], places[op[1]],
                                    one_line(e)), op[0])

                def act(j, model, where, op):
                    p = op[1]
                    if op[0] == 'process':
                        if op[4] > 10 ** 6 and (
                                (places[p]['map'] or 1e9) < 6e7 or
                                total[p]):
                            op = op[:4] + [1]
                        w = {'p': p, 'proc': where[1], 'token': op[3],
                             'id': IDS[op[2]] if user(p) else None,
                             'start': tick(), 'end': None, 'ok': False}
                        writes.append(w)
                        total[p] += op[4] > 10 ** 6
                        kw = {'_id': IDS[op[2]]} if user(p) else {}
                        _id = None
                        try:
                            _id = model.process(data=[(op[3], op[4])], **kw)
                            w['ok'] = True
                        finally:
                            w['end'] = tick()
                            w['id'] = w['id'] if _id is None else _id
                        if user(p) and _id != IDS[op[2]]:
                            raise Violation('id', 'stored as %r, not as %r' % (
                                _id, IDS[op[2]]))
                        if not user(p) and any(
                                v is not w and v['id'] == _id
                                for v in writes):
                            raise Violation('id', 'two documents are %r' % _id)
                        if places[p]['kind'] == 'object' and not any(
                                _id in name
                                for name in service.objects.get(box(p), {})):
                            raise Violation('place', '%r is not in %s, but %s'
                                            % (_id, box(p), sorted(
                                                k for k, v in
                                                service.objects.items() if v)))
                    elif op[0] == 'list':
                        if places[p]['kind'] == 'object':
                            # cannot be listed
                            return
                        start = tick()
                        got = [doc._id for doc in model]
                        check_list(where, got, start, tick())
                    else:
                        _id = pick(where, op[2])
                        if op[0] == 'read':
                            check_read(model, where, _id, op[3])
                        else:
                            start = tick()
                            there = model.exists(_id)
                            may, must, _ = candidates(
                                where, _id, 'arr', start, tick())
                            if must and not there or there and not may:
                                raise Violation(
                                    'exists', 'that %r is in store %d (%s) is '
                                    'said to be %s' % (
                                        _id, p, places[p], there))

                def verify(j):
                    # everything that was stored, is there
                    for p in range(len(places)):
                        where = (p, (n, j))
                        if (j, p) not in models:
                            continue
                        if places[p]['kind'] != 'object':
                            start = tick()
                            got = [doc._id for doc in models[j, p]]
                            check_list(where, got, start, tick())
                        for _id in sorted(set(w['id'] for w in writes
                                       if visible(w, where) and w['id'])):
                            for name in FEATURES:
                                check_read(models[j, p], where, _id, name)

                ts = [s.spawn(proc(j), 'p%d' % j, group='p%d' % j)
                      for j in range(len(spec['procs']))]
                for t in ts:
                    s.join(t)
                disk.fire_enabled = False
                if not dead[0] and not errs:
                    for j in range(len(spec['procs'])):
                        t = s.spawn(
                            client_verify(verify, j), 'v%d' % j,
                            group='p%d' % j)
                        s.join(t)
                    if spec['end'][0] == 'close':
                        for m in models.values():
                            if isinstance(m.database, ff.LmdbDatabase):
                                m.database.close()
                    else:
                        die()
                for k in disk.fired:
                    res.fault(k)

            def client_verify(verify, j):
                def go():
                    try:
                        verify(j)
                    except Violation as e:
                        errs.append(e)
                    except Exception as e:
                        errs.append(Violation('verify', 'afterwards: %s' %
                                              one_line(e)))
                return go

            def pick(where, i):
                ids = sorted(set(
                    w['id'] for w in writes if visible(w, where) and w['id']))
                if user(where[0]) or not ids or i == 0:
                    # of another store, perhaps
                    return IDS[i]
                return ids[i % len(ids)]

            def check_list(where, got, start, end):
                label = 'store %d (%s)' % (where[0], places[where[0]])
                if len(set(got)) != len(got):
                    raise Violation('twice', '%s lists %r' % (
                        label, sorted(got)))
                mine = [w for w in writes if visible(w, where)]
                must = set(w['id'] for w in mine
                           if w['ok'] and w['end'] < start)
                may = set(w['id'] for w in mine if w['start'] < end)
                if must - set(got):
                    raise Violation('lost', '%s does not list %r' % (
                        label, sorted(must - set(got))))
                if None not in may and set(got) - may:
                    raise Violation('foreign', '%s lists %r' % (
                        label, sorted(set(got) - may)))

            def check_read(model, where, _id, name):
                start = tick()
                label = '%s of %r in store %d (%s)' % (
                    name, _id, where[0], places[where[0]])
                fired = len(disk.fired)
                try:
                    v = getattr(model(_id), name)
                except AttributeError as e:
                    v = None
                    error = e
                except KeyError as e:
                    v = None
                    error = e
                end = tick()
                may, must, _ = candidates(where, _id, name, start, end)
                if v is None:
                    if must and len(disk.fired) == fired and not dead[0]:
                        raise Violation('lost', '%s: %s' % (
                            label, one_line(error)))
                    return
                t = token_of(name, v)
                if t is None or t not in may:
                    raise Violation('values', '%s is from %s, expected %s' % (
                        label, t, sorted(may)))
                if any(w['token'] == t and w['proc'] != where[1]
                       for w in writes):
                    read_elsewhere[0] += 1

            simulate(case, res, main, max_steps=400000)
            lmdbsim.end_run()
            for w in writes:
                # nobody works on it any more
                if w['end'] is None:
                    w['end'] = tick()
            if errs:
                raise errs[0]
            if dead[0] and spec['end'][0] != 'close':
                res.fault('process crash')
            return dead[0]

        for n, spec in enumerate(case['ops']):
            life(n, spec)
            res.note('life', n, len(writes))
        if len(case['ops']) > 1:
            res.fault('restart', len(case['ops']) - 1)
        # somebody looks at everything, at last
        life(len(case['ops']), {
            'procs': [[[['list', p] for p in range(len(places))]]],
            'end': ['close'], 'fault': None})
        res.nontrivial = read_elsewhere[0] > 0 or len(places) > 1


CHECK = C26()
