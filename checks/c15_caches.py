"""
C15: interrupted downloads are never served from the cache
"""
import gzip
import json
import os
import random

from sim import fs, net, sched
from sim.runner import Check, Violation, sched_spec, simulate, one_line, \
    scratch

NET = ['refuse', 'status', 'reset', 'timeout', 'short', 'stall']
DISK = ['fsync', 'open', 'write', 'write', 'write', 'close', 'full', 'short']
VARIANTS = ['plain', 'plain', 'plain', 'no length', 'gzip', 'redirect']


class C15(Check):
    id = 'C15'
    runs = {'quick': 900, 'thorough': 25000}
    rule = (
        'a case is up to four remote files, and rounds of up to three '
        'processes using the cache at the same time, each with faults in the '
        'network or on the disk, or crashed at any point, and an interleaving '
        'of them; non-trivial when a fault or a crash hit a download')
    real = ['zounds.datasets.cache', 'zounds.datasets.util',
            'requests and urllib3 above the connection', 'files on disk']
    stub = ['network connections', 'writing to files (faults, short writes; '
            'nothing survives in the buffers of a crashed process)',
            'processes', 'thread scheduling']
    assumptions = [
        'a process crash keeps what was handed to the operating system; no '
        'power loss',
        'remote files kept in one directory by ensure_local_file have '
        'different names']

    def generate(self, rng, tier):
        n = rng.choice([1, 1, 2, 3, 4] * 4 + [rng.randint(5, 40)])
        files = [{
            'size': rng.choice([0, 1, rng.randint(2, 4000),
                                rng.randint(4000, 30000)] if n < 5 else
                               [rng.randint(1, 200)]),
            'variant': rng.choice(VARIANTS),
            'params': rng.random() < .2,
            'seed': rng.getrandbits(16)} for _ in range(n)]
        rounds = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            users = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.random()
                if k < .25:
                    f = None
                elif k < .55:
                    f = {'where': 'net', 'kind': rng.choice(NET),
                         'nth': rng.randint(1, n + 1), 'at': rng.random(),
                         'status': rng.choice([403, 404, 429, 500, 503])}
                elif k < .75:
                    f = {'where': 'disk', 'kind': rng.choice(DISK),
                         'nth': rng.choice([1, 2, rng.randint(1, 12)])}
                else:
                    f = {'where': rng.choice(['crash', 'crash', 'power']),
                         'nth': rng.choice([rng.randint(1, 60),
                                            rng.randint(1, 400)])}
                users.append({'fault': f,
                              'order': rng.getrandbits(16)})
            rounds.append(users)
        return {
            'ops': rounds, 'files': files,
            'kind': rng.choice(['dataset', 'local']),
            'directory': rng.random() < .5,
            'chunk': rng.choice([64, 1000, 4096]),
            'sseed': rng.getrandbits(20),
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for i in range(len(case['files'])):
            if len(case['files']) > 1:
                c = json.loads(json.dumps(case))
                del c['files'][i]
                yield c
        for i, us in enumerate(case['ops']):
            for j in range(len(us)):
                if len(us) > 1:
                    c = json.loads(json.dumps(case))
                    del c['ops'][i][j]
                    yield c
                if us[j]['fault'] is not None:
                    c = json.loads(json.dumps(case))
                    c['ops'][i][j]['fault'] = None
                    yield c
        for i, f in enumerate(case['files']):
            for k, v in (('size', 100), ('variant', 'plain'),
                         ('params', False)):
                if f[k] != v and not (k == 'size' and f[k] < 100):
                    c = json.loads(json.dumps(case))
                    c['files'][i][k] = v
                    yield c

    def execute(self, case, res):
        import requests
        from zounds.datasets.cache import DataSetCache
        from zounds.datasets.util import ensure_local_file
        files = case['files']
        n = len(files)
        base = scratch('cache')
        local = case['kind'] == 'local'
        path = os.path.join(base, 'files')
        if case['directory'] or local:
            os.mkdir(path)
        fs.ROOT[0] = base
        content = [random.Random(f['seed']).randbytes(f['size'])
                   for f in files]
        faults = {}     # thread id -> fault

        def url(i):
            if files[i]['params'] and not local:
                return 'http://data.example/get', {'file': str(i)}
            return 'http://data.example/%d/file%d.bin' % (i, i), {}

        def which(u):
            u = u.split('/moved', 1)[0]
            if '?' in u:
                return int(u.split('file=')[1])
            return int(u.split('/')[3])

        asked = []

        def handler(r):
            i = which(r.url)
            f = files[i]
            if f['variant'] == 'redirect' and not r.url.endswith('/moved'):
                if '?' not in r.url:
                    return 302, {'Location': r.url + '/moved'}, b''
            asked.append(i)
            body = content[i]
            if f['variant'] == 'gzip':
                return 200, {'Content-Encoding': 'gzip',
                             'Content-Length': str(len(gzip.compress(
                                 body, mtime=0)))}, gzip.compress(
                                     body, mtime=0)
            if f['variant'] == 'no length':
                return 200, {'Content-Length': None}, body
            return 200, {}, body

        def net_fault(r, k):
            f = faults.get(sched.sim_me().tid)
            if f is None or f['where'] != 'net':
                return None
            f['left'] -= 1
            if f['left'] != 0:
                return None
            i = which(r.url)
            if f['kind'] == 'short' and files[i]['variant'] == 'no length':
                # nothing tells that this is not all of it
                return None
            size = len(content[i])
            at = int(f['at'] * size)
            if f['kind'] in ('reset', 'timeout', 'short') and (
                    at >= size or files[i]['variant'] == 'redirect' and
                    not r.url.endswith('/moved')):
                return None
            if files[i]['variant'] == 'gzip':
                at = min(at, 15)
            f['hit'] = f['kind'] != 'stall'
            return {'kind': f['kind'], 'at': at, 'status': f['status']}

        def disk_fault(op, p):
            f = faults.get(sched.sim_me().tid)
            if f is None or f['where'] != 'disk':
                return None
            if f['kind'] == 'full':
                if op == 'write':
                    f['left'] -= 1
                    if f['left'] == 1:
                        return 7
                    if f['left'] <= 0:
                        res.fault('disk full')
                        f['hit'] = True
                        raise fs.no_space()
            elif f['kind'] == 'short':
                if op == 'write':
                    f['left'] -= 1
                    if f['left'] >= 0:
                        res.fault('short write')
                        return 1 + f['left'] * 37
            elif op == f['kind']:
                f['left'] -= 1
                if f['left'] == 0:
                    res.fault('disk error on ' + op)
                    f['hit'] = True
                    raise fs.io_error()

        fs.PLAN[0] = disk_fault
        simnet = net.NET[0] = net.SimNet(handler, net_fault, res,
                                         case['sseed'])
        have = set()        # files handed out before this round
        handed = {}

        def inspect(i, p, when):
            try:
                with open(p, 'rb') as fh:
                    b = fh.read()
            except Exception as e:
                raise Violation('gone', '%s: file %d cannot be read: %s' % (
                    when, i, one_line(e)))
            if b != content[i]:
                raise Violation(
                    'wrong bytes', '%s: file %d (%s) has %d bytes, %d '
                    'expected%s' % (
                        when, i, files[i]['variant'], len(b), len(content[i]),
                        '' if len(b) != len(content[i]) else
                        ', and they differ'))

        def use(order, when, out):
            ix = list(range(n))
            random.Random(order).shuffle(ix)
            if local:
                for i in ix:
                    u, _ = url(i)
                    p = ensure_local_file(u, path, case['chunk'])
                    inspect(i, p, when)
                    out.append(i)
                    handed[i] = p
                return
            reqs = []
            for i in ix:
                u, q = url(i)
                reqs.append(requests.Request(
                    method='GET', url=u, params=q, headers={}))
            k = 0
            for p in DataSetCache(path, reqs):
                if k == n:
                    raise Violation('too many', '%s: more than %d files' % (
                        when, n))
                inspect(ix[k], p, when)
                out.append(ix[k])
                handed[ix[k]] = p
                k += 1
            if k < n:
                raise Violation(
                    'incomplete', '%s: %d of %d files, and no error' % (
                        when, k, n))

        def main(s_):
            crashes = [0]
            rounds = [list(us) for us in case['ops']] + [
                [{'fault': None, 'order': 1}]]
            for r, users in enumerate(rounds):
                errs = []
                before = len(asked)
                power = []

                def user(j, u):
                    when = 'round %d, process %d' % (r, j)
                    group = 'r%du%d' % (r, j)

                    def go():
                        me = sched.sim_me().tid
                        f = u['fault']
                        f = dict(f, left=f['nth'], hit=False) if f else None
                        if f is not None and f['where'] == 'power':
                            def out_():
                                power.append(1)
                                for k in range(len(users)):
                                    if k != j:
                                        s_.kill_group('r%du%d' % (r, k))
                                s_.kill_group(group)
                            s_.fuses[group] = [f['nth'], out_]
                        if f is not None and f['where'] == 'crash':
                            def die():
                                crashes[0] += 1
                                res.fault('process crash')
                                s_.kill_group(group)
                            s_.fuses[group] = [f['nth'], die]
                        faults[me] = f
                        out = []
                        try:
                            use(u['order'], when, out)
                            res.note(when, 'done')
                            if f is not None and f['hit']:
                                # only right as long as every file is
                                res.probe('fault without an error')
                        except Violation as e:
                            errs.append(e)
                        except Exception as e:
                            res.note(when, type(e).__name__)
                            if f is None or not f['hit']:
                                errs.append(Violation(
                                    'healthy', '%s: fails without a fault: %s'
                                    % (when, one_line(e))))
                        finally:
                            s_.fuses.pop(group, None)
                            faults.pop(me, None)
                    return s_.spawn(go, when, group=group)
                ts = [user(j, u) for j, u in enumerate(users)]
                for t in ts:
                    s_.join(t)
                if errs:
                    raise errs[0]
                if power:
                    res.fault('power failure')
                    k = fs.power_failure(random.Random(
                        case['sseed'] + r))
                    if k:
                        res.probe('files damaged', k)
                    have.clear()
                    handed.clear()
                    continue
                new = asked[before:]
                for i in sorted(handed):
                    inspect(i, handed[i], 'after round %d' % r)
                for i in sorted(have):
                    if i in new:
                        raise Violation(
                            'again', 'round %d: file %d was fetched again '
                            'although it was complete' % (r, i))
                have.update(handed)

        simulate(case, res, main, max_steps=400000)
        res.nontrivial = sum(res.faults.values()) > 0


CHECK = C15()
