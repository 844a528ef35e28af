"""
C14: ingest processes every item once and isolates failures
"""
import io
import json
import sys

from sim import net, sched
from sim.runner import Check, Violation, sched_spec, simulate, one_line
from checks import audio
from checks.store import Disk, make_database, StoreError
from checks.c12_stored_features import check_array

KINDS = ['ok'] * 8 + ['computation', 'web', 'garbage', 'store', 'exists',
                      'local']
EXC = {'MemoryError': MemoryError, 'ValueError': ValueError,
       'OSError': OSError, 'KeyError': KeyError,
       'StopIteration': StopIteration}


class DatasetError(Exception):
    pass


class C14(Check):
    id = 'C14'
    runs = {'quick': 500, 'thorough': 10000}
    rule = (
        'a case is a dataset of up to 12 items, in parts, some of which fail '
        'in one of six ways or exist already, a way to run it and an '
        'interleaving of its workers; non-trivial when workers interleave or '
        'something fails')
    real = ['zounds.datasets.ingest', 'zounds.datasets.composite',
            'zounds.datasets.predownload', 'zounds.soundfile', 'featureflow',
            'requests and urllib3 above the connection']
    stub = ['worker pools', 'network connections', 'document store',
            'thread scheduling']
    assumptions = [
        'worker processes share the simulator\'s memory, and get copies of '
        'what the pool pickles for them']

    def generate(self, rng, tier):
        items = []
        bad = rng.random() < .75
        for i in range(rng.choice([0, 1, 2, 3, 5, 8, 12])):
            kind = rng.choice(KINDS) if bad else 'ok'
            it = {'kind': kind, 'source': rng.choice(['bytes', 'request']),
                  'part': rng.randint(0, 2), 'n': rng.randint(600, 2500),
                  'seed': rng.getrandbits(20),
                  'there': rng.random() < .25,
                  'at': rng.random(), 'nth': rng.randint(1, 8),
                  'exc': rng.choice(sorted(EXC)),
                  'web': rng.choice(['refuse', 'status', 'reset', 'timeout',
                                     'short'])}
            if kind == 'web':
                it['source'] = 'request'
            items.append(it)
        items.sort(key=lambda it: it['part'])
        return {
            'ops': items,
            'parts': rng.choice(['list', 'generator', 'composite']),
            'dataset_error': rng.random() if rng.random() < .2 else None,
            'skip': rng.random() < .6,
            'mode': rng.choice(['serial', 'threads', 'threads', 'processes']),
            'cores': rng.choice([None, 1, 2, 3, 8]),
            'again': rng.random() < .3,
            'sseed': rng.getrandbits(20),
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for k, v in (('parts', 'list'), ('dataset_error', None),
                     ('cores', 1), ('mode', 'serial'), ('again', False)):
            if case[k] != v:
                c = json.loads(json.dumps(case))
                c[k] = v
                yield c
        for i, it in enumerate(case['ops']):
            for k, v in (('kind', 'ok'), ('there', False), ('n', 600),
                         ('source', 'bytes')):
                if it[k] != v:
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    if k == 'source' and it['kind'] == 'web':
                        continue
                    yield c

    def execute(self, case, res):
        import requests
        import featureflow as ff
        import zounds
        from zounds.soundfile import AudioMetaData
        from zounds.datasets import PreDownload, CompositeDataset, ingest
        sr = zounds.SR11025()
        kb = ff.StringDelimitedKeyBuilder('|')
        disk = Disk()
        items = case['ops']
        ids = ff.UserSpecifiedIdProvider(key='_id')
        armed = [False]
        # whatever urls there are, they are what items are known by
        url_of = [
            'http://sounds.example/%s%d.wav%s' % (
                'S' if it['seed'] % 3 == 0 else 's', i // 2, (
                    '?x=%d' % i, '?y=A&x=%d' % i, '?x=%d#F' % i)[
                        it['seed'] % 5 % 3])
            for i, it in enumerate(items)]
        index = dict((u, i) for i, u in enumerate(url_of))
        data = [audio.encode(audio.signal(it['n'], 1, it['seed']), 11025,
                             'WAV', 'PCM_16') for it in items]
        log = []
        current = {}

        def key():
            me = sched.sim_me()
            return me.tid if me is not None else None

        def item():
            return current.get(key())

        class Stage(ff.Node):
            """a stage of the user's own"""

            def __init__(self, needs=None):
                super(Stage, self).__init__(needs=needs)

            def _process(self, x):
                i = item()
                if armed[0] and i is not None and \
                        items[i]['kind'] == 'computation':
                    res.fault('failing computation')
                    raise EXC[items[i]['exc']]('simulated')
                yield x

        def plan(db, op, k, n):
            i = item()
            if not armed[0] or i is None:
                return
            it = items[i]
            if it['kind'] == 'store' and op in ('open', 'write'):
                left[i] -= 1
                if left[i] <= 0:
                    res.fault('store error on ' + op)
                    raise StoreError('simulated')
        left = [it['nth'] for it in items]

        STFT = zounds.stft(
            chunksize_bytes=4000, resample_to=sr,
            wscheme=zounds.SampleRate(
                frequency=sr.frequency * 128, duration=sr.frequency * 256),
            store_resampled=True)

        class Base(STFT):
            own = zounds.ArrayWithUnitsFeature(
                Stage, needs=STFT.fft, store=False)
            bark = zounds.ArrayWithUnitsFeature(
                zounds.BarkBands, needs=own, store=True, n_bands=6,
                frequency_band=zounds.FrequencyBand(20, 5000))

            @classmethod
            def process(cls, **kw):
                i = index[kw['_id']]
                k = key()
                log.append(('start', i))
                current[k] = i
                try:
                    return super(Base, cls).process(**kw)
                except sched.SimKill:
                    log.append(('killed', i))
                    raise
                finally:
                    current.pop(k, None)
                    log.append(('end', i))

            @classmethod
            def exists(cls, _id):
                i = index[_id]
                if armed[0] and items[i]['kind'] == 'exists':
                    res.fault('store error on exists')
                    raise StoreError('simulated')
                return super(Base, cls).exists(_id)

        names = ['resampled', 'bark', 'ogg']

        def bind(db):
            return type('Doc', (Base, ff.PersistenceSettings), {
                'id_provider': ids, 'key_builder': kb, 'database': db,
                '__module__': __name__, '__qualname__': 'Doc'})

        def read(cls, i, name):
            v = getattr(cls(url_of[i]), name)
            return v[slice(None)] if name == 'ogg' else v

        net.NET[0] = net.SimNet(
            lambda r: (200, {'Content-Type': 'audio/wav'},
                       data[index[r.url]]),
            lambda r, n: dict(
                kind=items[index[r.url]]['web'], status=503,
                at=int(items[index[r.url]]['at'] *
                       len(data[index[r.url]]))) if armed[0] and items[
                    index[r.url]]['kind'] == 'web' else None,
            res, case['sseed'])

        made = {}

        def metadata(i, healthy=False):
            it = items[i]
            if not healthy and it['source'] == 'request' and \
                    it['kind'] != 'local':
                # what describes a request can be handed in again
                if i not in made:
                    made[i] = new_metadata(i)
                return made[i]
            return new_metadata(i, healthy)

        def new_metadata(i, healthy=False):
            it = items[i]
            if it['kind'] == 'local' and not healthy:
                # nothing to make an identifier from
                res.fault('item without a request')
                return AudioMetaData(uri='/nowhere/%d.wav' % i)
            if it['source'] == 'request':
                return AudioMetaData(uri=requests.Request(
                    method='GET', url=url_of[i], headers={}), number=i)
            b = data[i]
            if it['kind'] == 'garbage' and not healthy:
                res.fault('garbage')
                b = b'garbage' * 50
            return AudioMetaData(uri=PreDownload(b, url_of[i]), number=i)

        if case['dataset_error'] is None:
            upto = len(items)
        else:
            upto = int(case['dataset_error'] * len(items))

        def dataset():
            parts = {}
            for i, it in enumerate(items):
                parts.setdefault(it['part'], []).append(i)

            def gen(ix):
                for i in ix:
                    if i >= upto:
                        break
                    yield metadata(i)
                else:
                    return
                res.fault('failing dataset')
                raise DatasetError('simulated')

            if case['dataset_error'] is not None or \
                    case['parts'] == 'generator':
                ds = gen(range(len(items)))
                if case['dataset_error'] is not None and not items:
                    ds = gen([0])
                return ds
            if case['parts'] == 'list':
                return [metadata(i) for i in range(len(items))]
            return CompositeDataset(*[
                list(gen(ix)) for p, ix in sorted(parts.items())])

        # what each should be, alone and without faults
        ref = []
        cls = bind(ff.InMemoryDatabase(kb))
        for i, it in enumerate(items):
            cls.process(_id=url_of[i], meta=metadata(i, True))
            ref.append(dict((n, read(cls, i, n)) for n in names))

        Doc = bind(make_database(disk, kb, case['sseed'], plan))
        # so that it can be handed to other processes
        globals()['Doc'] = Doc
        for i, it in enumerate(items):
            if it['there']:
                Doc.process(_id=url_of[i], meta=metadata(i, True))
        del log[:]
        before = dict(disk.files)

        def main(s_):
            armed[0] = True
            err = None
            try:
                ingest(
                    dataset(), Doc, skip_if_exists=case['skip'],
                    multi_process=case['mode'] == 'processes',
                    multi_threaded=case['mode'] == 'threads',
                    cores=case['cores'])
            except Exception as e:
                err = e
            at_return = len(log)
            started = set(i for w, i in log if w == 'start')
            ended = set(i for w, i in log if w == 'end')
            if started - ended:
                raise Violation(
                    'still running', 'ingest returned while %d items were '
                    'being processed' % len(started - ended))
            if any(w == 'killed' for w, i in log):
                raise Violation(
                    'killed', 'ingest ended %d processes that were not done '
                    'yet' % sum(w == 'killed' for w, i in log))
            s_.quiesce(advance_time=True)
            if len(log) != at_return:
                raise Violation(
                    'still running', 'items were processed after ingest '
                    'returned')
            armed[0] = False
            res.note('log', log)
            what = '%s, %s cores, %s' % (
                case['mode'], case['cores'],
                'skipping' if case['skip'] else 'not skipping')
            if case['dataset_error'] is None:
                if err is not None:
                    raise Violation(
                        'raised', 'ingest (%s) of %d items of which %s failed '
                        'raised %s' % (
                            what, len(items), [
                                it['kind'] for it in items
                                if it['kind'] != 'ok'], one_line(err)))
            elif not isinstance(err, DatasetError):
                raise Violation(
                    'incomplete', 'the dataset failed after %d items, but '
                    'ingest (%s) %s' % (upto, what, 'reported nothing'
                                        if err is None else one_line(err)))
            for i, it in enumerate(items):
                label = 'item %d of %d (%s%s; %s)' % (
                    i, len(items), it['kind'],
                    ', exists' if it['there'] else '', what)
                n = sum(1 for w, j in log if w == 'start' and j == i)
                if i >= upto:
                    want = (0,)
                elif it['kind'] == 'local':
                    want = (0,)
                elif case['skip'] and it['kind'] == 'exists':
                    want = (0, 1)
                elif case['skip'] and it['there']:
                    want = (0,)
                else:
                    want = (1,)
                if n not in want:
                    raise Violation(
                        'attempts', '%s: attempted %d times' % (label, n))
                mine = [k for k in disk.files
                        if k.startswith(url_of[i] + '|')]
                if n == 0:
                    if sorted(mine) != sorted(
                            k for k in before
                            if k.startswith(url_of[i] + '|')) or any(
                                disk.files[k] != before[k] for k in mine):
                        raise Violation(
                            'touched', '%s: not attempted, but what is '
                            'stored changed' % label)
                elif it['kind'] in ('ok', 'exists', 'local'):
                    for name in names:
                        try:
                            got = read(Doc, i, name)
                        except Exception as e:
                            raise Violation(
                                'lost', '%s: %s cannot be read: %s' % (
                                    label, name, one_line(e)))
                        check_array('%s: %s' % (label, name), got,
                                    ref[i][name])

            if case['again'] and case['dataset_error'] is None:
                again(what)

        def again(what):
            # the faults are over, and what failed is tried again
            del log[:]
            try:
                ingest(
                    dataset(), Doc, skip_if_exists=False,
                    multi_process=case['mode'] == 'processes',
                    multi_threaded=case['mode'] == 'threads',
                    cores=case['cores'])
            except Exception as e:
                raise Violation(
                    'raised', 'ingest (%s) of the same items once more raised '
                    '%s' % (what, one_line(e)))
            for i, it in enumerate(items):
                if it['kind'] in ('garbage', 'local'):
                    continue
                label = 'item %d of %d (%s), ingested once more' % (
                    i, len(items), it['kind'])
                n = sum(1 for w, j in log if w == 'start' and j == i)
                if n != 1:
                    raise Violation(
                        'attempts', '%s: attempted %d times' % (label, n))
                for name in names:
                    try:
                        got = read(Doc, i, name)
                    except Exception as e:
                        raise Violation(
                            'again', '%s: %s cannot be read: %s' % (
                                label, name, one_line(e)))
                    check_array('%s: %s' % (label, name), got, ref[i][name])

        simulate(case, res, main, max_steps=2000000)
        globals().pop('Doc', None)
        res.nontrivial = sum(res.faults.values()) > 0 or (
            case['mode'] != 'serial' and len(items) > 1)


CHECK = C14()
