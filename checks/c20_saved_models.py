"""
C20: a saved learned model transforms like the one that was trained
"""
import os
import pickle
import random
import struct
import sys

import numpy as np

from sim import sched
from sim.runner import Check, Violation, sched_spec, simulate, one_line, \
    run_case
from checks import nets
from checks.store import Disk, make_database, StoreError, Crash

ANYWHERE = ['meanstd', 'unitnorm', 'log', 'mulaw', 'scaling', 'multiply',
            'weighted', 'slicer', 'reshape', 'abs', 'components']
LAST = ['simhash', 'kmeans', 'binarize', 'sharpen', 'network', 'auto', 'gan',
        None, None]


class Components(object):
    """the interface of the models of scikit-learn, as far as it is used"""

    def __init__(self, n):
        self.n = n

    def fit(self, x):
        self.dtype = x.dtype
        self.mean_ = np.asarray(x.mean(axis=0))
        u, s, v = np.linalg.svd(np.asarray(x) - self.mean_,
                                full_matrices=False)
        self.components_ = v[:self.n]
        return self

    def transform(self, x):
        return np.dot(
            np.asarray(x) - self.mean_, self.components_.T).astype(self.dtype)

    def inverse_transform(self, x):
        return np.dot(x, self.components_) + self.mean_


def twice(x):
    return x * 2


def churn(sizes):
    """so that memory nobody wrote to does not look like zeros"""
    a = [np.full(max(1, int(np.prod(s))), 7e9, dtype=t)
         for s in sizes for t in (np.float32, np.float64)]
    del a


def feature_class(name, p, needs, case, trainers):
    import featureflow as ff
    import zounds.learn as zl
    F = ff.PickleFeature
    kw = dict(needs=needs, store=False)
    if name == 'meanstd':
        return F(zl.MeanStdNormalization, **kw)
    if name == 'unitnorm':
        return F(zl.UnitNorm, **kw)
    if name == 'log':
        return F(zl.Log, **kw)
    if name == 'mulaw':
        return F(zl.MuLawCompressed, **kw)
    if name == 'scaling':
        return F(zl.InstanceScaling, max_value=p, **kw)
    if name == 'multiply':
        return F(zl.Multiply, factor=p, **kw)
    if name == 'weighted':
        return F(zl.Weighted, weighting=np.array(p, dtype=np.float32),
                 **kw)
    if name == 'slicer':
        return F(zl.Slicer, slicex=slice(*p), **kw)
    if name == 'reshape':
        return F(zl.Reshape, new_shape=tuple(p), **kw)
    if name == 'abs':
        return F(zl.AbsoluteValue, **kw)
    if name == 'components':
        return F(zl.WithComponents if p < 0 else zl.SklearnModel,
                 model=Components(abs(p)), **kw)
    if name == 'simhash':
        return F(zl.SimHash, bits=p[0], packbits=bool(p[1]), **kw)
    if name == 'kmeans':
        return F(zl.KMeans, centroids=p, **kw)
    if name == 'binarize':
        return F(zl.Binarize, threshold=p, **kw)
    if name == 'sharpen':
        return F(zl.Sharpen, kernel=np.array(p), **kw)
    if name == 'network':
        return F(zl.PyTorchNetwork, trainer=trainers[0], **dict(
            kw, needs=needs))
    if name == 'auto':
        return F(zl.PyTorchAutoEncoder, trainer=trainers[0], **kw)
    if name == 'gan':
        return F(zl.PyTorchGan, trainer=trainers[0], apply_network=p[1], **kw)
    raise KeyError(name)


def make_model(case, disk, seed, plan=None, grabbed=None, trainer=None):
    """the model class, as every process that uses it defines it"""
    import featureflow as ff
    import zounds.learn as zl

    class Grab(ff.Node):
        def _process(self, data):
            if grabbed is not None:
                grabbed.append(data)
            yield b'x'

    key_builder_ = ff.StringDelimitedKeyBuilder()

    class Settings(ff.PersistenceSettings):
        id_provider = ff.StaticIdProvider('learned')
        key_builder = key_builder_
        database = make_database(disk, key_builder_, seed, plan)

    attrs = {'inp': ff.PickleFeature(ff.IteratorNode, store=False)}
    last = attrs['inp']
    parts = []
    for i, (name, p) in enumerate(case['steps']):
        if name == 'network':
            labels = attrs['labels'] = ff.PickleFeature(
                zl.Multiply, factor=1, needs=last, store=False)
            data = attrs['data'] = ff.PickleFeature(
                zl.Multiply, factor=1, needs=last, store=False)
            last = dict(data=data, labels=labels)
        last = feature_class(name, p, last, case, [trainer])
        attrs['step%d' % i] = last
        parts.append(last)
    cls = ff.ClobberPickleFeature if case['clobber'] else ff.PickleFeature
    attrs['pipeline'] = cls(
        zl.PreprocessingPipeline, needs=tuple(parts), store=True)
    if grabbed is not None:
        attrs['grab'] = ff.PickleFeature(
            Grab, needs=attrs['pipeline'], store=True)
    return type(ff.BaseModel)('Learnt', (ff.BaseModel, Settings), attrs)


def doubled(x):
    return np.asarray(x) * 2


def part_of(d):
    if d['parts'] is None:
        return None
    return lambda model: model.pipeline[:d['parts']]


def cut(d, x):
    return [x[:d['cut']], x[d['cut']:]] if 0 < d['cut'] < len(x) else [x]


def apply_to_document(case, d, model):
    """a document with a feature that the model computes"""
    import featureflow as ff
    import zounds.learn as zl
    got = []

    class Cut(ff.Node):
        def _process(self, data):
            for x in cut(d, data):
                yield x

    class Grab(ff.Node):
        def _process(self, data):
            got.append(picture(data))
            yield b'x'

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UuidProvider()
        key_builder = ff.StringDelimitedKeyBuilder()
        database = ff.InMemoryDatabase(key_builder=key_builder)

    kwargs = dict((k, v) for k, v in (
        ('version', d['version']), ('dtype', d['dtype']),
        ('wrapper', doubled if d['wrap'] else None),
        ('pipeline_func', part_of(d))) if v is not None)

    class Doc(ff.BaseModel, Settings):
        raw = ff.Feature(Cut, store=False)
        learned = ff.Feature(
            zl.Learned, learned=model, needs=raw, store=False, **kwargs)
        grab = ff.Feature(Grab, needs=learned, store=True)

    try:
        Doc.process(raw=make_input(case, d['input']))
    except Exception as e:
        got.append(type(e).__name__)
    return Doc.learned.version, got


def expect_document(case, d, original):
    pipeline = original if d['parts'] is None else original[:d['parts']]
    out = []
    for x in cut(d, make_input(case, d['input'])):
        if d['dtype']:
            x = x.astype(d['dtype'])
        try:
            y = pipeline.transform(x).data
        except Exception as e:
            out.append(type(e).__name__)
            break
        out.append(picture(doubled(y) if d['wrap'] else y))
    return d['version'] or pipeline.version, out


def wrong_document(want, got):
    if want[0] != got[0]:
        return 'its version is %s, expected %s' % (got[0], want[0])
    if len(want[1]) != len(got[1]):
        return '%d pieces, expected %d' % (len(got[1]), len(want[1]))
    for a, b in zip(want[1], got[1]):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return 'gave %s, expected %s' % (brief(b), brief(a))
            continue
        d = different((a, None), (b, None))
        if d:
            return d


def make_trainer(case, width, seed):
    import torch
    from torch import nn
    import zounds.learn as zl
    torch.manual_seed(seed)
    name, p = case['steps'][-1]
    if name == 'network':
        net = nets.Stage(p, width, width)
    elif name == 'auto':
        net = nets.Auto(p, width)
    elif name == 'gan':
        # the noise looks like the examples, so that all of the pipeline is
        # used, whichever of the two is applied
        return zl.WassersteinGanTrainer(
            nets.Pair(p[0], width, width), latent_dimension=(width,),
            n_critic_iterations=2, epochs=100, batch_size=4)
    else:
        return None
    return zl.SupervisedTrainer(
        net, nn.MSELoss(),
        lambda m: torch.optim.SGD(m.parameters(), lr=.05),
        epochs=100, batch_size=4,
        data_preprocessor=lambda x: x.astype(np.float32),
        label_preprocessor=lambda x: x.astype(np.float32))


def make_input(case, q):
    from zounds.core import ArrayWithUnits, IdentityDimension
    from zounds.timeseries import TimeDimension, Seconds, Milliseconds
    rs = np.random.RandomState(q['seed'])
    shape = (q['n'],) + tuple(case['shape'])
    x = rs.normal(q.get('mean', 0), 1, shape)
    for i in q.get('zeros', ()):
        if i < len(x):
            x[i] = 0
    if q.get('constant') is not None:
        x[..., q['constant'] % x.shape[-1]] = 3
    x = x.astype(q['dtype'])
    if q.get('fortran'):
        x = np.asfortranarray(x)
    if q['units']:
        x = ArrayWithUnits(x, [TimeDimension(
            Seconds(1), Milliseconds(1500))] +
            [IdentityDimension()] * (x.ndim - 1))
    return x


def picture(x):
    """what can be compared across processes"""
    dims = None
    try:
        dims = [(type(d).__name__, sorted(
            (k, str(v)) for k, v in vars(d).items())) for d in x.dimensions]
    except AttributeError:
        pass
    a = np.asarray(x)
    return (type(x).__name__, dims, a.shape, str(a.dtype),
            np.ascontiguousarray(a).tobytes())


def use(pipeline, x, parts=None):
    """all there is to see of a transform and its inverse"""
    if parts is not None:
        pipeline = pipeline[parts] if isinstance(parts, list) \
            else pipeline[:parts]
    before = picture(x)
    churn([x.shape])
    try:
        r = pipeline.transform(x)
    except Exception as e:
        return ('transform', type(e).__name__ + ' ' + str(e)[:60]), None
    out = picture(r.data)
    inv = []
    for _ in range(2):
        churn([x.shape, r.data.shape])
        try:
            inv.append(picture(r.inverse_transform()))
        except Exception as e:
            inv.append((type(e).__name__,))
    if picture(x) != before:
        return ('mutated input',), None
    if picture(r.data) != out:
        return ('the inverse changed the result',), None
    if inv[0] != inv[1]:
        return ('inverting twice gives different results',), None
    return out, inv[0]


def different(a, b):
    """None, or what differs"""
    for what, u, v in (('transform', a[0], b[0]), ('inverse', a[1], b[1])):
        if u == v:
            continue
        if u is None or v is None or len(u) < 5 or len(v) < 5 or \
                u[:4] != v[:4]:
            return '%s: %s, originally %s' % (
                what, brief(v), brief(u))
        p = np.frombuffer(u[4], u[3])
        q = np.frombuffer(v[4], v[3])
        if not np.allclose(p, q, rtol=1e-5, atol=1e-7, equal_nan=True):
            i = int(np.argmax(~np.isclose(p, q, equal_nan=True)))
            return '%s: %s, originally %s (at %d)' % (what, q[i], p[i], i)
    return None


def brief(u):
    return None if u is None else u[:4] if len(u) > 4 else u


# -- a process that has only started -----------------------------------------

ZYGOTE = [None]


def zygote(check):
    """
    forked before this process ran anything: its children know the code under
    test and nothing else
    """
    if ZYGOTE[0] is not None and ZYGOTE[0][0] == os.getpid():
        return ZYGOTE[0]
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid:
        os.close(r1)
        os.close(w2)
        ZYGOTE[0] = (os.getpid(), r2, w1)
        return ZYGOTE[0]
    try:
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        os.close(w1)
        os.close(r2)
        serve(r1, w2)
    finally:
        os._exit(0)


def recv(fd):
    n = b''
    while len(n) < 8:
        d = os.read(fd, 8 - len(n))
        if not d:
            return None
        n += d
    n, = struct.unpack('!Q', n)
    out = []
    while n:
        d = os.read(fd, min(n, 1 << 20))
        if not d:
            return None
        out.append(d)
        n -= len(d)
    return b''.join(out)


def send(fd, d):
    d = struct.pack('!Q', len(d)) + d
    while d:
        d = d[os.write(fd, d):]


def serve(rfd, wfd):
    while True:
        d = recv(rfd)
        if d is None:
            return
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    out = answer(pickle.loads(d))
                except BaseException as e:
                    out = ('failed', one_line(e))
                send(wfd, pickle.dumps(out))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def answer(request):
    case, files, uses = request
    disk = Disk()
    disk.files.update(files)
    sched.GLOBAL_ENTROPY[0] = random.Random(1)
    np.random.seed(999)
    model = make_model(case, disk, 5)
    p = model('learned').pipeline
    out = [use(p, make_input(case, q), parts) for q, parts in uses]
    docs = [apply_to_document(case, d, model('learned'))
            for d in case['docs']]
    return 'ok', p.version, out, disk.files == files, docs


def fresh_process(check, request):
    pid, r, w = zygote(check)
    send(w, pickle.dumps(request))
    d = recv(r)
    if d is None:
        return 'failed', 'no answer'
    return pickle.loads(d)


class C20(Check):
    id = 'C20'
    runs = {'quick': 700, 'thorough': 20000}
    rule = (
        'a case is a pipeline of any preprocessing steps and models, trained '
        'once or twice and stored over a store that fails, tears reads or '
        'crashes, then loaded in this process and in a fresh one and used '
        'from several threads, whole or in part, in different orders, on '
        'inputs with and without units, with silent examples and constant '
        'features; non-trivial when the store failed or threads interleave')
    real = ['zounds.learn', 'featureflow pickling and persistence', 'dill',
            'torch', 'a forked process that has run nothing']
    stub = ['document store', 'thread scheduling', 'scikit-learn']
    assumptions = [
        'the fresh process runs the same version of Python and has the same '
        'definitions of the model and its networks']

    def generate(self, rng, tier):
        deep = rng.random() < .3
        shape = [rng.choice([2, 3]), 4] if deep else [6]
        cur = list(shape)
        steps = []

        def add(name):
            nonlocal cur
            p = None
            if name == 'scaling':
                p = rng.choice([1, 1, 5])
            elif name == 'multiply':
                p = rng.choice([2, .5, 10])
            elif name == 'weighted':
                p = [round(rng.uniform(.5, 2), 2) for _ in range(cur[-1])]
            elif name == 'slicer':
                if cur[-1] < 4:
                    return
                p = rng.choice([[0, 3], [1, None], [0, None, 2]])
                cur = cur[:-1] + [len(range(cur[-1])[slice(*p)])]
            elif name == 'reshape':
                n = int(np.prod(cur))
                p = rng.choice([[n]] + (
                    [[2, n // 2]] if n % 2 == 0 and deep else []))
                cur = list(p)
            elif name == 'components':
                if len(cur) != 1:
                    return
                p = rng.choice([-1, 1]) * rng.randint(1, cur[0])
                cur = [abs(p)]
            elif name in ('kmeans', 'network', 'auto', 'sharpen', 'gan') and \
                    len(cur) != 1:
                return
            elif name == 'simhash':
                p = [64, 1] if rng.random() < .5 else [rng.randint(1, 9), 0]
                if len(cur) != 1 and p[1]:
                    p = [5, 0]
            elif name == 'kmeans':
                p = rng.randint(1, 4)
            elif name == 'binarize':
                p = rng.choice([0, .5])
            elif name == 'sharpen':
                p = [.5, 1, .5]
            elif name in ('network', 'auto'):
                p = rng.choice(['plain', 'normed', 'dropout'])
            elif name == 'gan':
                p = [rng.choice(['plain', 'dropout']),
                     rng.choice(['generator', 'discriminator'])]
            steps.append([name, p])

        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            add(rng.choice(ANYWHERE))
        last = rng.choice(LAST)
        if last:
            add(last)
        if not steps:
            add('meanstd')
        rounds = rng.choice([1, 1, 2])

        def inp():
            return {
                'seed': rng.getrandbits(30), 'n': rng.randint(1, 9),
                'mean': rng.choice([0, 0, 2]),
                'zeros': rng.choice([[], [], [0], [0, 3]]),
                'constant': rng.choice([None, None, 1]),
                'dtype': rng.choice(['float32', 'float32', 'float64']),
                'units': rng.random() < .4,
                'fortran': rng.random() < .2}
        net = steps[-1][0] == 'network'
        trains = [dict(inp(), n=rng.choice([12, 20]), dtype='float32',
                       seed=rng.getrandbits(30),
                       zeros=rng.choice([[], [0]]))
                  for _ in range(rounds)]
        inputs = [inp() for _ in range(rng.randint(1, 4))]
        for q in inputs:
            if net:
                q['dtype'] = 'float32'
        uses = []
        for _ in range(rng.choice([2, 4, 8])):
            parts = None
            if len(steps) > 1 and rng.random() < .3:
                parts = rng.choice([
                    rng.randint(1, len(steps)),
                    sorted(rng.sample(range(len(steps)),
                                      rng.randint(1, len(steps))))])
            uses.append([rng.randrange(len(inputs)), parts,
                         rng.randint(0, 2),             # thread
                         rng.choice(['loaded', 'loaded', 'original'])])
        fault = None
        if rng.random() < .35:
            fault = [rng.randrange(rounds), rng.choice(
                ['error', 'error', 'crash']), rng.randint(1, 6)]
        docs = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            q = inp()
            docs.append({
                'input': q, 'cut': rng.choice([0, 1, 2, 4]),
                'dtype': 'float32' if net else rng.choice(
                    [None, None, 'float32', 'float64']),
                'wrap': rng.random() < .25,
                'parts': rng.randint(1, len(steps))
                if rng.random() < .3 else None,
                'version': rng.choice([None, None, None, 'mine'])})
        return {'shape': shape, 'steps': steps, 'trains': trains,
                'docs': docs,
                'inputs': inputs, 'uses': uses, 'fault': fault,
                'clobber': rng.random() < .5, 'read_fault': rng.choice(
                    [None, None, None, 1, 2]),
                'entropy': rng.getrandbits(32), 'sched': sched_spec(rng)}

    def shrink(self, case):
        for i in range(len(case['uses'])):
            if len(case['uses']) > 1:
                yield dict(case, uses=case['uses'][:i] +
                           case['uses'][i + 1:])
        for i in range(len(case['docs'])):
            yield dict(case, docs=case['docs'][:i] + case['docs'][i + 1:])
        for k in ('fault', 'read_fault'):
            if case[k] is not None:
                yield dict(case, **{k: None})
        if len(case['trains']) > 1 and case['fault'] is None:
            yield dict(case, trains=case['trains'][1:])
        if len(case['steps']) > 1 and all(u[1] is None for u in case['uses']):
            for i in range(len(case['steps'])):
                if case['steps'][i][0] not in (
                        'slicer', 'reshape', 'components'):
                    yield dict(case, steps=case['steps'][:i] +
                               case['steps'][i + 1:])
        for k, q in enumerate(case['inputs']):
            for f, v in (('zeros', []), ('constant', None), ('units', False), ('fortran', False),
                         ('n', 1), ('mean', 0)):
                if q[f] != v:
                    yield dict(case, inputs=case['inputs'][:k] + [
                        dict(q, **{f: v})] + case['inputs'][k + 1:])

    def execute(self, case, res):
        zygote(self)
        import torch
        from zounds.learn.preprocess import Pipeline
        nets.WATCH[0] = None
        disk = Disk()
        entropy = case['entropy'] & 0xffff
        np.random.seed(entropy)
        width = case['shape'][-1]
        for name, p in case['steps'][:-1]:
            if name == 'slicer':
                width = len(range(width)[slice(*p)])
            elif name == 'reshape':
                width = p[-1]
            elif name == 'components':
                width = abs(p)

        # train, and store
        originals = []      # every pipeline there may be in the store
        deleted = False
        earlier = None      # loaded from the store after the first training
        for r, q in enumerate(case['trains']):
            trainer = make_trainer(case, width, entropy + r)
            grabbed = []
            fault = case['fault'] if case['fault'] and \
                case['fault'][0] == r else None

            def plan(db, op, key, n):
                if fault is not None and op in ('open', 'write', 'close') \
                        and n >= fault[2] and not hit:
                    hit.append(op)
                    if fault[1] == 'crash':
                        db.dead = True
                        raise Crash()
                    if op != 'close':
                        raise StoreError('simulated write error')
            hit = []
            model = make_model(
                case, disk, entropy + r, plan, grabbed, trainer)
            try:
                model.process(inp=[make_input(case, q)])
                done = True
            except (StoreError, Crash):
                done = False
            except Exception as e:
                if hit:
                    done = False
                else:
                    raise Violation('training', 'could not be trained: %s' %
                                    one_line(e), 'training')
            if hit:
                res.fault('%s while storing' % fault[1])
                if fault[1] == 'error' and not case['clobber']:
                    # featureflow removes what it was writing
                    deleted = True
            if grabbed:
                if done and not hit:
                    originals = []
                    deleted = False
                originals.append(grabbed[-1])
            if r == 0 and done and len(case['trains']) > 1:
                # somebody loads the pipeline before it is trained again
                earlier = make_model(
                    case, disk, entropy + 50)('learned').pipeline
                asked = [(i, parts) for i, parts, _, _ in case['uses']]
                answers = [use(grabbed[-1], make_input(
                    case, case['inputs'][i]), parts) for i, parts in asked]
        if len(case['trains']) > 1:
            res.fault('trained again')

        def still(when):
            if earlier is None:
                return
            for (i, parts), a in zip(asked, answers):
                d = different(a, use(earlier, make_input(
                    case, case['inputs'][i]), parts))
                if d:
                    raise Violation(
                        'earlier', '%s, loaded before it was trained again, '
                        '%s, %s' % (case['steps'], when, d), 'earlier')

        still('after training')

        files = dict(disk.files)
        reference = [dict() for _ in originals]

        def expected(k, i, parts):
            """what the original gave, the first time it was asked"""
            d = reference[k]
            key = (i, repr(parts))
            if key not in d:
                d[key] = use(originals[k], make_input(
                    case, case['inputs'][i]), parts)
            return d[key]

        for k in range(len(originals)):
            for i, parts, _, _ in case['uses']:
                expected(k, i, parts)
            for key, v in reference[k].items():
                if len(v[0]) == 1 or v[0][0] == 'transform' and \
                        key[1] == 'None':
                    raise Violation(
                        'original', 'the original itself: %s' % (v[0],))

        if len(originals) == 2 and \
                originals[0].version == originals[1].version:
            for key in reference[0]:
                d = key[1] == 'None' and different(
                    reference[0][key], reference[1][key])
                if d:
                    raise Violation(
                        'version', 'two trainings gave pipelines with the '
                        'same version, but %s' % d, 'collision')

        # the same steps in another order are another pipeline
        if originals and len(case['steps']) > 1:
            o = originals[-1]
            swapped = Pipeline(list(o.processors)[::-1])
            for i, parts, _, _ in case['uses']:
                d = parts is None and swapped.version == o.version and \
                    different(expected(len(originals) - 1, i, None), use(
                        swapped, make_input(case, case['inputs'][i]), None))
                if d:
                    raise Violation(
                        'version', '%s and the same steps in the reverse '
                        'order have the same version, but %s' % (
                            case['steps'], d), 'order')

        # load, and use
        out = {}
        state = {}

        def main(s):
            def plan(db, op, key, n):
                if op == 'read' and case['read_fault'] == n:
                    res.fault('read error')
                    raise StoreError('simulated read error')
            model = make_model(case, disk, entropy + 50, plan)
            if not any('pipeline' in str(k) for k in files):
                return
            for attempt in range(3):
                try:
                    state['model'] = model('learned')
                    state['loaded'] = state['model'].pipeline
                    break
                except StoreError:
                    continue
                except Exception as e:
                    raise Violation(
                        'load', 'could not be loaded: %s' % one_line(e),
                        'load:' + type(e).__name__)
            loaded = state['loaded']

            def work(t):
                def run():
                    for j, (i, parts, thread, which) in enumerate(
                            case['uses']):
                        if thread == t:
                            p = loaded if which == 'loaded' \
                                else originals[-1]
                            out[j] = use(p, make_input(
                                case, case['inputs'][i]), parts)
                return run

            def document(j, d):
                def run():
                    try:
                        out['doc', j] = apply_to_document(
                            case, d, state['model'])
                    except Exception as e:
                        out['doc', j] = one_line(e), []
                return run
            ts = [s.spawn(work(t), 'user%d' % t) for t in range(3)]
            ts += [s.spawn(document(j, d), 'document%d' % j)
                   for j, d in enumerate(case['docs'])]
            for t in ts:
                s.join(t)
            state['log'] = list(model.database.log)

        try:
            simulate(case, res, main, max_steps=400000)
        except (sched.Deadlock, sched.StepLimit) as e:
            raise Violation('no end', one_line(e))
        if 'loaded' not in state:
            if not (deleted or case['fault'] is not None and (
                    len(case['trains']) == 1 or case['fault'][0] == 0)):
                raise Violation(
                    'gone', 'nothing is stored any more', 'gone')
            if case['clobber'] and len(case['trains']) > 1 and \
                    case['fault'][0] == 1:
                raise Violation('gone', 'the stored pipeline is gone')
            res.note('nothing stored')
            return
        loaded = state['loaded']
        still('after another was loaded')
        if disk.files != files or state['log']:
            raise Violation('changed', 'loading or using a pipeline changed '
                            'what is stored: %s' % (state['log'],))
        which = [k for k, o in enumerate(originals)
                 if o.version == loaded.version]
        if not which:
            raise Violation(
                'version', 'the loaded pipeline has version %s, the original '
                '%s' % (loaded.version, [o.version for o in originals]),
                'version')
        problems = []
        for k in which:
            p = None
            for j, (i, parts, _, w) in enumerate(case['uses']):
                kk = k if w == 'loaded' else len(originals) - 1
                d = different(expected(kk, i, parts), out[j])
                if d:
                    p = '%s, the %s pipeline, %s' % (
                        case['steps'], w, d)
                    break
            for j, d in enumerate(case['docs']):
                w = wrong_document(
                    expect_document(case, d, originals[k]), out['doc', j])
                if w and p is None:
                    p = '%s, in a document %s, %s' % (case['steps'], d, w)
            if p is None:
                break
            problems.append(p)
        else:
            raise Violation('differs', problems[0], 'differs')

        # again, in a process that has done nothing else
        uses = [(case['inputs'][i], parts) for i, parts, _, _ in case['uses']]
        a = fresh_process(self, (case, files, uses))
        if a[0] != 'ok':
            raise Violation(
                'fresh', 'in a fresh process: %s' % (a[1],), 'fresh')
        if a[1] != loaded.version:
            raise Violation(
                'version', 'the version is %s in a fresh process, was %s' % (
                    a[1], loaded.version), 'version')
        for (i, parts, _, w), o in zip(case['uses'], a[2]):
            d = different(expected(k, i, parts), o)
            if d:
                raise Violation(
                    'differs', '%s, in a fresh process, %s' % (
                        case['steps'], d), 'differs')
        for d, o in zip(case['docs'], a[4]):
            w = wrong_document(expect_document(case, d, originals[k]), o)
            if w:
                raise Violation(
                    'differs', '%s, in a document of a fresh process, %s' % (
                        case['steps'], w), 'document')
        if not a[3]:
            raise Violation('changed', 'loading a pipeline in a fresh '
                            'process changed what is stored')
        res.nontrivial = len(set(u[2] for u in case['uses'])) > 1 or \
            bool(res.faults)
        res.note(case['steps'], 'loaded', k)


CHECK = C20()
