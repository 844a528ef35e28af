"""
C23: a model that trains continuously always has its latest whole checkpoint
"""
import pickle
import random
import warnings

import numpy as np

from sim import sched
from sim.runner import Check, Violation, sched_spec, simulate, one_line
from checks import nets
from checks.store import Disk, make_database, StoreError

WIDTH = 4
FIRST = ['meanstd', 'meanstd', 'scaling', 'unitnorm']
NETS = ['net', 'net', 'gan', 'gan', 'auto', 'auto', None]
LAST = [None, None, 'binarize', 'abs']


class Stop(Exception):
    """whoever trains has seen enough"""


class Files(dict):
    """what is stored, telling when a checkpoint is"""

    def __init__(self):
        super(Files, self).__init__()
        self.hook = None

    def __setitem__(self, k, v):
        super(Files, self).__setitem__(k, v)
        self.hook(k, v)


def weights(net):
    return dict((k, v.detach().numpy().copy())
                for k, v in net.state_dict().items())


def same_weights(a, b):
    return sorted(a) == sorted(b) and all(
        a[k].shape == b[k].shape and np.array_equal(a[k], b[k]) for k in a)


class C23(Check):
    id = 'C23'
    runs = {'quick': 500, 'thorough': 15000}
    rule = (
        'a case is a streaming pipeline (preprocessing, any of the networks '
        'or none, binarization) trained in up to three lifetimes over '
        'documents whose features may fail; a lifetime ends with an '
        'exception from the documents, the network or the store, or is '
        'killed at any line of code; each resumes from the checkpoint, and '
        'others load checkpoints meanwhile; non-trivial when a lifetime '
        'ended early or somebody loaded a checkpoint during training')
    real = ['zounds.learn', 'featureflow pickling and persistence', 'torch']
    stub = ['document store', 'worker pools', 'thread scheduling',
            'documents']
    assumptions = [
        'the database replaces a value atomically when the stream that wrote '
        'it is closed, as LMDB does']

    def generate(self, rng, tier):
        net = rng.choice(NETS)
        lives = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.random()
            end = ['stop', None]
            if k < .25:
                end = ['kill', rng.choice([
                    rng.randint(1, 400), rng.randint(200, 4000)])]
            elif k < .45:
                end = ['store', rng.randint(1, 14)]
            elif k < .6 and net:
                end = ['network', rng.randint(0, 40)]
            elif k < .75:
                end = ['document', rng.randint(0, 20)]
            lives.append({'end': end, 'passes': rng.randint(1, 4)})
        docs = [rng.choice([1, 2, 5, 9, 14])
                for _ in range(rng.randint(1, 4))]
        return {
            'net': net, 'kind': rng.choice(['plain', 'normed', 'dropout']),
            'first': rng.choice(FIRST), 'last': rng.choice(LAST),
            'lives': lives, 'docs': docs,
            'nsamples': rng.choice([4, 8, 16, 30]),
            'batch_size': rng.choice([2, 4, 5]),
            'parallel': rng.random() < .5,
            'units': rng.random() < .3,
            'readers': [[
                sorted(rng.randint(0, rng.choice([15, 60, 200]))
                       for _ in range(rng.choice([1, 2, 4]))),
                rng.choice([None, None, rng.randint(1, 4)])]
                for _ in range(rng.choice([0, 1, 1, 2]))],
            'entropy': rng.getrandbits(30), 'sched': sched_spec(rng)}

    def shrink(self, case):
        for i in range(len(case['lives'])):
            if len(case['lives']) > 1:
                yield dict(case, lives=case['lives'][:i] +
                           case['lives'][i + 1:])
        for i in range(len(case['readers'])):
            yield dict(case, readers=case['readers'][:i] +
                       case['readers'][i + 1:])
        for k, v in (('parallel', False), ('units', False), ('last', None),
                     ('kind', 'plain'), ('first', 'scaling'),
                     ('docs', case['docs'][:1])):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i, l in enumerate(case['lives']):
            for l2 in (dict(l, end=['stop', None]), dict(l, passes=1)):
                if l2 != l:
                    yield dict(case, lives=case['lives'][:i] + [l2] +
                               case['lives'][i + 1:])

    # -- the documents, the networks and the model

    def documents(self, case):
        from zounds.core import ArrayWithUnits, IdentityDimension
        from zounds.timeseries import TimeDimension, Seconds
        out = {}
        rs = np.random.RandomState(case['entropy'] & 0xffff)
        for i, n in enumerate(case['docs']):
            x = rs.normal(i, 1, (n, WIDTH)).astype(np.float32)
            if case['units']:
                x = ArrayWithUnits(
                    x, [TimeDimension(Seconds(1)), IdentityDimension()])
            out['doc%d' % i] = x
        return out

    def network(self, case):
        kind = case['kind']
        if case['net'] == 'net':
            return nets.Stage(kind, WIDTH, WIDTH)
        if case['net'] == 'auto':
            return nets.Auto(kind, WIDTH)
        if case['net'] == 'gan':
            return nets.Pair('plain', WIDTH)
        return None

    def trainer(self, case, net):
        import torch
        import zounds.learn as zl
        if case['net'] in ('net', 'auto'):
            return zl.SupervisedTrainer(
                net, torch.nn.MSELoss(),
                lambda m: torch.optim.SGD(m.parameters(), lr=.05),
                epochs=1000, batch_size=case['batch_size'],
                data_preprocessor=lambda x: x.astype(np.float32),
                label_preprocessor=lambda x: x.astype(np.float32),
                checkpoint_epochs=1)
        return zl.WassersteinGanTrainer(
            net, latent_dimension=(2,), n_critic_iterations=1,
            epochs=1000, batch_size=case['batch_size'])

    def model(self, case, plan, seen):
        import featureflow as ff
        import zounds.learn as zl
        base = dict(meanstd=zl.MeanStdNormalization,
                    scaling=zl.InstanceScaling, unitnorm=zl.UnitNorm)[
            case['first']]

        class First(base):
            def _process(self, data):
                seen(data)
                for x in super(First, self)._process(data):
                    yield x

        F = ff.PickleFeature
        attrs = {'first': F(First)}
        last = attrs['first']
        if case['net'] == 'net':
            attrs['data'] = F(zl.Multiply, factor=1, needs=last)
            attrs['labels'] = F(zl.Multiply, factor=1, needs=last)
            last = attrs['net'] = F(
                zl.PyTorchNetwork, trainer=ff.Var('trainer'), needs=dict(
                    data=attrs['data'], labels=attrs['labels']))
        elif case['net'] == 'auto':
            last = attrs['net'] = F(
                zl.PyTorchAutoEncoder, trainer=ff.Var('trainer'), needs=last)
        elif case['net'] == 'gan':
            last = attrs['net'] = F(
                zl.PyTorchGan, trainer=ff.Var('trainer'),
                apply_network='discriminator', needs=last)
        if case['last'] == 'binarize':
            attrs['last'] = F(zl.Binarize, threshold=0, needs=last)
        elif case['last'] == 'abs':
            attrs['last'] = F(zl.AbsoluteValue, needs=last)
        cls = type(ff.BaseModel)('Learner', (ff.BaseModel,), attrs)
        cls = zl.infinite_streaming_learning_pipeline(cls)

        # the settings the library offers, with the simulated store
        self.making[sched.sim_me().tid] = plan
        return zl.simple_settings(cls)

    # -- what a checkpoint computes, independently of the library

    def reference(self, case, k, probe):
        import torch
        x = np.asarray(probe)
        data = np.asarray(self.passes[k]['data'])
        if case['first'] == 'meanstd':
            std = data.std(axis=0)
            if std.min() < 1e-2:
                return None         # what becomes of these is not said
            x = (x - data.mean(axis=0)) / std
        elif case['first'] == 'scaling':
            x = x / np.abs(x).max(axis=1, keepdims=True)
        else:
            x = x / np.sqrt((x ** 2).sum(axis=1, keepdims=True))
        w = self.passes[k].get('weights')
        if w is not None:
            net = self.network(case)
            net.load_state_dict(dict(
                (n, torch.from_numpy(v)) for n, v in w.items()))
            net.eval()
            part = dict(net=net, auto=getattr(net, 'encoder', None),
                        gan=getattr(net, 'discriminator', None))[case['net']]
            with torch.no_grad():
                x = part(torch.from_numpy(
                    x.astype(np.float32))).numpy()
        if case['last'] == 'abs':
            x = np.abs(x)
        elif case['last'] == 'binarize':
            x = x > 0
        return x

    def inspect(self, case, model, res, probe, lo, when, final=False):
        """load whatever there is, as somebody else would"""
        # the network
        try:
            net = model.load_network()
        except RuntimeError as e:
            if isinstance(e, StoreError):
                raise
            if lo > 0 and case['net']:
                raise Violation(
                    'lost', '%s: %s, %d passes had been stored' % (
                        when, one_line(e), lo), 'lost')
            net = None
        hi = len(self.stored)
        if net is not None:
            self.match(case, weights(net), range(max(lo, 1), hi + 1), when)
            for m in net.modules():
                if m.training:
                    raise Violation('mode', '%s: loaded in training mode'
                                    % when, 'mode')
        if hi == 0:
            if net is not None:
                raise Violation('early', '%s: a network before any pass '
                                'was complete' % when, 'early')
            return None
        # the pipeline
        lo = len(self.stored)
        if lo == 0:
            return net
        pipeline = model().pipeline
        out = self.transformed(pipeline, probe)
        self.compare(case, out, probe, range(lo, len(self.stored) + 1), when)
        if not final:
            res.probe('checkpoint loaded during training')
        return net

    def transformed(self, pipeline, probe):
        return np.asarray(pipeline.transform(probe).data)

    def compare(self, case, out, probe, candidates, when):
        problem = None
        for n in candidates:
            k = self.stored[n - 1]
            want = self.reference(case, k, probe)
            if want is None:
                break
            if out.shape == want.shape and np.allclose(
                    np.asarray(out, dtype=np.float64), want,
                    rtol=1e-3, atol=1e-4):
                break
            if case['last'] == 'binarize' and out.shape == want.shape and \
                    (out != want).mean() < .2:
                # close to the threshold
                break
            problem = (k, out.ravel()[:4], want.ravel()[:4])
        else:
            raise Violation(
                'transform', '%s: pass %d transforms to %s, should be %s' % (
                    (when,) + problem), 'transform')

    def match(self, case, w, candidates, when):
        for n in candidates:
            if same_weights(w, self.passes[self.stored[n - 1]]['weights']):
                return
        which = [k for k, p in enumerate(self.passes)
                 if 'weights' in p and same_weights(w, p['weights'])]
        raise Violation(
            'weights', '%s: the network is that of pass %s, the last stored '
            'is %s' % (when, which, self.stored[-1:]), 'weights')

    def execute(self, case, res):
        import featureflow as ff
        import torch
        entropy = case['entropy'] & 0xffff
        torch.manual_seed(entropy)
        random.seed(entropy)
        np.random.seed(entropy)
        original = ff.FileSystemDatabase
        ff.FileSystemDatabase = self.database(case)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.run(case, res)
        finally:
            nets.WATCH[0] = None
            ff.FileSystemDatabase = original

    def database(self, case):
        self.disk = Disk()
        self.disk.files = Files()
        self.making = {}

        def make(path=None, key_builder=None, createdirs=False):
            return make_database(
                self.disk, key_builder, case['entropy'] & 0xffff,
                self.making.pop(sched.sim_me().tid))
        return make

    def run(self, case, res):
        docs = self.documents(case)
        rows = set(np.asarray(x)[i].tobytes()
                   for x in docs.values() for i in range(len(x)))
        rs = np.random.RandomState(5)
        probe = rs.normal(0, 1, (5, WIDTH)).astype(np.float32)
        self.passes = passes = []       # what each was given and computed
        self.stored = stored = []       # which of them, in order
        training = [None]
        progress = [0]      # of the training, for those who load meanwhile
        done = [False]

        def hook(key, value):
            if 'pipeline' not in key:
                raise Violation('stored', 'unexpectedly stored: %s' % key)
            if case['net'] and (not passes or 'weights' not in passes[-1]):
                raise Violation(
                    'early', 'pass %d was stored before its network was '
                    'trained' % (len(passes) - 1), 'early')
            stored.append(len(passes) - 1)
            self.compare(case, self.transformed(
                pickle.loads(value), probe), probe,
                         [len(stored)], 'as stored')
        self.disk.files.hook = hook

        class Database(object):
            @staticmethod
            def iter_ids():
                return iter(sorted(docs))

        class Sound(object):
            database = Database

        def main(s):
            errs = []

            def step(kind):
                progress[0] += 1
                s.notify(progress)
                s.yield_point(kind)

            def guard(f):
                def x():
                    try:
                        f()
                    except Violation as e:
                        errs.append(e)
                        raise
                return x

            def life(i, spec):
                end, at = spec['end']
                when = 'lifetime %d' % i
                first = len(passes)
                state = {'asked': 0, 'forward': 0, 'hit': False}

                def plan(db, op, key, n):
                    if op != 'read':
                        step(op)
                    if end == 'store' and op in ('open', 'write', 'close') \
                            and not state['hit']:
                        state['writes'] = state.get('writes', 0) + 1
                        if state['writes'] >= at and op != 'close':
                            state['hit'] = True
                            res.fault('checkpoint could not be written')
                            raise StoreError('simulated write error')

                def seen(data):
                    # every pass before this one is stored by now
                    if len(passes) - 1 > first - 1 and (
                            not stored or stored[-1] != len(passes) - 1):
                        raise Violation(
                            'late', '%s: pass %d begins, stored are %s' % (
                                when, len(passes), stored), 'late')
                    a = np.asarray(data)
                    if not (0 < len(a) <= case['nsamples']):
                        raise Violation('samples', '%d samples of %d' % (
                            len(a), case['nsamples']), 'samples')
                    for r in a:
                        if r.tobytes() not in rows:
                            raise Violation('samples', '%s: trained on %s, '
                                            'which is in no document' % (
                                                when, r), 'samples')
                    passes.append({'data': a.copy()})

                def feature(_id=None, persistence=None):
                    if persistence is not Sound:
                        raise Violation('persistence', repr(persistence))
                    k = state['asked']
                    state['asked'] += 1
                    step('feature')
                    if end == 'document' and k == at:
                        state['hit'] = True
                        res.fault('document could not be read')
                        raise StoreError('simulated read error')
                    if len(passes) - first >= spec['passes']:
                        state['hit'] = True
                        raise Stop()
                    return docs[_id]

                model = self.model(case, plan, seen)
                n = len(stored)
                net = self.inspect(
                    case, model, res, probe, n, when + ' begins', True)
                if n and len(stored) != n:
                    raise Violation('stored', 'loading stores')
                if net is None:
                    net = self.network(case)
                elif i:
                    res.fault('training resumed')
                kw = {}
                if net is not None:
                    trainer = self.trainer(case, net)
                    train = trainer.train
                    start = weights(net)

                    def forward(network, x):
                        if training[0] is None or sched.sim_me() is None or \
                                sched.sim_me().tid != training[0]:
                            return
                        if case['net'] == 'net' and not network.training:
                            raise Violation(
                                'mode', '%s: trained in evaluation mode'
                                % when, 'eval')
                        state['forward'] += 1
                        step('forward')
                        if end == 'network' and state['forward'] > at:
                            state['hit'] = True
                            res.fault('training failed')
                            raise MemoryError('simulated')

                    def watched(data):
                        p = passes[-1]
                        if not same_weights(weights(net), state.get(
                                'weights', start)):
                            raise Violation(
                                'weights', '%s: pass %d does not continue '
                                'from the previous one' % (
                                    when, len(passes) - 1), 'continue')
                        training[0] = sched.sim_me().tid
                        try:
                            out = train(data)
                        finally:
                            training[0] = None
                        state['weights'] = p['weights'] = weights(out)
                        return out
                    trainer.train = watched
                    nets.WATCH[0] = forward
                    kw['trainer'] = trainer

                err = None
                try:
                    model.process(
                        dataset=(Sound, feature), nsamples=case['nsamples'],
                        dtype=np.float32, parallel=case['parallel'],
                        feature_filter=lambda x: x, **kw)
                except Violation:
                    raise
                except (Stop, StoreError, MemoryError) as e:
                    err = e
                except Exception as e:
                    if 'more than 1 value per channel' in str(e) and \
                            case['kind'] == 'normed':
                        # torch cannot normalise a batch of one
                        res.note('a batch of one')
                        return
                    raise Violation('failed', '%s: %s' % (when, one_line(e)),
                                    'failed:' + type(e).__name__)
                if err is None or not state['hit']:
                    raise Violation('ended', '%s ended by itself: %r' % (
                        when, err), 'ended')

            def reader(j, n, fail):
                def plan(db, op, key, k):
                    if op in ('exists', 'read') and fail == k:
                        res.fault('checkpoint could not be read')
                        raise StoreError('simulated read error')
                model = self.model(case, plan, lambda d: None)
                for at in n:
                    while progress[0] < at and not done[0]:
                        s.block(progress)
                    try:
                        self.inspect(case, model, res, probe, len(stored),
                                     'reader %d' % j)
                    except StoreError as e:
                        if fail is None:
                            raise Violation('reader', one_line(e))

            readers = [s.spawn(guard(
                lambda j=j, n=n, f=f: reader(j, n, f)), 'reader%d' % j)
                for j, (n, f) in enumerate(case['readers'])]
            for i, spec in enumerate(case['lives']):
                group = 'life%d' % i
                if spec['end'][0] == 'kill':
                    def die(group=group):
                        res.fault('process crash')
                        s.kill_group(group)
                    s.fuses[group] = [spec['end'][1], die]
                t = s.spawn(guard(lambda i=i, spec=spec: life(i, spec)),
                            group, group=group)
                s.join(t)
                # those that were only training end with their process
                s.fuses.pop(group, None)
                s.kill_group(group)
                training[0] = None
                if errs:
                    raise errs[0]
                if t.exc is not None and not t.killed:
                    raise t.exc
            done[0] = True
            s.notify(progress)
            for t in readers:
                s.join(t)
                if errs:
                    raise errs[0]
                if t.exc is not None:
                    raise t.exc
            nets.WATCH[0] = None
            model = self.model(case, None, lambda d: None)
            self.inspect(case, model, res, probe, len(stored), 'at the end',
                         True)

        try:
            simulate(case, res, main, max_steps=400000)
        except (sched.Deadlock, sched.StepLimit) as e:
            raise Violation('no end', one_line(e))
        res.nontrivial = bool(res.faults) or bool(case['readers'])
        res.note('passes', len(passes), 'stored', len(stored))


CHECK = C23()
