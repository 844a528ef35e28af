"""
C19: training runs the requested epochs and never loses the network
"""
import copy
import random
import warnings

import numpy as np

from sim.runner import Check, Violation, one_line, scratch
from checks import nets


class Unplugged(Exception):
    """some failure that is none of the library's business"""


FAULTS = {
    'assertion': lambda: RuntimeError(
        'cuda runtime error (59) : Assertion `t >= 0` failed.'),
    'memory': lambda: RuntimeError('CUDA out of memory.'),
    'shape': lambda: RuntimeError('mat1 and mat2 shapes cannot be multiplied'),
    'interrupt': lambda: KeyboardInterrupt(),
    'other': lambda: Unplugged('the disk with the data went away'),
}


def same_failure(a, b):
    return type(a) is type(b) and str(a) == str(b)


class C19(Check):
    id = 'C19'
    runs = {'quick': 900, 'thorough': 30000}
    rule = (
        'a case is a trainer and a network of any kind (with batch '
        'normalisation, with dropout), a training set with or without '
        'held-out data, a number of epochs trained in one go or from '
        'checkpoint to checkpoint, failures (device assertions, exhausted '
        'memory, interruptions, others) at any batch, in the forward pass, '
        'the loss or the backward pass or when the trained network is '
        'applied; non-trivial when something failed or training was resumed')
    real = ['zounds.learn trainers and PyTorch nodes', 'torch', 'featureflow']
    stub = ['device and memory failures']

    def generate(self, rng, tier):
        kind = rng.choice(['supervised', 'supervised', 'epochs', 'apply'])
        bs = rng.randint(1, 5)
        epochs = rng.choice([1, 2, 3, 4])
        case = {
            'kind': kind, 'batch_size': bs, 'n': rng.randint(bs, 18),
            'epochs': epochs,
            'checkpoint_epochs': rng.choice([1, 1, 2, 3, epochs, epochs + 3]),
            'calls': rng.choice([0, 0, 1, 2]),      # beyond what is needed
            'net': rng.choice(['plain', 'deep', 'normed', 'dropout']),
            'holdout': rng.choice([0, 0, .2, .5, .34]),
            'eval_between': rng.random() < .5,
            'entropy': rng.getrandbits(32),
            'faults': sorted(
                [rng.randint(0, 20), rng.choice(
                    ['assertion', 'assertion', 'memory', 'shape',
                     'interrupt', 'other']),
                 rng.choice(['forward', 'loss', 'backward', 'gradients'])]
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))),
        }
        if kind == 'epochs':
            case['trainer'] = rng.choice(
                ['base', 'triplet', 'gan', 'supervised'])
        if kind == 'apply':
            case['trainer'] = rng.choice(
                ['supervised', 'supervised', 'auto', 'auto', 'gan'])
            case['part'] = rng.choice(['generator', 'discriminator'])
            case['limit'] = rng.choice([None, 0, 0, 1, 4, 200])
            case['chunksize'] = rng.choice([None, None, 1, 3])
            case['next'] = rng.choice([None, 'abs', 'binarize', 'unitnorm'])
            case['rounds'] = rng.choice([1, 1, 2])
            case['n'] = rng.choice([case['n'], 200])
            if case['faults'] and case['rounds'] == 1:
                case['rounds'] = 2
        return case

    def shrink(self, case):
        for i in range(len(case['faults'])):
            yield dict(case, faults=case['faults'][:i] +
                       case['faults'][i + 1:])
        for k, v in (('calls', 0), ('holdout', 0), ('eval_between', False),
                     ('net', 'plain'), ('epochs', 1), ('next', None),
                     ('chunksize', None), ('rounds', 1)):
            if k in case and case[k] != v:
                yield dict(case, **{k: v})
        if case['n'] > case['batch_size']:
            yield dict(case, n=case['n'] - 1)

    def execute(self, case, res):
        import torch
        seed = case['entropy'] & 0xffff
        torch.manual_seed(seed)
        random.seed(seed)
        np.random.seed(seed)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                getattr(self, case['kind'])(case, res)
        finally:
            nets.WATCH[0] = None
        res.nontrivial = bool(res.faults)

    # -- supervised training against a reference

    def supervised(self, case, res):
        import torch
        from torch import nn
        import zounds.learn as zl
        rs = np.random.RandomState(case['entropy'] & 0xffff)
        n, bs = case['n'], case['batch_size']
        held = int(case['holdout'] * n)
        kind = case['net']
        if kind == 'normed' and (bs == 1 or (n - held) % bs == 1):
            # torch refuses to normalise a batch of one
            kind = 'plain'
        ids = np.arange(1, n + 1).astype(np.float32)
        data = np.concatenate(
            [ids[:, None], rs.normal(0, 1, (n, 3))], axis=1)
        labels = np.concatenate(
            [ids[:, None], rs.normal(0, 1, (n, 2))], axis=1)
        net = nets.Net(kind, 3, 2)
        ref = copy.deepcopy(net)
        lr = .05

        # what is asked of the network, and what fails
        faults = dict((k, (what, where)) for k, what, where in case['faults'])
        trained = []        # ids whose error was propagated back
        evaluated = []      # ids whose error was only computed
        last = {}
        attempts = [-1]
        self.raised = None

        def fail(where):
            f = faults.get(attempts[0])
            if f is not None and f[1] == where:
                res.fault('%s in the %s' % f)
                self.raised = FAULTS[f[0]]()
                raise self.raised

        def watch(network, x):
            i = tuple(int(v) for v in x[:, 0].tolist())
            last.update(ids=i, training=network.training)
            if not set(i) & held_ids:
                attempts[0] += 1
                fail('forward')

        def gradient(g):
            # some gradients have been computed, those of the first layer
            # are not to be
            f = faults.get(attempts[0])
            if f is not None and f[1] == 'gradients':
                trained.pop()
                fail('gradients')

        next(net.parameters()).register_hook(gradient)

        # the examples that are held out: those the library says it uses
        held_ids = set(range(1, held + 1))

        class Loss(nn.Module):
            def forward(self, output, lab):
                i = tuple(int(v) for v in lab[:, 0].tolist())
                if i != last['ids']:
                    raise Violation(
                        'labels', 'the labels %s came with the data %s' % (
                            i, last['ids']))
                test = bool(set(i) & held_ids)
                if not test:
                    fail('loss')
                error = ((output - lab[:, 1:]) ** 2).mean()
                rec = [i, error.item(), False, last['training'],
                       attempts[0]]
                evaluated.append(rec)
                if error.requires_grad:
                    def back(g):
                        if set(i) & held_ids:
                            raise Violation(
                                'held out', 'trained on held-out %s' % (i,))
                        rec[2] = True
                        fail('backward')
                        trained.append(i)
                    error.register_hook(back)
                return error

        trainer = zl.SupervisedTrainer(
            net, Loss(), lambda m: torch.optim.SGD(m.parameters(), lr=lr),
            epochs=case['epochs'], batch_size=bs,
            holdout_percent=case['holdout'],
            data_preprocessor=lambda x: x.astype(np.float32),
            label_preprocessor=lambda x: x.astype(np.float32),
            checkpoint_epochs=case['checkpoint_epochs'])
        reports = []

        def report(**kw):
            reports.append((kw['epoch'], kw['batch'], kw['train_error'],
                            kw['test_error'], len(evaluated)))
        trainer.register_batch_complete_callback(report)

        # the reference
        opt = torch.optim.SGD(ref.parameters(), lr=lr)
        torch_data = torch.from_numpy(data.astype(np.float32))
        torch_labels = torch.from_numpy(labels.astype(np.float32))
        state = {'epoch': 0, 'attempt': -1}

        def reference():
            """what a call of train should do: batches, or the failure"""
            out = []
            start = state['epoch']
            nets.WATCH[0] = None
            ref.train()
            for epoch in range(start, min(
                    start + case['checkpoint_epochs'], case['epochs'])):
                for i in range(0, n - held, bs):
                    state['attempt'] += 1
                    f = faults.get(state['attempt'])
                    sl = slice(held + i, held + min(i + bs, n - held))
                    ix = tuple(int(v) for v in ids[sl])
                    if f is not None:
                        if f[1] != 'forward':
                            with torch.no_grad():
                                # batch statistics were seen
                                ref(torch_data[sl])
                        if f[0] == 'assertion':
                            continue
                        return out, FAULTS[f[0]]()
                    opt.zero_grad()
                    e = ((ref(torch_data[sl]) -
                          torch_labels[sl][:, 1:]) ** 2).mean()
                    e.backward()
                    opt.step()
                    out.append((epoch, i, ix, e.item(), self.weights(ref)))
                state['epoch'] += 1
            return out, None

        calls = -(-case['epochs'] // case['checkpoint_epochs']) + \
            case['calls'] + len(faults)
        compare = kind != 'dropout'
        for c in range(calls):
            del reports[:], trained[:], evaluated[:]
            expected, failure = reference()
            nets.WATCH[0] = watch
            self.raised = None
            try:
                got = trainer.train(dict(data=data, labels=labels))
                err = None
            except (Exception, KeyboardInterrupt) as e:
                err = e
            if isinstance(err, Violation):
                raise err
            nets.WATCH[0] = None
            if failure is None and err is not None:
                raise Violation(
                    'failed', 'call %d of train failed: %s' % (
                        c, one_line(err)), 'failed:' + type(err).__name__)
            if failure is not None and (
                    err is None or not same_failure(err, failure)):
                raise Violation(
                    'hidden', 'a batch failed with %r, train with %r' % (
                        failure, err), 'hidden')
            if err is None and got is not net:
                raise Violation('network', 'train returned %r' % (got,))
            want = [x[2] for x in expected]
            done = [i for i in trained]
            if failure is not None and done and done[:-1] == want:
                done = done[:-1]
            if done != want:
                raise Violation(
                    'batches', 'call %d trained on %s, expected %s' % (
                        c, done, want), 'batches')
            if len(reports) != len(expected):
                raise Violation(
                    'batches', 'call %d reported %d batches of %d' % (
                        c, len(reports), len(expected)), 'batches')
            for r, x in zip(reports, expected):
                if r[:2] != x[:2]:
                    raise Violation(
                        'batches', 'reported as epoch, batch %s, is %s' % (
                            r[:2], x[:2]), 'batches')
                self.errors(case, r, x, evaluated, held_ids, compare, held)
            if compare:
                self.compare(net, ref, 'after call %d' % c)
            if c:
                res.fault('training resumed')
            for rec in evaluated:
                if rec[0] and set(rec[0]) & held_ids and not \
                        set(rec[0]) <= held_ids:
                    raise Violation('held out', 'a test batch of %s' % (
                        rec[0],))
            if case['eval_between']:
                net.eval()
        if state['epoch'] != case['epochs']:
            res.probe('unfinished')
        res.note('calls', calls, 'attempts', state['attempt'] + 1)

    def errors(self, case, r, x, evaluated, held_ids, compare, held):
        # r: epoch, batch, train error, test error, evaluations so far
        mine = evaluated[:r[4]]
        train = [e for e in mine if e[0] == x[2]]
        if not train:
            raise Violation('batches', 'batch %s was never evaluated' % (
                x[2],))
        e = train[-1]
        if not np.isclose(r[2], e[1], rtol=1e-4, atol=1e-6):
            raise Violation(
                'errors', 'the training error of batch %s is %s, reported '
                'was %s (test error %s)' % (x[2], e[1], r[2], r[3]), 'errors')
        if compare and not np.isclose(e[1], x[3], rtol=1e-3, atol=1e-5):
            raise Violation(
                'errors', 'the error on %s was %s, should be %s' % (
                    x[2], e[1], x[3]), 'errors')
        if not held:
            return
        tests = [e for e in mine if set(e[0]) & held_ids]
        if not tests:
            raise Violation('errors', 'no held-out data was evaluated')
        if not np.isclose(r[3], tests[-1][1], rtol=1e-4, atol=1e-6):
            raise Violation(
                'errors', 'the error on held-out data is %s, reported was %s '
                '(training error %s)' % (tests[-1][1], r[3], r[2]), 'errors')

    def weights(self, net):
        return dict((k, v.detach().numpy().copy())
                    for k, v in net.state_dict().items())

    def compare(self, net, ref, when):
        a, b = self.weights(net), self.weights(ref)
        for k in b:
            if not np.allclose(a[k], b[k], rtol=1e-3, atol=1e-5):
                raise Violation(
                    'weights', '%s is %s, training on the training data '
                    'alone gives %s (%s)' % (
                        k, a[k].ravel()[:4], b[k].ravel()[:4], when),
                    'weights')

    # -- numbers of epochs and batches, for every trainer

    def epochs(self, case, res):
        from checks.c18_observers import Linear
        case = dict(case, frequency=1)
        it = Linear(case)
        trainer = it.trainer
        bs, n = case['batch_size'], case['n']
        held = int(case['holdout'] * n) \
            if case['trainer'] == 'supervised' else 0
        if case['trainer'] == 'triplet':
            batches = list(range(n // bs))
        else:
            batches = list(range(0, n - held, bs))
        reports = []
        trainer.register_batch_complete_callback(
            lambda **kw: reports.append((kw['epoch'], kw['batch'])))
        faults = dict((k, what) for k, what, _ in case['faults']
                      if what != 'assertion' or
                      case['trainer'] != 'supervised')
        state = {'step': 0, 'raised': None, 'first': True, 'before': None}
        net = it.network

        def fail(module, args):
            if not module.training and case['trainer'] == 'supervised':
                return
            if state['first']:
                state['first'] = False
                if state['before'] is not None:
                    now = self.weights(net)
                    for k, v in state['before'].items():
                        if not np.array_equal(now[k], v):
                            raise Violation(
                                'lost', 'training again started from other '
                                'weights: %s' % k, 'lost')
            k = state['step']
            state['step'] += 1
            if k in faults:
                what = faults[k]
                res.fault('%s in the forward pass' % what)
                state['raised'] = FAULTS[what]()
                raise state['raised']
        for m in net.modules():
            if not list(m.children()):
                m.register_forward_pre_hook(fail)

        epoch = 0
        calls = -(-case['epochs'] // case['checkpoint_epochs']) + \
            case['calls'] + len(faults)
        for c in range(calls):
            del reports[:]
            state['raised'] = None
            state['first'] = True
            if c:
                res.fault('training resumed')
            try:
                got = trainer.train(it.data)
                err = None
            except (Exception, KeyboardInterrupt) as e:
                err = e
            if isinstance(err, Violation):
                raise err
            if err is not state['raised']:
                raise Violation(
                    'failed' if state['raised'] is None else 'hidden',
                    'call %d of train: %r, a batch failed with %r' % (
                        c, err, state['raised']), 'failed')
            want = [(e, b) for e in range(
                epoch, min(epoch + case['checkpoint_epochs'],
                           case['epochs'])) for b in batches]
            if err is None:
                if reports != want:
                    raise Violation(
                        'batches', 'call %d of train ran %s, expected %s' % (
                            c, reports, want), 'batches')
                if got is not net:
                    raise Violation('network', 'train returned %r' % (got,))
                epoch = min(epoch + case['checkpoint_epochs'],
                            case['epochs'])
            else:
                if reports != want[:len(reports)]:
                    raise Violation(
                        'batches', 'call %d of train ran %s of %s' % (
                            c, reports, want), 'batches')
                epoch += len(reports) // len(batches)
                if trainer.network is not net:
                    raise Violation('lost', 'the network is gone')
            state['before'] = self.weights(net)
        res.note('epochs', epoch, 'calls', calls)

    # -- applying the trained network

    def apply(self, case, res):
        import featureflow as ff
        import torch
        from torch import nn
        import zounds
        import zounds.learn as zl
        n, bs = case['n'], case['batch_size']
        rs = np.random.RandomState(case['entropy'] & 0xffff)
        kind = case['net'] if bs > 1 and n % bs != 1 else 'plain'
        if kind == 'normed' and case['trainer'] == 'gan':
            kind = 'plain'
        x = rs.normal(0, 1, (n, 4)).astype(np.float32)
        probe = rs.normal(0, 1, (7, 4)).astype(np.float32)
        kw = dict(epochs=case['epochs'], batch_size=bs,
                  checkpoint_epochs=case['checkpoint_epochs'])

        if case['trainer'] == 'gan':
            net = nets.Pair(kind, 4)
            trainer = zl.WassersteinGanTrainer(
                net, latent_dimension=(2,), n_critic_iterations=1, **kw)
            if case['part'] == 'generator':
                probe = probe[:, :2]
        else:
            net = nets.Net(kind, 3, 2) if case['trainer'] == 'supervised' \
                else nets.Auto(kind, 4)
            trainer = zl.SupervisedTrainer(
                net, nn.MSELoss(),
                lambda m: torch.optim.SGD(m.parameters(), lr=.05), **kw)

        faults = dict((k, what) for k, what, _ in case['faults']
                      if what in ('memory', 'shape', 'other'))
        state = {'step': 0, 'raised': None}

        def watch(network, inp):
            if network.training:
                k = state['step']
                state['step'] += 1
                if k in faults:
                    res.fault('%s in the forward pass' % faults[k])
                    state['raised'] = FAULTS[faults[k]]()
                    raise state['raised']
            elif case['limit'] is not None and len(inp) > case['limit']:
                res.fault('no memory to apply the network')
                raise FAULTS['memory']()

        class PassOn(ff.Node):
            def _process(self, data):
                yield data

        class Settings(ff.PersistenceSettings):
            id_provider = ff.UuidProvider()
            key_builder = ff.StringDelimitedKeyBuilder()
            database = ff.InMemoryDatabase(key_builder=key_builder)

        class Pipeline(ff.BaseModel, Settings):
            inp = ff.PickleFeature(ff.IteratorNode, store=False)
            # a reservoir may hold fewer examples than it was given
            if kind == 'normed':
                samples = ff.PickleFeature(
                    zl.Multiply if case['trainer'] != 'supervised'
                    else PassOn, needs=inp, store=False)
            else:
                samples = ff.PickleFeature(
                    zl.ShuffledSamples, nsamples=n,
                    multiplexed=case['trainer'] == 'supervised',
                    dtype=np.float32, needs=inp, store=False)
            if case['trainer'] == 'supervised':
                data = ff.PickleFeature(
                    zl.Multiply, factor=1, needs=samples.aspect('data'),
                    store=False)
                labels = ff.PickleFeature(
                    zl.Multiply, factor=1, needs=samples.aspect('labels'),
                    store=False)
                network = ff.PickleFeature(
                    zl.PyTorchNetwork, trainer=trainer,
                    chunksize=case['chunksize'],
                    needs=dict(data=data, labels=labels),
                    store=False)
            elif case['trainer'] == 'auto':
                network = ff.PickleFeature(
                    zl.PyTorchAutoEncoder, trainer=trainer, needs=samples,
                    store=False)
            else:
                network = ff.PickleFeature(
                    zl.PyTorchGan, trainer=trainer, needs=samples,
                    apply_network=case['part'], store=False)
            parts = (network,)
            if case['next']:
                cls = dict(abs=zl.AbsoluteValue, binarize=zl.Binarize,
                           unitnorm=zl.UnitNorm)[case['next']]
                after = ff.PickleFeature(cls, needs=network, store=False)
                parts = (network, after)
            pipeline = ff.PickleFeature(
                zl.PreprocessingPipeline, needs=parts, store=True)

        y = rs.normal(0, 1, (n, 2)).astype(np.float32)

        def feed():
            size = n if kind == 'normed' else 64
            for i in range(0, n, size):
                sl = slice(i, i + size)
                if case['trainer'] == 'supervised':
                    yield dict(data=x[sl], labels=y[sl])
                else:
                    yield x[sl]

        for r in range(case['rounds']):
            state['raised'] = None
            before = self.weights(net)
            nets.WATCH[0] = watch
            try:
                _id = Pipeline.process(inp=feed())
                err = None
            except Exception as e:
                err = e
            nets.WATCH[0] = None
            if err is not None:
                if err is state['raised']:
                    if trainer.network is not net:
                        raise Violation('lost', 'the network is gone')
                    continue
                raise Violation(
                    'lost', 'the network was trained and lost: %s' %
                    one_line(err), 'lost:' + type(err).__name__)
            if r:
                res.fault('trained again')
            learned = Pipeline(_id).pipeline
            net.eval()
            with torch.no_grad():
                part = {'supervised': lambda v: net(v),
                        'auto': lambda v: net.encoder(v),
                        'gan': lambda v: getattr(net, case['part'])(v)}[case['trainer']]
                want = part(torch.from_numpy(probe)).numpy()
            if case['next'] == 'abs':
                want = np.abs(want)
            elif case['next'] == 'binarize':
                want = (want > .5).astype(np.uint8)
            elif case['next'] == 'unitnorm':
                want = want / np.linalg.norm(want, axis=1, keepdims=True)
            try:
                got = learned.transform(probe).data
            except Exception as e:
                raise Violation(
                    'lost', 'the stored network does not work: %s' %
                    one_line(e), 'lost')
            if got.shape != want.shape or not np.allclose(
                    got, want, rtol=1e-3, atol=1e-4):
                raise Violation(
                    'lost', 'the stored network is not the one trained: '
                    '%s, %s' % (got[:2], want[:2]), 'lost')
        res.note('rounds', case['rounds'])


CHECK = C19()
