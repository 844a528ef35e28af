"""
C25: adversarial and triplet training make the updates they should
"""
import copy
import itertools
import random
import warnings

import numpy as np

from sim.runner import Check, Violation, one_line
from checks import nets
from checks.c19_training import FAULTS


class Adam(object):
    """an independent reference, for one network"""

    def __init__(self, lr, betas):
        self.lr, self.betas = lr, betas
        self.t, self.m, self.v = 0, {}, {}

    def step(self, grads):
        self.t += 1
        b1, b2 = self.betas
        out = {}
        for k, g in grads.items():
            m = self.m[k] = b1 * self.m.get(k, 0.) + (1 - b1) * g
            v = self.v[k] = b2 * self.v.get(k, 0.) + (1 - b2) * g * g
            root = np.sqrt(v / (1 - b2 ** self.t))
            out[k] = (-self.lr * (m / (1 - b1 ** self.t)) / (root + 1e-8),
                      root > 1e-4)
        return out


def weights(net):
    return dict((k, v.detach().numpy().astype(np.float64))
                for k, v in net.named_parameters())


def changed(a, b):
    return any(not np.array_equal(a[k], b[k]) for k in a)


def matches(rows, pool, tol=1e-5):
    """which of rows are in pool"""
    rows, pool = (np.asarray(x, dtype=np.float64) for x in (rows, pool))
    rows = rows.reshape((len(rows), -1))
    pool = pool.reshape((len(pool), -1))
    d = np.abs(rows[:, None] - pool[None]).max(axis=-1)
    return d.min(axis=1) <= tol * (1 + np.abs(rows).max(axis=1))


class C25(Check):
    id = 'C25'
    runs = {'quick': 450, 'thorough': 30000}
    rule = (
        'a case is an adversarial pair of networks or an embedding, a '
        'training set of examples of one or two dimensions, with or without '
        'preprocessing and arguments that depend on the epoch, batch sizes, '
        'a number of iterations of the critic, training in one go or from '
        'checkpoint to checkpoint, failures and interruptions in any forward '
        'or backward pass; non-trivial when something failed or training '
        'was resumed')
    real = ['zounds.learn.WassersteinGanTrainer',
            'zounds.learn.TripletEmbeddingTrainer',
            'zounds.learn Trainer and Wasserstein losses', 'torch']
    stub = ['failures']

    def generate(self, rng, tier):
        epochs = rng.choice([1, 2, 3, 5])
        kind = rng.choice(['gan', 'gan', 'triplet'])
        bs = rng.choice([1, 2, 3, 5, 6])
        return {
            'kind': kind, 'epochs': epochs, 'batch_size': bs,
            'n': rng.choice([1, 2, 3, rng.randint(1, 12)])
            if kind == 'gan' else bs * rng.randint(1, 4) + rng.randrange(bs),
            'checkpoint_epochs': rng.choice([1, 1, 2, epochs]),
            'critic': rng.choice([1, 2, 5]),
            'shape': rng.choice([[4], [4], [1, 4], [2, 3]]),
            'latent': rng.choice([[2], [3], [2, 2]]),
            'net': rng.choice(['plain', 'deep']),
            'preprocess': rng.random() < .4,
            'arguments': rng.random() < .3,
            'debug': rng.random() < .2, 'own': rng.random() < .2,
            'dtype': rng.choice(['f4', 'f4', 'f8']),
            'entropy': rng.getrandbits(32),
            'faults': sorted(
                [rng.randint(0, 30), rng.choice(
                    ['assertion', 'memory', 'interrupt', 'other']),
                 rng.choice(['forward', 'backward', 'callback'])]
                for _ in range(rng.choice([0, 0, 1, 1, 2]))),
        }

    def shrink(self, case):
        for i in range(len(case['faults'])):
            yield dict(case, faults=case['faults'][:i] +
                       case['faults'][i + 1:])
        for k, v in (('preprocess', False), ('arguments', False),
                     ('own', False), ('critic', 1), ('net', 'plain'), ('epochs', 1),
                     ('shape', [4]), ('latent', [2]), ('debug', False)):
            if case[k] != v:
                yield dict(case, **{k: v})
        if case['n'] > 1:
            yield dict(case, n=case['n'] - 1)

    def execute(self, case, res):
        import torch
        seed = case['entropy'] & 0xffff
        torch.manual_seed(seed)
        random.seed(seed)
        np.random.seed(seed)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if case['kind'] == 'gan':
                    Gan(case, res).run()
                else:
                    Triplet(case, res).run()
        finally:
            nets.WATCH[0] = None
        res.nontrivial = bool(res.faults)


class Trained(object):
    """one trainer, all its updates and what led to them"""

    def __init__(self, case, res):
        self.case, self.res = case, res
        self.rs = np.random.RandomState(case['entropy'] & 0xffff)
        self.calls = []     # [network, input, mode] since the last update
        self.step = -1
        self.faults = list(case['faults'])
        self.failed = None
        self.raised = None
        self.reports = 0

    def fail(self, where):
        for f in self.faults:
            if f[0] <= self.step and f[2] == where:
                self.faults.remove(f)
                self.res.fault('%s in the %s' % (f[1], where))
                self.failed = where
                self.raised = FAULTS[f[1]]()
                raise self.raised

    def watch(self, network, x):
        if any(network is d for d in self.doubles.values()):
            return
        self.settle()
        self.step += 1
        if not network.training:
            raise Violation('mode', 'trained in evaluation mode')
        if x.dtype.itemsize != 4:
            raise Violation('type', 'trained with %s' % (x.dtype,))
        self.calls.append((network, x.detach().numpy().copy()))
        self.fail('forward')

    def report(self, **kw):
        self.settle()
        self.reported(kw)
        self.reports += 1
        self.step += 1
        self.fail('callback')

    def settle(self):
        """has something been updated?"""

    def verify(self, name, net, before, loss, opt):
        """compare the update of net with that for minimising loss"""
        import torch
        grads = torch.autograd.grad(loss, [p for _, p in self.params(name)],
                                    allow_unused=True)
        grads = dict(
            (k, np.zeros(p.shape) if g is None else g.detach().numpy())
            for (k, p), g in zip(self.params(name), grads))
        now = weights(net)
        for k, (delta, reliable) in opt.step(grads).items():
            got = now[k] - before[k]
            ok = np.abs(got - delta) <= \
                .05 * opt.lr + 2e-7 * np.abs(before[k])
            if not np.all(ok | ~reliable):
                raise Violation(
                    'update', 'update %d of the %s changes %s by %s, should '
                    'change it by %s' % (
                        opt.t, name, k, got[~ok].ravel()[:4],
                        delta[~ok].ravel()[:4]), 'update:' + name)

    def params(self, name):
        return list(self.doubles[name].named_parameters())

    def double(self, name, values):
        """a copy of a network at higher precision, with these weights"""
        import torch
        net = self.doubles[name]
        with torch.no_grad():
            for k, p in net.named_parameters():
                p.copy_(torch.from_numpy(values[k]))
        return net

    def run(self):
        case, res = self.case, self.res
        trainer = self.trainer
        trainer.register_batch_complete_callback(self.report)
        next(self.hooked.parameters()).register_hook(self.gradient)
        data = self.training_data()
        original = copy.deepcopy(data)
        calls = -(-case['epochs'] // case['checkpoint_epochs']) + \
            len(case['faults'])
        epoch = 0
        for c in range(calls):
            self.raised = None
            self.epoch = epoch
            self.start()
            if c:
                res.fault('training resumed')
            nets.WATCH[0] = self.watch
            try:
                got, err = trainer.train(data), None
            except (Exception, KeyboardInterrupt) as e:
                err = e
            nets.WATCH[0] = None
            if isinstance(err, Violation):
                raise err
            if err is not self.raised:
                raise Violation(
                    'failed', 'call %d of train: %r, a pass failed with %r' % (
                        c, err, self.raised),
                    'failed:%s' % type(err).__name__)
            self.settle()
            stop = min(epoch + case['checkpoint_epochs'], case['epochs'])
            if err is None:
                if self.reports != (stop - epoch) * self.batches:
                    raise Violation(
                        'batches', 'call %d of train took %d batches of %d' % (
                            c, self.reports, (stop - epoch) * self.batches))
                if got is not self.network:
                    raise Violation('network', 'train returned %r' % (got,))
                epoch = stop
            else:
                epoch += self.reports // self.batches
                if self.reports and self.reports % self.batches == 0 and \
                        self.failed == 'callback':
                    epoch -= 1      # the epoch was not counted yet
            for a, b in zip(self.arrays(original), self.arrays(data)):
                if not np.array_equal(a, b):
                    raise Violation('data', 'the training data were changed')
        self.statistics()
        res.note('epochs', epoch, 'updates', [
            (k, o.t) for k, o in sorted(self.optims.items())])

    def gradient(self, g):
        self.step += 1
        self.fail('backward')

    @staticmethod
    def arrays(data):
        return [data] if isinstance(data, np.ndarray) else \
            [data[k] for k in sorted(data)]

    def start(self):
        del self.calls[:]
        self.reports = 0

def own_trainer(it):
    """what a user would write with the building blocks for it"""
    import torch
    import zounds.learn as zl
    from zounds.learn.trainer import Trainer
    case = it.case
    critic, generator = it.nets['critic'], it.nets['generator']
    wasserstein = zl.WassersteinCriticLoss(critic)
    penalty = zl.WassersteinGradientPenaltyLoss(critic)
    learned = zl.LearnedWassersteinLoss(critic)

    class Own(Trainer):
        def __init__(self):
            super(Own, self).__init__(
                case['epochs'], case['batch_size'],
                checkpoint_epochs=case['checkpoint_epochs'])
            self.network = it.network
            self.optims = [torch.optim.Adam(
                x.parameters(), lr=1e-4, betas=(0, .9))
                for x in (critic, generator)]

        def noise(self):
            return torch.randn([self.batch_size] + case['latent'])

        def _training_step(self, epoch, batch, data):
            kw = dict(scale=it.scale(epoch))
            for _ in range(case['critic']):
                self._zero_grad()
                real = self._minibatch(data) * it.factor(epoch)
                fake = (generator(self.noise(), **kw) *
                        it.factor(epoch)).detach()
                loss = wasserstein(real, fake, **kw) + \
                    penalty(real, fake, **kw)
                loss.backward()
                self.optims[0].step()
            self._zero_grad()
            fake = generator(self.noise(), **kw) * it.factor(epoch)
            g_loss = learned(fake, **kw)
            g_loss.backward()
            self.optims[1].step()
            return dict(critic_loss=loss.item(), samples=fake,
                        generator_score=g_loss.item())

    it.data = it.data.astype(np.float32)
    return Own()


class Gan(Trained):

    def __init__(self, case, res):
        import zounds.learn as zl
        super(Gan, self).__init__(case, res)
        self.network = nets.Adversaries(
            case['net'], case['latent'], case['shape'])
        self.hooked = self.network.discriminator
        self.data = self.rs.normal(
            0, 1, [case['n']] + case['shape']).astype(case['dtype'])
        self.nets = {'critic': self.network.discriminator,
                     'generator': self.network.generator}
        kw = {}
        if case['preprocess']:
            kw['preprocess_minibatch'] = \
                lambda epoch, x: x * self.factor(epoch)
        if case['arguments']:
            kw['kwargs_factory'] = lambda epoch: dict(scale=self.scale(epoch))
        if case['own']:
            self.trainer = own_trainer(self)
        else:
            self.trainer = zl.WassersteinGanTrainer(
                self.network, latent_dimension=tuple(case['latent']),
                n_critic_iterations=case['critic'], epochs=case['epochs'],
                batch_size=case['batch_size'], debug_gradient=case['debug'],
                checkpoint_epochs=case['checkpoint_epochs'], **kw)
        self.batches = -(-case['n'] // case['batch_size'])
        self.doubles = dict((k, copy.deepcopy(v).double())
                            for k, v in self.nets.items())
        self.optims = dict((k, Adam(1e-4, (0, .9))) for k in self.nets)
        self.state = dict((k, weights(v)) for k, v in self.nets.items())
        self.updates = []       # since train was called
        self.epoch = 0
        self.noises, self.drawn, self.alphas = [], [], []
        self.scores = {}

    def training_data(self):
        return self.data

    def start(self):
        super(Gan, self).start()
        self.updates = []

    def factor(self, epoch):
        return [1., .5, 2.][epoch % 3] if self.case['preprocess'] else 1.

    def scale(self, epoch):
        return [1., .5, 1.5][epoch % 3] if self.case['arguments'] else 1.

    def settle(self):
        now = dict((k, weights(v)) for k, v in self.nets.items())
        updated = [k for k in sorted(now) if changed(self.state[k], now[k])]
        if not updated:
            return
        if len(updated) > 1:
            raise Violation(
                'alone', 'critic and generator were updated together')
        name = updated[0]
        # which batch, which epoch?
        per = self.case['critic'] + 1
        k = len(self.updates)
        want = 'generator' if k % per == per - 1 else 'critic'
        if name != want:
            raise Violation(
                'order', 'update %d is one of the %s: %s' % (
                    k, name, self.updates[-8:]), 'order')
        epoch = self.epoch + (k // per) // self.batches
        getattr(self, name)(epoch)
        self.updates.append(name)
        self.state = now
        del self.calls[:]

    def inputs(self, name):
        found = [x for n, x in self.calls if n is self.nets[name]]
        shape = self.case['latent' if name == 'generator' else 'shape']
        if not found:
            raise Violation('inputs', 'an update without the %s' % name)
        return np.concatenate([x.reshape([len(x)] + shape) for x in found])

    def generated(self, epoch):
        """what the generator makes, and of which noise"""
        import torch
        noise = self.inputs('generator')
        if len(noise) != self.case['batch_size']:
            raise Violation(
                'inputs', '%d examples generated, the size of a batch is %d' %
                (len(noise), self.case['batch_size']))
        for old in self.noises:
            if np.abs(old - noise).max() < 1e-6:
                raise Violation('noise', 'the same noise was used again')
        self.noises.append(noise)
        net = self.double('generator', self.state['generator'])
        fake = net(torch.from_numpy(noise).double(), scale=self.scale(epoch))
        return fake * self.factor(epoch)

    def critic(self, epoch):
        import torch
        bs = self.case['batch_size']
        fake = self.generated(epoch).detach()
        rows = self.inputs('critic')
        pool = self.data.astype(np.float32) * np.float32(self.factor(epoch))
        is_real = matches(rows, pool, 1e-7)
        is_fake = matches(rows, fake.numpy(), 1e-5) & ~is_real
        # a point may by chance be as good as at the end of its line
        for i in np.flatnonzero(is_fake):
            for tol in (1e-6, 3e-7):
                if is_fake.sum() > bs and not matches(
                        rows[i:i + 1], fake.numpy(), tol)[0]:
                    is_fake[i] = False
        real, fakes = rows[is_real], rows[is_fake]
        mixed = rows[~is_real & ~is_fake]
        counts = [len(real), len(fakes), len(mixed)]
        if counts[0] != bs or counts[1] != bs or counts[2] != bs:
            raise Violation(
                'inputs', 'an update of the critic saw %d examples, %d '
                'generated ones and %d others' % tuple(counts), 'inputs')
        self.drawn.append(np.abs(
            real.reshape((bs, 1, -1)) -
            pool.reshape((1, len(pool), -1))).max(axis=-1).argmin(axis=1))
        self.between(mixed, real, fake.numpy())
        c = self.double('critic', self.state['critic'])
        s = self.scale(epoch)
        real, mixed = (torch.from_numpy(x).double() for x in (real, mixed))
        mixed.requires_grad_(True)
        grad, = torch.autograd.grad(
            c(mixed, scale=s).sum(), mixed, create_graph=True)
        norm = grad.reshape(bs, -1).norm(2, dim=1)
        real_score = c(real, scale=s).mean()
        loss = c(fake, scale=s).mean() - real_score + \
            10 * ((norm - 1) ** 2).mean()
        self.scores['real_score'] = real_score.item()
        self.scores['critic_loss'] = loss.item()
        self.verify('critic', self.nets['critic'], self.state['critic'],
                    loss, self.optims['critic'])

    def between(self, mixed, real, fake):
        bs = len(mixed)
        m, r, f = (np.asarray(x, dtype=np.float64).reshape((bs, -1))
                   for x in (mixed, real, fake))
        for i in range(bs):
            for j, k in [(i, i)] + list(itertools.product(
                    range(bs), range(bs))):
                d = r[j] - f[k]
                a = np.dot(m[i] - f[k], d) / max(np.dot(d, d), 1e-12)
                if -1e-4 <= a <= 1 + 1e-4 and np.allclose(
                        m[i], f[k] + a * d, rtol=1e-4, atol=1e-5):
                    self.alphas.append(a)
                    break
            else:
                raise Violation(
                    'between', 'the gradient is held at %s, which is not '
                    'between an example and a generated one' % (m[i][:4],))

    def generator(self, epoch):
        fake = self.generated(epoch)
        rows = self.inputs('critic')
        if len(rows) != len(fake) or not matches(
                rows, fake.detach().numpy(), 1e-5).all():
            raise Violation(
                'inputs', 'an update of the generator that was not for what '
                'it generated')
        c = self.double('critic', self.state['critic'])
        loss = -c(fake, scale=self.scale(epoch)).mean()
        self.scores['generator_score'] = loss.item()
        self.verify('generator', self.nets['generator'],
                    self.state['generator'], loss, self.optims['generator'])
        self.samples = fake.detach().numpy()

    def reported(self, kw):
        per = self.case['critic'] + 1
        k = len(self.updates)
        if k % per or not k or k // per != self.reports + 1:
            raise Violation(
                'order', 'a batch was reported after the updates %s' % (
                    self.updates[-8:],), 'order')
        b = k // per - 1
        want = (self.epoch + b // self.batches,
                b % self.batches * self.case['batch_size'])
        if (kw['epoch'], kw['batch']) != want:
            raise Violation(
                'batches', 'epoch and batch are %s, reported as %s' % (
                    want, (kw['epoch'], kw['batch'])))
        for k, v in self.scores.items():
            if (k in kw or not self.case['own']) and not np.isclose(
                    kw[k], v, rtol=1e-3, atol=1e-4):
                raise Violation(
                    'report', '%s is %s, reported as %s' % (k, v, kw[k]),
                    'report:' + k)
        got = kw['samples'].detach().numpy()
        if got.shape != self.samples.shape or not np.allclose(
                got, self.samples, rtol=1e-4, atol=1e-5):
            raise Violation('report', 'other samples than those generated')
        if kw['network'] is not self.network:
            raise Violation('report', 'another network was reported')

    def statistics(self):
        noise = np.concatenate([x.ravel() for x in self.noises]) \
            if self.noises else np.zeros(0)
        n = len(noise)
        if n >= 60:
            if abs(noise.mean()) > 6 / np.sqrt(n) or \
                    abs(noise.var() - 1) > 6 * np.sqrt(2. / n) + .05:
                raise Violation(
                    'noise', 'the noise has mean %s and variance %s' % (
                        noise.mean(), noise.var()))
        drawn = np.concatenate(self.drawn) if self.drawn else np.zeros(0)
        rows = self.case['n']
        if len(drawn) >= 30 * rows and len(set(drawn.tolist())) < rows:
            raise Violation(
                'drawn', 'only %d of %d examples were seen in %d draws' % (
                    len(set(drawn.tolist())), rows, len(drawn)))
        a = np.array(self.alphas)
        if len(a) >= 40 and (a.min() > .4 or a.max() < .6 or
                             len(set(np.round(a, 5))) < len(a) * .8):
            raise Violation(
                'between', 'points are between %s and %s, %d different of %d'
                % (a.min(), a.max(), len(set(np.round(a, 5))), len(a)))


class Triplet(Trained):

    def __init__(self, case, res):
        import zounds.learn as zl
        super(Triplet, self).__init__(case, res)
        self.network = nets.Scaled(case['net'], (4,), (3,))
        self.hooked = self.network
        self.data = self.rs.normal(0, 1, (case['n'], 8)).astype(case['dtype'])

        def near(anchor, wider):
            return wider[:, 2: 6]

        def louder(anchor, wider):
            return anchor * 2 + 1

        self.deformations = [near, louder]
        self.trainer = zl.TripletEmbeddingTrainer(
            self.network, epochs=case['epochs'],
            batch_size=case['batch_size'], anchor_slice=slice(1, 5),
            deformations=self.deformations,
            checkpoint_epochs=case['checkpoint_epochs'])
        self.batches = case['n'] // case['batch_size']
        self.doubles = {'embedding': copy.deepcopy(self.network).double()}
        self.optims = {'embedding': Adam(1e-5, (.9, .999))}
        self.state = weights(self.network)
        self.drawn, self.used = [], []

    def training_data(self):
        return dict(data=self.data)

    def start(self):
        super(Triplet, self).start()
        self.pending = False

    def rows(self, x):
        """which examples are these anchors?"""
        pool = self.data[:, 1:5].astype(np.float32)
        d = np.abs(x[:, None] - pool[None]).max(axis=-1)
        if d.min(axis=1).max() > 1e-6:
            return None
        return d.argmin(axis=1)

    def reported(self, kw):
        import torch
        bs = self.case['batch_size']
        x = np.concatenate([x for _, x in self.calls]) if self.calls else \
            np.zeros((0, 4))
        if len(x) != 3 * bs:
            raise Violation(
                'inputs', 'a batch of %d triplets saw %d examples' % (
                    bs, len(x)))
        parts = [x[:bs], x[bs:2 * bs], x[2 * bs:]]
        chosen = [d for d in self.deformations
                  if d.__name__ == kw['deformation']]
        if len(chosen) != 1:
            raise Violation('report', 'deformation %r' % kw['deformation'])
        net = self.double('embedding', self.state)
        for a, p, n in itertools.permutations(range(3)):
            ia, i_n = self.rows(parts[a]), self.rows(parts[n])
            if ia is None or i_n is None:
                continue
            want = chosen[0](parts[a], self.data[ia]).astype(np.float32)
            if np.allclose(want, parts[p], rtol=1e-5, atol=1e-6):
                break
        else:
            raise Violation(
                'inputs', 'not anchors, other examples and anchors deformed '
                'by %s' % kw['deformation'])
        self.drawn += [ia, i_n]
        self.used.append(kw['deformation'])
        out = []
        for i in (a, p, n):
            y = net(torch.from_numpy(parts[i]).double())
            out.append(y / y.norm(2, dim=1, keepdim=True))
        dist = [((out[0] - out[i] + 1e-6) ** 2).sum(dim=1).sqrt()
                for i in (1, 2)]
        loss = torch.clamp(dist[0] - dist[1] + .1, min=0).mean()
        if not np.isclose(loss.item(), kw['error'], rtol=1e-3, atol=1e-4):
            raise Violation(
                'report', 'the error is %s, reported as %s' % (
                    loss.item(), kw['error']), 'report:error')
        self.verify('embedding', self.network, self.state, loss,
                    self.optims['embedding'])
        self.state = weights(self.network)
        del self.calls[:]

    def settle(self):
        if len(self.calls) == 0 and changed(self.state, weights(self.network)):
            raise Violation('order', 'an update without a batch')

    def statistics(self):
        rows = self.case['n']
        drawn = np.concatenate(self.drawn) if self.drawn else np.zeros(0)
        if len(drawn) >= 30 * rows and len(set(drawn.tolist())) < rows:
            raise Violation(
                'drawn', 'only %d of %d examples were seen in %d draws' % (
                    len(set(drawn.tolist())), rows, len(drawn)))
        if len(self.used) >= 40 and len(set(self.used)) < 2:
            raise Violation('drawn', 'only one deformation is ever used')


CHECK = C25()
