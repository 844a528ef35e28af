"""
C18: observers never disturb training
"""
import json
import random

import numpy as np

from sim import sched, web
from sim.runner import Check, Violation, sched_spec, simulate, one_line

TRAINERS = ['supervised', 'supervised', 'gan', 'triplet', 'base']


class Linear(object):
    """trainers of tiny networks, always the same for the same case"""

    def __init__(self, case):
        import torch
        from torch import nn
        import zounds.learn as zl
        self.case = case
        seed = case['entropy'] & 0xffff
        torch.manual_seed(seed)
        rs = np.random.RandomState(seed)
        n = case['n']
        kind = case['trainer']
        kw = dict(epochs=case['epochs'], batch_size=case['batch_size'],
                  checkpoint_epochs=case['checkpoint_epochs'])
        if kind == 'supervised':
            self.data = dict(
                data=rs.normal(0, 1, (n, 3)).astype(np.float32),
                labels=rs.normal(0, 1, (n, 2)).astype(np.float32))
            self.network = nn.Linear(3, 2)
            self.trainer = zl.SupervisedTrainer(
                self.network, nn.MSELoss(),
                lambda m: torch.optim.SGD(m.parameters(), lr=.05),
                holdout_percent=case['holdout'], **kw)
        elif kind == 'gan':
            class Pair(nn.Module):
                def __init__(self):
                    super(Pair, self).__init__()
                    self.generator = nn.Linear(2, 4)
                    self.discriminator = nn.Linear(4, 1)
            self.data = rs.normal(0, 1, (n, 4)).astype(np.float32)
            self.network = Pair()
            self.trainer = zl.WassersteinGanTrainer(
                self.network, latent_dimension=(2,), n_critic_iterations=1,
                **kw)
        elif kind == 'triplet':
            def near(anchor, wider):
                return wider[:, 2: 6]

            def noisy(anchor, wider):
                return anchor + 1
            self.data = dict(
                data=rs.normal(0, 1, (n, 8)).astype(np.float32))
            self.network = nn.Linear(4, 3)
            self.trainer = zl.TripletEmbeddingTrainer(
                self.network, anchor_slice=slice(0, 4),
                deformations=[near, noisy], **kw)
        else:
            class Stepper(zl.trainer.Trainer):
                def __init__(self, network, **kw):
                    super(Stepper, self).__init__(**kw)
                    self.network = network
                    self.optim = torch.optim.SGD(network.parameters(), lr=.1)

                def _training_step(self, epoch, batch, data):
                    self._zero_grad()
                    x = self._minibatch(data)
                    loss = (self.network(x) ** 2).mean()
                    loss.backward()
                    self.optim.step()
                    out = dict(loss=float(loss.data.item()))
                    self.steps = getattr(self, 'steps', 0) + 1
                    # not everything is known after every batch
                    if self.steps % 3 == 1:
                        out['sometimes'] = self.steps
                    return out
            self.data = rs.normal(0, 1, (n, 3)).astype(np.float32)
            self.network = nn.Linear(3, 2)
            self.trainer = Stepper(self.network, **kw)

    def app(self):
        from zounds.ui import training_monitor as tm
        cls, keys = {
            'supervised': (tm.SupervisedTrainingMonitorApp,
                           ('train_error', 'test_error')),
            'gan': (tm.GanTrainingMonitorApp,
                    ('generator_score', 'real_score', 'critic_loss')),
            'triplet': (tm.TripletEmbeddingMonitorApp, ('error',)),
            'base': (tm.TrainingMonitorApp, ('loss', 'missing', 'sometimes')),
        }[self.case['trainer']]
        kw = dict(trainer=self.trainer,
                  batch_frequency=self.case['frequency'],
                  n_training_points=5)
        if cls is tm.TrainingMonitorApp:
            kw['keys_to_graph'] = keys
        return cls(**kw), keys

    def train(self):
        import torch
        seed = self.case['entropy'] & 0xffff
        random.seed(seed)
        np.random.seed(seed)
        torch.manual_seed(seed)
        # as learning pipelines do: from checkpoint to checkpoint
        for _ in range(-(-self.case['epochs'] //
                         self.case['checkpoint_epochs'])):
            self.trainer.train(self.data)

    def weights(self):
        return dict((k, v.detach().numpy().copy())
                    for k, v in self.network.state_dict().items())


def told(kwargs):
    return dict((k, v) for k, v in kwargs.items()
                if k not in ('samples', 'network'))


class Watcher(object):
    def __init__(self, log):
        self.log = log

    def batch_complete(self, *args, **kwargs):
        self.log.append(told(kwargs))


class C18(Check):
    id = 'C18'
    runs = {'quick': 700, 'thorough': 20000}
    rule = (
        'a case is a trainer of any kind, a training set, callbacks that are '
        'registered and unregistered from other threads, web clients that '
        'join over a web socket, stay, leave, vanish, stop reading or read '
        'slowly, requests for graphs, and an interleaving; non-trivial when '
        'an observer joined while training was under way')
    real = ['zounds.learn trainers', 'zounds.ui.training_monitor',
            'tornado (loop, streams, http, web sockets)', 'torch']
    stub = ['sockets and poll', 'clock', 'thread scheduling']
    assumptions = [
        'callbacks given by users do not raise themselves and do not touch '
        'the random number generators']

    def setup(self):
        web.install()

    def generate(self, rng, tier):
        k = rng.choice(TRAINERS)
        batch = rng.choice([1, 2, 3, 4])
        n = rng.randint(batch, 14)
        epochs = rng.choice([1, 1, 2, 3])
        total = epochs * -(-n // batch)
        obs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            obs.append({
                'kind': rng.choice(['func', 'method', 'method', 'shared']),
                'spans': [[rng.randint(0, total), rng.randint(0, total)]
                          for _ in range(rng.choice([1, 1, 2]))],
                'nap': rng.choice([0, 0, 1])})
        clients = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            clients.append({
                'at': rng.randint(0, total),
                'messages': rng.randint(0, 4),
                'then': rng.choice(
                    ['stay', 'stay', 'close', 'abort', 'vanish', 'deaf']),
                'slow': rng.choice([0, 0, 1]),
                'capacity': rng.choice([0, 0, 64, 300])})
        if not obs and not clients:
            clients = [{'at': 0, 'messages': 1, 'then': 'abort', 'slow': 0,
                        'capacity': 0}]
        return {
            'trainer': k, 'n': n, 'batch_size': batch, 'epochs': epochs,
            'checkpoint_epochs': rng.choice([1, 1, 2]),
            'holdout': rng.choice([0, 0, .3]),
            'frequency': rng.choice([1, 1, 1, batch, 2]),
            'observers': obs, 'clients': clients,
            'graphs': rng.choice([0] * 14 + [1]),
            'later': rng.random() < .2,
            'web': bool(clients) or rng.random() < .2,
            'entropy': rng.getrandbits(32), 'sched': sched_spec(rng)}

    def shrink(self, case):
        for f in ('observers', 'clients'):
            for i in range(len(case[f])):
                yield dict(case, **{f: case[f][:i] + case[f][i + 1:]})
        for i, c in enumerate(case['clients']):
            for k, v in (('slow', 0), ('capacity', 0), ('messages', 0)):
                if c[k] != v:
                    cs = list(case['clients'])
                    cs[i] = dict(c, **{k: v})
                    yield dict(case, clients=cs)
        for k, v in (('graphs', 0), ('epochs', 1), ('frequency', 1),
                     ('holdout', 0)):
            if case[k] != v:
                yield dict(case, **{k: v})
        if case['n'] > case['batch_size']:
            yield dict(case, n=case['n'] - 1)

    # -- the run

    def execute(self, case, res):
        alone = Linear(case)
        batches = []
        alone.trainer.register_batch_complete_callback(
            lambda *a, **k: batches.append(told(k)))
        alone.train()
        want = alone.weights()

        it = Linear(case)
        trainer = it.trainer
        self.joined = 0
        seen = []
        state = {'over': False, 'failed': None}
        bell = object()

        net = web.fresh(case['entropy'], res)

        def main(s):
            def primary(*a, **k):
                seen.append(told(k))
                s.notify(bell)
                s.yield_point()

            trainer.register_batch_complete_callback(primary)

            def until(n):
                while len(seen) < n and not state['over']:
                    s.block(bell)

            app = keys = None
            if case['web']:
                app, keys = it.app()
                self.spy(trainer)
                app.start_in_thread(port=8888)
                net.wait_listening(8888)

            errors = []

            def guarded(f, *a):
                def run():
                    try:
                        f(*a)
                    except Violation as v:
                        errors.append(v)
                    except (web.Closed, web.ClientTimeout,
                            web.ConnectionRefused, web.Violation) as e:
                        errors.append(Violation(
                            'web', '%s in %s' % (one_line(e), a)))
                return run

            def train():
                try:
                    it.train()
                except Exception as e:
                    state['failed'] = e
                state['over'] = True
                s.notify(bell)

            threads = [s.spawn(train, 'trainer')]
            for i, o in enumerate(case['observers']):
                threads.append(s.spawn(
                    guarded(self.observe, s, case, res, trainer, o, seen,
                            state, until, batches), 'observer%d' % i))
            for i, c in enumerate(case['clients']):
                if app is not None:
                    threads.append(s.spawn(
                        guarded(self.client, s, case, res, net, c, keys,
                                seen, state, until, batches),
                        'client%d' % i))
            for i in range(case['graphs'] if app is not None else 0):
                threads.append(s.spawn(
                    guarded(self.graph, net, res), 'graph%d' % i))
            for t in threads:
                s.join(t)
            if state['failed'] is not None:
                raise Violation(
                    'training', 'training failed: %s' %
                    one_line(state['failed']), 'training')
            if errors:
                raise errors[0]
            if app is not None:
                try:
                    con = net.connect(8888)
                    r = con.request('GET', '/')
                    con.close()
                except (web.Closed, web.ClientTimeout) as e:
                    raise Violation('monitor', 'the monitor is gone after '
                                    'training: %s' % one_line(e))
                if r.status != 200:
                    raise Violation('monitor', 'the monitor answers %s after '
                                    'training' % r.status)
                for f in list(net.fds.values()):
                    if isinstance(f, web.SimSocket):
                        if f in self.mine:
                            f.close()
                s.sleep(5)
                app.__exit__(None, None, None)
                if self.registered:
                    raise Violation(
                        'leak', '%d observers are still registered after '
                        'their web clients left' % len(self.registered))
                if case['later']:
                    # another training, with a monitor of its own
                    other = Linear(dict(case, trainer='base'))
                    its = []
                    app2, keys2 = other.app()
                    other.trainer.register_batch_complete_callback(
                        lambda *a, **k: its.append(told(k)))
                    other.train()
                    self.history(case, app2, keys2, its)
                self.history(case, app, keys, batches)

        try:
            simulate(case, res, main, max_steps=400000)
        except sched.Deadlock as e:
            raise Violation('deadlock', str(e))
        except sched.StepLimit as e:
            raise Violation('no end', str(e))
        if seen != batches:
            raise Violation(
                'training', 'observed, the batches were %s; unobserved %s' % (
                    brief(seen), brief(batches)), 'training')
        got = it.weights()
        for k in want:
            if not np.array_equal(got[k], want[k]):
                raise Violation(
                    'training', 'the weights %s differ when observed' % k,
                    'training')
        res.nontrivial = self.joined > 0
        res.note('batches', len(seen), 'joined', self.joined)

    def history(self, case, app, keys, batches):
        for k in keys:
            h = list(app.training_history[k])
            w = [b[k] for b in batches
                 if b['batch'] % case['frequency'] == 0 and k in b]
            if h != w[len(w) - len(h):] or len(h) < min(len(w), 5):
                raise Violation(
                    'history', 'the history to be graphed of %s is '
                    '%s, reported were %s' % (k, h, w))

    def spy(self, trainer):
        self.registered = []
        self.mine = set()
        reg = trainer.register_batch_complete_callback
        unreg = trainer.unregister_batch_complete_callback

        def register(callback):
            self.registered.append(callback)
            return reg(callback)

        def unregister(callback):
            if callback in self.registered:
                self.registered.remove(callback)
            return unreg(callback)
        trainer.register_batch_complete_callback = register
        trainer.unregister_batch_complete_callback = unregister

    def observe(self, s, case, res, trainer, o, seen, state, until, batches):
        for start, length in o['spans']:
            log = []
            if o['kind'] == 'func':
                def f(*args, **kwargs):
                    log.append(told(kwargs))
                    if o['nap']:
                        s.sleep(.01)
                register = unregister = f
            elif o['kind'] == 'method':
                w = Watcher(log)
                register = w.batch_complete
                unregister = w.batch_complete
            else:
                w = Watcher(log)
                other = Watcher([])
                # somebody else's callback of the same class comes and goes
                trainer.register_batch_complete_callback(
                    other.batch_complete)
                register = unregister = w.batch_complete
            until(start)
            lo = len(seen)
            trainer.register_batch_complete_callback(register)
            hi = len(seen)
            if 0 < hi < len(batches):
                self.joined += 1
                res.fault('callback registered while training')
            if o['kind'] == 'shared':
                trainer.unregister_batch_complete_callback(
                    other.batch_complete)
            until(hi + length)
            lo2 = len(seen)
            trainer.unregister_batch_complete_callback(unregister)
            hi2 = len(seen)
            until(hi2 + 2)
            self.judge('callback', log, batches, lo, hi, lo2, hi2)
            if o['kind'] == 'method':
                # unregistering twice does no harm
                trainer.unregister_batch_complete_callback(unregister)

    def judge(self, who, log, stream, lo, hi, lo2, hi2, slack=1):
        """
        log must be a contiguous part of stream that starts at a position in
        [lo, hi] and ends in [lo2, hi2], give or take the batch in progress
        """
        if not log:
            if lo2 - hi > 2 * slack:
                raise Violation(
                    'missed', '%s joined before batch %d and left after %d '
                    'and was told nothing' % (who, hi, lo2), 'missed')
            return
        for first in range(len(stream)):
            if stream[first] == log[0] and stream[first: first + len(log)] \
                    == log:
                break
        else:
            raise Violation(
                'missed', '%s was told %s, training reported %s' % (
                    who, brief(log), brief(stream)), 'missed')
        last = first + len(log)
        if not lo <= first <= hi + slack:
            raise Violation(
                'missed', '%s joined between batches %d and %d and was told '
                'from %d on' % (who, lo, hi, first), 'missed')
        if not lo2 - slack <= last <= hi2 + slack:
            raise Violation(
                'missed', '%s left between batches %d and %d and was told up '
                'to %d' % (who, lo2, hi2, last), 'missed')

    def client(self, s, case, res, net, c, keys, seen, state, until, batches):
        def messages(bs):
            out = []
            for b in bs:
                if b['batch'] % case['frequency'] == 0:
                    m = dict(epoch=b['epoch'], batch=b['batch'])
                    m.update((k, b[k]) for k in keys if k in b)
                    out.append(m)
            return out

        stream = messages(batches)
        until(c['at'])
        lo = len(messages(seen))
        con = net.connect(8888, c['capacity'] or None)
        self.mine.add(con.sock)
        r = con.ws_open('/zounds/training')
        if r.status != 101:
            raise Violation(
                'refused', 'a web client could not join: %s' % r.status)
        log = []

        def read(stop):
            while not stop():
                if c['slow']:
                    s.sleep(.05)
                op, d = con.ws_recv()
                if op == 1:
                    try:
                        log.append(json.loads(d.decode('utf8')))
                    except ValueError:
                        raise Violation('frames', 'not JSON: %r' % d[:80])
                elif op == 8:
                    return False
                elif op == 0xa:
                    pongs.append(d)
                else:
                    raise Violation('frames', 'opcode %s' % op)
            return True

        pongs = []
        con.ws_send(0x9, b'there?')
        if not read(lambda: pongs):
            raise Violation('refused', 'the monitor closed the connection')
        hi = len(messages(seen))
        if 0 < hi < len(stream):
            self.joined += 1
            res.fault('web client joined while training')
        n = c['messages']
        then = c['then']
        # there may be no more to be told
        enough = max(0, min(n, len(stream) - hi - 1))
        if then == 'deaf':
            # connected, and never reads again
            res.fault('web client stopped reading')
            while not state['over']:
                until(len(seen) + 1)
            return
        if not read(lambda: len(log) >= enough):
            raise Violation('refused', 'the monitor closed the connection')
        if then == 'abort':
            res.fault('web client reset')
            con.abort()
            self.judge('web client', log, stream, 0, hi, 0, len(stream), 2)
        elif then == 'vanish':
            res.fault('web client closed the connection')
            con.close()
            self.judge('web client', log, stream, 0, hi, 0, len(stream), 2)
        elif then == 'close':
            res.fault('web client left')
            lo2 = len(messages(seen))
            con.ws_send(0x8, b'\x03\xe8')
            try:
                read(lambda: False)
            except web.Closed:
                # tornado drops what it could not write yet
                pass
            hi2 = len(messages(seen))
            self.judge('web client', log, stream, lo, hi, 0, hi2)
            con.close()
        else:
            if log:
                first = stream.index(log[0])
            else:
                first = hi + 1
            if first < len(stream):
                try:
                    read(lambda: log and log[-1] == stream[-1])
                except web.ClientTimeout:
                    raise Violation(
                        'missed', 'web client was told %s of %s and then '
                        'nothing more' % (brief(log), brief(stream)),
                        'missed')
                self.judge('web client', log, stream, lo, hi,
                           len(stream), len(stream))
            con.close()

    def graph(self, net, res):
        r = net.connect(8888).request('GET', '/zounds/graph')
        res.fault('graph requested')
        if r.status != 200 or not r.body.startswith(b'\x89PNG'):
            raise Violation('graph', 'the graph was answered with %s %r' % (
                r.status, r.body[:20]))


def brief(bs):
    s = ' '.join('%s/%s' % (b.get('epoch'), b.get('batch')) for b in bs[:12])
    return '[%s%s]' % (s, ' ...' if len(bs) > 12 else '')


CHECK = C18()
