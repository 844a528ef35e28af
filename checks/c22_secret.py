"""
C22: nothing is served without the secret when one is set
"""
import json
import urllib.parse

import numpy as np

from sim import sched, web
from sim.runner import Check, Violation, sched_spec, simulate, one_line
from checks.store import Disk, make_database

DAY = 86400.
SECRETS = ['secret', 'S3cret', u'p\xe4ss w\xf6rd', ' spaced ', 'a&b=c%20+d',
           '0', 'x' * 300, '"quoted;"', 'None', u'\u6c34']
MARK = 'what nobody else is to see'
ROUTES = ['/', '/zounds/doc/meta', '/zounds/doc/meta/', '/zounds/doc/fft',
          '/zounds/login/meta', '/zounds/temp/%s', '/zounds/temp/nosuch',
          '/zounds/repl', '/zounds/repl/', '/zounds/training',
          '/zounds/graph', '/zounds/graph/', '/zounds/doc/meta?login=login',
          '/zounds//doc/meta', '/zounds/doc/nosuch', '/zounds/nobody/meta',
          '/zounds/temp/login', '/?login', '/zounds/repl?user=x',
          '/zounds/login/../doc/meta', '/zounds/login/fft']
METHODS = ['GET', 'GET', 'GET', 'GET', 'POST', 'POST', 'HEAD', 'PUT',
           'DELETE', 'OPTIONS', 'PATCH']
WRONG = ['more', 'less', 'empty', 'missing', 'case', 'space', 'other',
         'quoted', 'json']
FORGED = ['raw', 'flip', 'time', 'nosig', 'otherkey', 'name', 'empty',
          'v1', 'swap', 'garbage', 'twice']


class Jar(object):
    def __init__(self):
        self.cookie = None      # what is sent
        self.genuine = None     # the cookie the server gave for the secret
        self.at = None          # when
        self.secret = None      # the secret it was given for
        self.instance = None


def left(c, *request):
    # sent by a client that doesn't care for the response, or whether its
    # connection is still open
    try:
        c.send_request(*request)
    except web.Closed:
        pass


class C22(Check):
    id = 'C22'
    runs = {'quick': 600, 'thorough': 12000}
    rule = (
        'a case is an application with a secret, started once or twice '
        '(perhaps with another secret), and 1-3 clients that request every '
        'route with every method, open websockets, sign in with the right '
        'and with wrong secrets, forge and tamper with cookies and leave '
        'early, while the clock passes and jumps; non-trivial when there '
        'were requests both with and without the right to them')
    real = ['zounds.ui', 'featureflow',
            'tornado: event loop, HTTP, websockets, signed cookies']
    stub = ['sockets and poll', 'document store', 'thread scheduling, clock '
            'and its jumps', 'the trainer that is watched']
    assumptions = [
        'a client is signed in for at least the 30 days the browser is told '
        'and at most the 31 days after which the cookie is refused']

    def setup(self):
        web.install()
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib import pyplot as plt
        from checks import c21_web
        import matplotlib.figure
        matplotlib.figure.Figure.savefig = c21_web.savefig
        plt.figure()
        plt.close('all')

    def generate(self, rng, tier):
        n = rng.choice([1, 1, 2])
        secrets = [rng.choice(SECRETS)]
        secrets.append(rng.choice([secrets[0], rng.choice(SECRETS)]))
        count = [0]

        def op():
            k = rng.random()
            if k < .2:
                return ['login', 'right', rng.random() < .15]
            if k < .3:
                return ['login', rng.choice(WRONG), rng.random() < .15]
            if k < .35:
                return ['page']
            if k < .45:
                return ['forge', rng.choice(FORGED), rng.getrandbits(16)]
            if k < .5:
                return ['restore']
            if k < .53:
                return ['forget']
            if k < .6:
                return ['ws', rng.random() < .3]
            if k < .68:
                return ['jump', rng.choice([
                    1, 3600, 29.9 * DAY, 31.1 * DAY, 45 * DAY, 400 * DAY,
                    -3600, -10 * DAY, -31.5 * DAY, 15 * DAY])]
            count[0] += 1
            return ['request', rng.choice(METHODS), rng.choice(ROUTES),
                    count[0], rng.random() < .1]

        phases = []
        for p in range(n):
            phases.append([[['login', 'right', False]] * (
                rng.random() < .5) + [op() for _ in range(rng.randint(1, 8))]
                           for _ in range(rng.choice([1, 2, 2, 3]))])
        return {'secrets': secrets[:n], 'phases': phases,
                'keep': rng.random() < .5,
                'kind': rng.choice(['console', 'monitor', 'monitor']),
                'entropy': rng.getrandbits(32), 'sched': sched_spec(rng)}

    def shrink(self, case):
        def copy():
            return json.loads(json.dumps(case))
        for p in range(len(case['phases'])):
            for t in range(len(case['phases'][p])):
                if len(case['phases'][p]) > 1:
                    c = copy()
                    del c['phases'][p][t]
                    yield c
                for o in range(len(case['phases'][p][t])):
                    c = copy()
                    del c['phases'][p][t][o]
                    yield c
        if len(case['phases']) > 1:
            for p in range(2):
                c = copy()
                del c['phases'][p]
                del c['secrets'][p]
                yield c
        if case['keep']:
            yield dict(copy(), keep=False)

    # -- the system

    def execute(self, case, res):
        import featureflow as ff
        import zounds
        from zounds.core import ArrayWithUnits, IdentityDimension
        from zounds.ui import training_monitor
        net = web.fresh(case['entropy'], res)
        disk = Disk()
        key_builder_ = ff.StringDelimitedKeyBuilder()

        class Source(ff.Node):
            def _process(self, data):
                yield data

        class Meta(ff.Node):
            def _process(self, data):
                yield {'mark': MARK}

        class Array(ff.Node):
            def _process(self, data):
                yield ArrayWithUnits(
                    np.ones((3, 2)), [IdentityDimension()] * 2)

        class Ids(ff.IdProvider):
            def new_id(self, *a, **k):
                return k['raw']

        class Settings(ff.PersistenceSettings):
            id_provider = Ids()
            key_builder = key_builder_
            database = make_database(disk, key_builder_, case['entropy'])

        class Doc(ff.BaseModel, Settings):
            raw = ff.Feature(Source, store=False)
            meta = ff.JSONFeature(Meta, needs=raw, store=True)
            fft = zounds.ArrayWithUnitsFeature(Array, needs=raw, store=True)

        executed = []
        watching = []
        jars = [Jar() for _ in range(3)]
        errors = []
        self.seen = {'yes': 0, 'no': 0}
        ctx = {'jumps': 0}

        class Trainer(object):
            def register_batch_complete_callback(self, f):
                watching.append(f)

            def unregister_batch_complete_callback(self, f):
                watching.remove(f)

        def tick(i):
            executed.append(i)
            return MARK + str(i)

        def main(s):
            for _id in ('doc', 'login'):
                Doc.process(raw=_id)
            for p, clients in enumerate(case['phases']):
                env = dict(tick=tick)
                kw = dict(model=Doc, visualization_feature=Doc.fft,
                          audio_feature=Doc.fft, globals=env, locals=env,
                          secret=case['secrets'][p])
                if case['kind'] == 'console':
                    app = zounds.ZoundsApp(**kw)
                else:
                    app = training_monitor.SupervisedTrainingMonitorApp(
                        trainer=Trainer(), **kw)
                base = len(watching)
                app.temp['page'] = TempResult(
                    MARK.encode(), 'text/plain')
                ctx.update(app=app, phase=p, secret=case['secrets'][p],
                           watching=watching, base=base)
                with app.start_in_thread(port=8888):
                    net.wait_listening(8888)
                    ts = [s.spawn(guarded(
                        self.client, s, case, res, net, jars[i], ops, ctx,
                        executed), 'client%d' % i)
                        for i, ops in enumerate(clients)]
                    for t in ts:
                        s.join(t)
                    if errors:
                        raise errors[0]
                    s.sleep(5)
                    # others are served as before
                    con = net.connect(8888)
                    r = con.request('GET', '/zounds/login')
                    if r.status != 200 or b'<form' not in r.body:
                        raise Violation('login', 'there is no page to sign '
                                        'in: %s' % r.status, 'login page')
                    con.close()

        class TempResult(object):
            def __init__(self, data, content_type):
                self.data = data
                self.content_type = content_type

        def guarded(f, *args):
            def g():
                try:
                    f(*args)
                except Violation as e:
                    errors.append(e)
                except (web.Closed, web.ClientTimeout, web.Violation) as e:
                    errors.append(Violation(
                        'server', 'gave no answer: %s %s' % (
                            type(e).__name__, one_line(e)), 'no answer'))
            return g

        try:
            simulate(case, res, main, max_steps=600000)
        except sched.Deadlock as e:
            raise Violation('deadlock', str(e))
        except sched.StepLimit as e:
            raise Violation('no end', str(e))
        res.nontrivial = self.seen['yes'] > 0 and self.seen['no'] > 0
        res.note(case['kind'], sorted(self.seen.items()))

    # -- clients

    def client(self, s, case, res, net, jar, ops, ctx, executed):
        import time
        con = None
        secret = ctx['secret']
        jumps = 0

        def connect():
            nonlocal con, jumps
            if con is None or not case['keep']:
                if con is not None:
                    con.close()
                con = net.connect(8888)
                jumps = ctx['jumps']
            return con

        def headers():
            return [] if jar.cookie is None else [('Cookie', jar.cookie)]

        def entitled(before):
            """True, False, or None: both are fine"""
            if jar.cookie is None or jar.genuine is None or \
                    jar.cookie != jar.genuine:
                return False
            if jar.secret != secret:
                return False
            if jar.instance != ctx['phase']:
                # it has been presented, if not to this instance
                return None
            ages = (before - jar.at[1], time.time() - jar.at[0])
            if max(abs(a) for a in ages) < 30 * DAY:
                return True
            if min(ages) > 31 * DAY:
                return False
            return None

        # the connection of an idle client may be closed any time, and when
        # the clock jumps so may all others
        def attempt(op):
            nonlocal con
            while True:
                try:
                    return act(op)
                except web.Closed:
                    if con is None or jumps == ctx['jumps']:
                        raise
                    con.close()
                    con = None

        def act(op):
            nonlocal con
            if op[0] == 'jump':
                s.clock_skew += op[1]
                ctx['jumps'] += 1
                res.fault('clock jumped')
                return
            if op[0] == 'forge':
                self.forge(jar, op[1], op[2], secret)
                res.fault('forged cookie')
                return
            if op[0] == 'restore':
                jar.cookie = jar.genuine
                return
            if op[0] == 'forget':
                jar.cookie = None
                return
            before = time.time()
            if op[0] == 'page':
                r = connect().request('GET', '/zounds/login', headers())
                if r.status != 200 or b'<form' not in r.body:
                    raise Violation('login', 'there is no page to sign in',
                                    'login page')
                self.discreet(op, r, secret)
            elif op[0] == 'login':
                self.login(s, res, jar, op, connect, headers, secret, ctx,
                           net)
                if op[2]:
                    con = None
            elif op[0] == 'ws':
                if case['kind'] != 'monitor':
                    return
                while True:
                    jumped = ctx['jumps']
                    c = net.connect(8888)
                    try:
                        r = c.ws_open('/zounds/training', headers())
                        break
                    except web.Closed:
                        if jumped == ctx['jumps']:
                            raise
                may = entitled(before)
                self.seen['yes' if r.status == 101 else 'no'] += 1
                if may is True and r.status != 101:
                    raise Violation('refused', 'a websocket was refused '
                                    'with %s' % r.status, 'refused')
                if may is False and (r.status == 101):
                    raise Violation('served', 'a websocket was opened '
                                    'without the secret', 'served ws')
                if r.status == 101 and op[1]:
                    c.ws_send(0x8, b'\x03\xe8')
                    s.sleep(.01)
                c.close()
            else:
                _, method, path, i, leave = op
                if '%s' in path:
                    path = path % 'page'
                body = None
                if method in ('POST', 'PUT', 'PATCH'):
                    body = ('tick(%d)' % i).encode()
                if leave:
                    may = entitled(before)
                    c = net.connect(8888)
                    left(c, method, path, headers(), body)
                    s.sleep(.01)
                    c.abort()
                    res.fault('client left without its response')
                    if may is False:
                        s.sleep(1)
                        if i in executed:
                            raise Violation(
                                'executed', 'code was executed without the '
                                'secret', 'executed')
                    return
                r = connect().request(method, path, headers(), body)
                if (r.get('Connection') or '').lower() == 'close':
                    con.close()
                    con = None
                self.judge(case, op, path, r, entitled(before), secret,
                           i in executed, ctx)

        for op in ops:
            attempt(op)
        if con is not None:
            con.close()

    def judge(self, case, op, path, r, may, secret, ran, ctx):
        method = op[1]
        location = r.get('Location') or ''
        denied = r.status in (401, 403) or r.status == 302 and \
            location.startswith('/zounds/login')
        self.seen['yes' if r.status == 200 else 'no'] += 1
        self.discreet(op, r, secret)
        if may is False:
            harmless = r.status in (404, 405) or denied
            if not harmless:
                raise Violation('served', '%s %s answered %s without the '
                                'secret' % (method, path, r.status), 'served')
            if ran:
                raise Violation('executed', 'code was executed without the '
                                'secret', 'executed')
            if MARK.encode() in r.body or b'PNG' in r.body or \
                    b'<script' in r.body:
                raise Violation('served', '%s %s gave data without the '
                                'secret' % (method, path), 'served')
            return
        if may is None:
            return
        if denied:
            raise Violation('refused', '%s %s was refused (%s) though signed '
                            'in' % (method, path, r.status), 'refused')
        route = path.split('?')[0].rstrip('/')
        want = None
        if method == 'GET':
            if route == '':
                want = b'<html'
            elif route in ('/zounds/doc/meta', '/zounds/login/meta',
                           '/zounds/temp/page'):
                want = MARK.encode()
            elif route == '/zounds/graph' and case['kind'] == 'monitor' or \
                    route in ('/zounds/doc/fft', '/zounds/login/fft'):
                want = b'PNG'
        elif method == 'POST' and route == '/zounds/repl':
            want = (MARK + str(op[3])).encode()
            if not ran:
                raise Violation('refused', 'a statement was not executed '
                                'though signed in: %s' % r.status, 'refused')
        if want is not None and (r.status != 200 or want not in r.body):
            raise Violation('refused', '%s %s answered %s %r though signed '
                            'in' % (method, path, r.status, r.body[:80]),
                            'refused')

    def discreet(self, op, r, secret):
        if len(secret) > 4 and (
                secret.encode('utf8') in r.body or any(
                    secret in v for k, v in r.headers)):
            if secret == 'None':
                return
            # words of the page itself
            if secret == 'secret' and b'name="secret"' in r.body:
                return
            raise Violation('told', '%s told the secret' % op, 'told')

    def login(self, s, res, jar, op, connect, headers, secret, ctx, net):
        import time
        _, how, leave = op
        guess = {
            'right': secret, 'more': secret + 'x', 'less': secret[:-1],
            'empty': '', 'missing': None, 'case': secret.swapcase(),
            'space': ' ' + secret + '\t', 'other': 'guess',
            'quoted': urllib.parse.quote(secret + '%'), 'json': secret,
        }[how]
        right = guess == secret and how != 'json'
        if how == 'json':
            body = json.dumps({'secret': guess}).encode()
            hs = headers() + [('Content-Type', 'application/json')]
        else:
            body = b'' if guess is None else urllib.parse.urlencode(
                {'secret': guess}).encode()
            hs = headers() + [
                ('Content-Type', 'application/x-www-form-urlencoded')]
        if leave:
            c = net.connect(8888)
            left(c, 'POST', '/zounds/login', hs, body)
            s.sleep(.01)
            c.abort()
            res.fault('client left without its response')
            return
        before = time.time()
        r = connect().request('POST', '/zounds/login', hs, body)
        after = time.time()
        if how != 'json':
            self.discreet(op, r, secret)
        cookie = None
        for v in r.all('Set-Cookie'):
            if v.startswith('user='):
                cookie = v.split(';')[0]
        if right:
            if r.status not in (302, 303) or r.get('Location') != '/' or \
                    cookie is None:
                raise Violation('sign in', 'the right secret (%r) was '
                                'answered with %s' % (secret[:20], r.status),
                                'sign in')
            jar.cookie = jar.genuine = cookie
            jar.at = (min(before, after), max(before, after))
            jar.secret = secret
            jar.instance = ctx['phase']
        else:
            if not 400 <= r.status < 500:
                raise Violation('sign in', 'a wrong secret (%r for %r) was '
                                'answered with %s' % (
                                    guess and guess[:20], secret[:20],
                                    r.status), 'sign in')
            if cookie is not None:
                # it had better be worth nothing
                jar.cookie = cookie

    def forge(self, jar, how, n, secret):
        import tornado.web
        genuine = jar.genuine
        value = genuine[5:] if genuine else None
        if how == 'raw':
            c = 'user=' + urllib.parse.quote(secret)
        elif how == 'otherkey':
            c = 'user=' + tornado.web.create_signed_value(
                'of another application', 'user', secret).decode()
        elif how == 'v1':
            c = 'user=' + tornado.web.create_signed_value(
                'of another application', 'user', secret,
                version=1).decode()
        elif how == 'empty':
            c = 'user='
        elif how == 'garbage':
            c = ['user=2|1:0|', 'user="; user="', 'user=|||||', 'user',
                 'user=2|1:0|10:0|4:user|0:|'][n % 5]
        elif value is None:
            c = 'user=signedin'
        elif how == 'flip':
            v = value.strip('"')
            i = n % len(v)
            c = 'user="%s%s%s"' % (
                v[:i], 'e' if v[i] != 'e' else 'f', v[i + 1:])
        elif how == 'time':
            p = value.split('|')
            if len(p) > 2:
                t = p[2].split(':')
                p[2] = '%s:%s' % (t[0], str(int(t[1]) + 86400 * 20))
            c = 'user=' + '|'.join(p)
        elif how == 'nosig':
            c = 'user=' + value.rsplit('|', 1)[0] + '|"'
        elif how == 'name':
            c = 'secret=' + value
        elif how == 'swap':
            c = 'user=' + value.rsplit('|', 1)[0] + '|' + \
                '0' * 64 + '"'
        else:
            c = 'user=x; other=' + value
        if c != genuine:
            jar.cookie = c


CHECK = C22()
