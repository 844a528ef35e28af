"""
Campaign runner: seeds -> cases -> simulated runs -> verdict, evidence, replay.
"""
import os
import sys
import json
import time
import random
import hashlib
import signal
import select
import traceback
import shutil
import tempfile
import gc
import importlib
import pickle

from . import boot
from . import sched as _sched

TAG = os.getpid()
NOW = _sched.REAL_MONOTONIC
VERIF = boot.VERIF
OUT = os.environ.get('VERIF_OUT', VERIF)


class Violation(Exception):
    """the system broke the property in this run"""

    def __init__(self, kind, msg, key=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.key = key or kind


UNEXPECTED = (TypeError, AttributeError, LookupError, ValueError,
              ArithmeticError, AssertionError, EOFError)


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


class Result(object):
    def __init__(self):
        self.violation = None
        self.log = []
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.steps = 0
        self.sig = None
        self.nontrivial = True
        self.switches = None
        self.sims = 0
        self.error = None

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def note(self, *a):
        self.log.append(' '.join(str(x) for x in a))

    def log_hash(self):
        h = hashlib.sha1()
        for l in self.log:
            h.update(l.encode('utf8', 'replace'))
            h.update(b'\n')
        h.update(repr((
            self.sig, self.steps, sorted(self.faults.items()),
            sorted(self.probes.items()),
            None if self.violation is None else self.violation)).encode())
        return h.hexdigest()


class _Sink(object):
    encoding = 'utf-8'

    def write(self, *a):
        return 0

    def flush(self):
        pass

    def isatty(self):
        return False

    def writelines(self, *a):
        pass

    def fileno(self):
        return 2


class Check(object):
    id = None
    runs = {'quick': 200, 'thorough': 2000}
    cap = {'quick': 240, 'thorough': 3000}
    run_timeout = 60
    rule = ''
    real = []
    stub = []
    measure = 'distinct (case, interleaving) signatures'
    assumptions = []

    def setup(self):
        pass

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, case, res):
        """runs the case; raises Violation; fills res"""
        raise NotImplementedError

    def shrink(self, case):
        return ()

    def describe(self, case):
        return case


def blame_sut(e):
    """whether an exception passed through the code under test"""
    tb = e.__traceback__
    pre = os.path.join(boot.REPO, 'zounds') + os.sep
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(pre) or '/featureflow/' in f:
            return True
        tb = tb.tb_next
    return False


def running_sut():
    """whether the simulated thread whose turn it is runs code under test"""
    try:
        f = sys._current_frames().get(_sched.ACTIVE.current.ident)
    except AttributeError:
        return False
    pre = os.path.join(boot.REPO, 'zounds') + os.sep
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith(pre) or '/featureflow/' in n:
            return True
        f = f.f_back
    return False


def one_line(e):
    return ('%s: %s' % (type(e).__name__, e)).replace('\n', ' ')[:300]


SCRATCH = [None]


def scratch(prefix='s'):
    """a fresh scratch directory, removed when the run ends"""
    n = 0
    while True:
        p = os.path.join(SCRATCH[0], '%s%d' % (prefix, n))
        if not os.path.exists(p):
            os.mkdir(p)
            return p
        n += 1


def seed_everything(case):
    import numpy as np
    s = case.get('entropy', 0)
    random.seed(s)
    np.random.seed(s & 0xffffffff)
    try:
        import torch
        torch.manual_seed(s)
    except ImportError:
        pass
    _sched.GLOBAL_ENTROPY[0] = random.Random('entropy:%d' % s)


def run_case(check, case):
    """pure function of (case, code under test)"""
    from . import lmdbsim, net, fs
    res = Result()
    base = tempfile.mkdtemp(
        prefix='verif-%s-%d-' % (check.id, TAG), dir=boot.scratch_root())
    SCRATCH[0] = base
    so, se = sys.stdout, sys.stderr
    if not os.environ.get('VERIF_DEBUG'):
        sys.stdout = sys.stderr = _Sink()
    sys.unraisablehook = lambda *a: None
    gc.collect()
    gc.disable()

    def alarm(*a):
        e = Hang()
        e.blame = running_sut()
        raise e

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, check.run_timeout)
    try:
        seed_everything(case)
        try:
            check.execute(case, res)
        except Violation as v:
            res.violation = {'kind': v.kind, 'msg': v.msg, 'key': v.key}
        except Hang as e:
            if e.blame or blame_sut(e):
                res.violation = {
                    'kind': 'hang', 'key': 'hang',
                    'msg': 'no end after %s s' % check.run_timeout}
            else:
                res.error = 'hang outside the code under test: ' + \
                    ''.join(traceback.format_exc())[-1500:]
        except _sched.StepLimit as e:
            res.violation = {
                'kind': 'no-progress', 'key': 'no-progress', 'msg': str(e)}
        except _sched.Deadlock as e:
            res.violation = {
                'kind': 'deadlock', 'key': 'deadlock', 'msg': str(e)}
        except HarnessError as e:
            res.error = str(e)
        except Exception as e:
            if blame_sut(e):
                res.violation = {
                    'kind': 'exception', 'key': 'exception:' + one_line(e),
                    'msg': one_line(e) + ' @ ' + where(e)}
            elif isinstance(e, UNEXPECTED):
                # a result that does not even have the form it has to have
                res.violation = {
                    'kind': 'unexpected result',
                    'key': 'unexpected:' + one_line(e),
                    'msg': '%s, when looking at a result in %s' % (
                        one_line(e), where(e))}
            else:
                res.error = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout, sys.stderr = so, se
        _sched.GLOBAL_ENTROPY[0] = None
        net.NET[0] = None
        fs.ROOT[0] = fs.PLAN[0] = None
        try:
            lmdbsim.end_run()
        except BaseException:
            pass
        gc.enable()
        if res.violation is not None and isinstance(
                res.violation.get('msg'), str):
            res.violation['msg'] = res.violation['msg'].replace(
                base, '<scratch>')
            res.violation['key'] = res.violation['key'].replace(
                base, '<scratch>')
        SCRATCH[0] = None
        shutil.rmtree(base, ignore_errors=True)
    return res


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    pre = os.path.join(boot.REPO, 'zounds') + os.sep
    for f in reversed(tb):
        if f.filename.startswith(pre):
            return '%s in %s' % (
                os.path.relpath(f.filename, boot.REPO), f.name)
    return tb[-1].name if tb else '?'


def make_case(check, seed, i, tier):
    rng = random.Random('%s:%d:%d' % (check.id, seed, i))
    case = check.generate(rng, tier)
    case.setdefault('entropy', rng.getrandbits(32))
    case['origin'] = [seed, i]
    # the case must survive the round trip through the replay file
    return json.loads(json.dumps(case))


# -- sched helpers for checks -------------------------------------------------

def sched_spec(rng):
    """swarm: how eager the scheduler is to preempt, per run"""
    mode = rng.random()
    if mode < 0.1:
        p = 0.0
    elif mode < 0.4:
        p = rng.choice([0.01, 0.02, 0.05])
    elif mode < 0.8:
        p = rng.choice([0.1, 0.2, 0.3])
    else:
        p = 0.5
    return {
        'seed': rng.getrandbits(40), 'p': p,
        'pop': rng.choice([p, 0.1, 0.3, 0.5])}


def simulate(case, res, main, max_steps=60000, opcodes=False, quiet=False):
    """
    run main(scheduler) under the deterministic scheduler; a case may do so
    several times.  quiet: without preemption, for inspecting the outcome
    """
    spec = case.get('sched') or {'runs': []}
    if quiet:
        spec = {'switches': []}
    elif 'runs' in spec:
        k = len(res.switches or [])
        spec = {'switches': spec['runs'][k] if k < len(spec['runs']) else []}
    else:
        k = len(res.switches or [])
        spec = dict(spec, seed='%s/%d' % (spec['seed'], k))
    s = _sched.Scheduler(
        spec, max_steps=max_steps, opcodes=opcodes)
    s.entropy = random.Random('os.urandom:%s:%d' % (
        case.get('entropy', 0), res.sims))
    res.sims += 1
    s.now = res.sim_time
    try:
        return s.run(lambda: main(s))
    finally:
        res.sim_time = s.now + s.ticks * 1e-5
        res.steps += s.step
        res.sig = (res.sig or '') + s.signature()[:12]
        if not quiet:
            res.switches = (res.switches or []) + [s.policy.made]
            res.probe('context switches', s.handoffs)
        if s.stuck:
            raise HarnessError('thread stuck: ' + s.stuck)


# -- minimisation -------------------------------------------------------------

def same(v, w):
    return v is not None and w is not None and v['kind'] == w['kind']


def list_paths(case):
    out = []
    for k in ('ops', 'faults'):
        if isinstance(case.get(k), list):
            out.append((k,))
    t = case.get('threads')
    if isinstance(t, list):
        for i, x in enumerate(t):
            if isinstance(x, list):
                out.append(('threads', i))
    return out


def get(case, path):
    for p in path:
        case = case[p]
    return case


def put(case, path, v):
    c = json.loads(json.dumps(case))
    d = c
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = v
    return c


def minimise(check, case, res, budget=60):
    """
    shrink operations, faults and then the schedule, keeping the violation kind
    """
    end = NOW() + budget
    best, best_res = case, res
    tried = 0
    if res.violation['kind'] == 'hang':
        return best, best_res, tried
    run_case = run_isolated

    def attempt(c):
        nonlocal best, best_res, tried
        variants = [c]
        if 'sched' in c and 'seed' in c['sched']:
            for k in range(3):
                d = json.loads(json.dumps(c))
                d['sched']['seed'] = c['sched']['seed'] + 1 + k
                variants.append(d)
        for d in variants:
            if NOW() > end:
                return False
            tried += 1
            r = run_case(check, d)
            if r.error is None and same(r.violation, res.violation):
                best, best_res = d, r
                return True
        return False

    progress = True
    while progress and NOW() < end:
        progress = False
        for path in list_paths(best):
            size = max(1, len(get(best, path)) // 2)
            while size and NOW() < end:
                i = 0
                while i < len(get(best, path)) and NOW() < end:
                    l = get(best, path)
                    c = put(best, path, l[:i] + l[i + size:])
                    if attempt(c):
                        progress = True
                    else:
                        i += size
                size //= 2
        for c in check.shrink(best):
            if NOW() > end:
                break
            if attempt(json.loads(json.dumps(c))):
                progress = True
                break
    # fix the schedule as an explicit list and drop switches
    if 'sched' in best and 'seed' in best['sched'] and best_res.switches \
            is not None:
        c = put(best, ('sched',), {'runs': best_res.switches})
        r = run_case(check, c)
        if r.error is None and same(r.violation, res.violation):
            best, best_res = c, r
            end = max(end, NOW() + budget / 3.)
            for k in range(len(best['sched']['runs'])):
                path = ('sched', 'runs', k)
                size = max(1, len(get(best, path)))
                while size and NOW() < end:
                    i = 0
                    while i < len(get(best, path)) and NOW() < end:
                        l = get(best, path)
                        c = put(best, path, l[:i] + l[i + size:])
                        tried += 1
                        r = run_case(check, c)
                        if r.error is None and same(
                                r.violation, res.violation):
                            best, best_res = c, r
                        else:
                            i += size
                    size //= 2
    return best, best_res, tried


DIED = 'died'
DEADLY = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
          signal.SIGILL)


def died(status):
    """the violation if a process was ended by what it did, or None"""
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in DEADLY:
        return {'kind': DIED, 'key': DIED,
                'msg': 'the process died of signal %d' % os.WTERMSIG(status)}
    return None


def run_isolated(check, case):
    """
    run a case in a process of its own: it starts from the same state as any
    other, and may end the whole process
    """
    if os.environ.get('VERIF_DEBUG'):
        return run_case(check, case)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(run_case(check, case))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    status = os.waitpid(pid, 0)[1]
    try:
        return pickle.loads(data)
    except Exception:
        pass
    res = Result()
    res.nontrivial = False
    res.sig = ''
    res.violation = died(status)
    if res.violation is None:
        res.error = 'the process of this run ended with status %d' % status
    return res


def warm_up(check):
    """
    import whatever runs import, since that would cost every process time, and
    initialise what is initialised by its first use
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for i in range(4):
                run_case(check, make_case(check, 0, i, 'quick'))
            with os.fdopen(w, 'w') as f:
                f.write('\n'.join(sys.modules))
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        names = f.read().split('\n')
    os.waitpid(pid, 0)
    for name in names:
        if name and name not in sys.modules and '__main__' not in name:
            try:
                importlib.import_module(name)
            except BaseException:
                pass
    gc.collect()
    gc.freeze()


# -- workers ------------------------------------------------------------------

def worker(check, tier, seed, idx, fd, cap_end):
    out = os.fdopen(fd, 'w', buffering=1)
    for i in idx:
        if NOW() > cap_end:
            break
        try:
            case = make_case(check, seed, i, tier)
            t0 = NOW()
            out.write(json.dumps({'start': i}) + '\n')
            r = run_isolated(check, case)
            rec = {
                'i': i, 'v': r.violation, 'e': r.error, 'f': r.faults,
                'p': r.probes, 't': r.sim_time, 's': r.steps,
                'sig': hashlib.sha1(
                    (json.dumps(
                        dict((k, v) for k, v in case.items()
                             if k not in ('origin', 'sched', 'entropy')),
                        sort_keys=True) + str(r.sig)).encode()).hexdigest(),
                'n': bool(r.nontrivial), 'h': r.log_hash(),
                'w': NOW() - t0}
        except BaseException:
            rec = {'i': i, 'v': None, 'e': traceback.format_exc()[-3000:]}
        out.write(json.dumps(rec) + '\n')
        out.flush()
    out.write(json.dumps({'end': True}) + '\n')
    out.close()


def campaign(check, tier, seed, n, workers, cap, stop_on_violation=True):
    cap_end = NOW() + cap
    procs = {}
    idx = list(range(n))
    for w in range(workers):
        mine = idx[w::workers]
        if not mine:
            continue
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.setpgid(0, 0)
                worker(check, tier, seed, mine, wfd, cap_end)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        procs[r] = [pid, b'', False, None]
    recs = []
    stopping = None
    hard_end = cap_end + check.run_timeout + 30
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in ready:
            b = os.read(fd, 1 << 16)
            p = procs[fd]
            if not b:
                os.close(fd)
                v = died(os.waitpid(p[0], 0)[1])
                if v is not None and p[3] is not None:
                    recs.append({
                        'i': p[3], 'v': v, 'e': None, 'f': {}, 'p': {},
                        't': 0, 's': 0, 'sig': '', 'n': False, 'h': None})
                    if stop_on_violation:
                        stopping = stopping or NOW() + 1.5
                elif not p[2] and stopping is None:
                    recs.append({
                        'i': -1, 'v': None, 'e': 'a worker process died'})
                del procs[fd]
                continue
            p[1] += b
            *lines, p[1] = p[1].split(b'\n')
            for l in lines:
                rec = json.loads(l)
                if rec.get('end'):
                    p[2] = True
                    continue
                if 'start' in rec:
                    p[3] = rec['start']
                    continue
                recs.append(rec)
                if rec['v'] is not None and stop_on_violation and \
                        not is_known(check, rec['v']):
                    # a moment for the others, then stop
                    stopping = stopping or NOW() + 1.5
        if (stopping is not None and NOW() > stopping) or NOW() > hard_end:
            for fd, p in list(procs.items()):
                try:
                    os.killpg(p[0], signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(p[0], signal.SIGKILL)
                    except OSError:
                        pass
                try:
                    os.waitpid(p[0], 0)
                except OSError:
                    pass
                os.close(fd)
            if NOW() > hard_end and stopping is None:
                recs.append({
                    'i': -1, 'v': None,
                    'e': 'workers had to be stopped: wall clock'})
            break
    clean_scratch(check)
    return recs


def clean_scratch(check):
    import glob
    for d in glob.glob(os.path.join(
            boot.scratch_root(), 'verif-%s-%d-*' % (check.id, TAG))):
        shutil.rmtree(d, ignore_errors=True)


# -- known findings -----------------------------------------------------------

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def is_known(check, v):
    return any(
        k['property'] == check.id and k['key'] == v['key']
        for k in load_known())


# -- entry --------------------------------------------------------------------

def write_replay(check, case, res, extra):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {
        'property': check.id,
        'violation': res.violation,
        'case': case,
        'log_hash': res.log_hash(),
        'log': res.log[-400:],
    }
    body.update(extra)
    h = hashlib.sha1(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, '%s-%s.json' % (check.id, h))
    with open(p, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return p


def replay_in_fresh_process(path):
    import subprocess
    p = subprocess.run(
        [sys.executable, os.path.join(VERIF, 'run.py'), '--replay', path],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def do_replay(check, path):
    with open(path) as f:
        body = json.load(f)
    warm_up(check)
    r = run_isolated(check, body['case'])
    if r.error:
        print('ERROR %s' % r.error)
        return 3
    if r.violation is None:
        print('no violation on replay')
        return 0
    print('VIOLATION property=%s replay=%s' % (check.id, path))
    print('  %s: %s' % (r.violation['kind'], r.violation['msg']))
    print('  log identical: %s' % (r.log_hash() == body['log_hash']))
    for l in r.log[-60:]:
        print('  | ' + l)
    return 1 if same(r.violation, body['violation']) else 4


def main_check(check, tier, seed, n=None, workers=None, cap=None):
    t0 = NOW()
    workers = workers or min(8, os.cpu_count() or 1)
    n = n or check.runs[tier]
    cap = cap or check.cap[tier]
    check.setup()
    clean_scratch(check)
    print('%s tier=%s seed=%d runs=%d' % (check.id, tier, seed, n))
    sys.stdout.flush()
    warm_up(check)
    recs = campaign(check, tier, seed, n, workers, cap)
    wall_campaign = NOW() - t0
    errors = [r for r in recs if r.get('e')]
    viols = sorted(
        (r for r in recs if r.get('v') is not None), key=lambda r: r['i'])
    known = [r for r in viols if is_known(check, r['v'])]
    fresh = [r for r in viols if not is_known(check, r['v'])]
    good = [r for r in recs if not r.get('e')]
    faults, probes = {}, {}
    for r in good:
        for k, v in r['f'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['p'].items():
            probes[k] = probes.get(k, 0) + v
    distinct = len(set(r['sig'] for r in good if r['n']))
    samples = []
    for r in sorted(good, key=lambda r: r['i'])[:2]:
        c = make_case(check, seed, r['i'], tier)
        samples.append({
            'case': json.loads(json.dumps(check.describe(c))),
            'steps': r['s'], 'faults': r['f'], 'log_hash': r['h'],
            'verdict': 'violation' if r['v'] else 'held'})

    rc = 0
    vio_lines = []
    if fresh:
        rc = 1
        done = False
        for cand in fresh[:4]:
            case = make_case(check, seed, cand['i'], tier)
            r0 = run_isolated(check, case)
            if r0.error or not same(r0.violation, cand['v']):
                errors.append({
                    'i': cand['i'],
                    'e': 'not reproducible: %s' % (cand['v'],)})
                continue
            budget = 40 if tier == 'quick' else 120
            if os.environ.get('VERIF_NOSHRINK'):
                budget = 0
            best, rbest, tried = minimise(check, case, r0, budget)
            for c, r in ((best, rbest), (case, r0)):
                path = write_replay(check, c, r, {
                    'seed': seed, 'index': cand['i'], 'tier': tier,
                    'minimisation_runs': tried,
                    'original_case': case})
                code, out = replay_in_fresh_process(path)
                if code == 1:
                    print('VIOLATION property=%s replay=%s' % (
                        check.id, path))
                    print('  seed=%d index=%d %s: %s' % (
                        seed, cand['i'], r.violation['kind'],
                        r.violation['msg']))
                    for l in r.log[-25:]:
                        print('  | ' + l)
                    done = True
                    break
                errors.append({
                    'i': cand['i'],
                    'e': 'replay in a fresh process gave %s: %s' % (
                        code, out[-800:])})
            if done:
                break
        if not done:
            rc = 3
    for k in load_known():
        if k['property'] == check.id:
            print('KNOWN-FINDING: property=%s %s' % (check.id, k['what']))
    if rc == 0 and errors:
        rc = 3
    if rc != 1:
        for e in errors[:3]:
            print('ERROR run %s: %s' % (e['i'], e['e']))
    if rc == 0 and len(good) < min(n, max(5, n // 10)):
        print('ERROR only %d of %d runs completed' % (len(good), n))
        rc = 3
    wall = NOW() - t0
    ev = {
        'property': check.id,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(good),
            'distinct_nontrivial': distinct,
            'rule': check.rule,
            'samples': samples,
            'simulated_runs': len(good),
            'runs_planned': n,
            'truncated_by_wall_clock': len(good) < n and not fresh,
            'seeds_per_hour': int(len(good) / max(wall_campaign, .001) * 3600),
            'simulated_seconds': round(sum(r['t'] for r in good), 3),
            'scheduler_steps': sum(r['s'] for r in good),
            'faults_injected': faults,
            'probes': probes,
            'distinct_measure': check.measure,
            'components_real': check.real,
            'components_stubbed': check.stub,
            'known_findings_seen': len(known),
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    p = os.path.join(OUT, 'evidence', '%s.json' % check.id)
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(p + '.tmp', p)
    if rc == 0:
        print('held on %d simulated runs (%d distinct, non-trivial) in %.1f s'
              % (len(good), distinct, wall))
        print('faults: %s' % json.dumps(faults, sort_keys=True))
        print('probes: %s' % json.dumps(probes, sort_keys=True))
    return rc
