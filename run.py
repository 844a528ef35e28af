#!/opt/venv/bin/python
"""
run.py CHECK [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
run.py --replay FILE
run.py --selftest [CHECK ...]
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(PY) or \
        'PYTHONHASHSEED' not in os.environ or sys.prefix != '/opt/venv':
    os.environ.setdefault('PYTHONHASHSEED', '0')
    if not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import argparse
import importlib
import json
import glob


def load(cid):
    mods = glob.glob(os.path.join(HERE, 'checks', cid.lower() + '_*.py'))
    if len(mods) != 1:
        raise SystemExit('no check %s' % cid)
    name = os.path.splitext(os.path.basename(mods[0]))[0]
    m = importlib.import_module('checks.' + name)
    return m.CHECK


def selftest(a):
    '''the same cases, run in separate interpreters with different numbers of
    workers and hash seeds, must have identical event histories'''
    import subprocess
    ids = a.check or sorted(
        os.path.basename(p)[:3].upper()
        for p in glob.glob(os.path.join(HERE, 'checks', 'c[0-9][0-9]_*.py')))
    bad = 0
    for cid in ids:
        outs = []
        for workers, hashseed in (('2', '0'), ('7', '5')):
            env = dict(os.environ, PYTHONHASHSEED=hashseed)
            env.pop('VERIF_REEXEC', None)
            r = subprocess.run(
                [PY, os.path.join(HERE, 'run.py'), cid, '--hashes', '--runs',
                 str(a.runs or 200), '--workers', workers,
                 '--seed', str(a.seed)],
                env=env, stdout=subprocess.PIPE, text=True)
            outs.append(r.stdout)
        one, two = (o.splitlines() for o in outs)
        diff = [x.split()[0] for x, y in zip(one, two) if x != y]
        same = outs[0] == outs[1] and len(one) > 0
        print('%s %s: %d runs%s' % (
            cid, 'deterministic' if same else 'NOT DETERMINISTIC', len(one),
            '' if same else ', differing: ' + ' '.join(diff[:10])), flush=True)
        bad += not same
    return 3 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument(
        '--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--hashes', action='store_true')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    os.environ.setdefault('PYTHONWARNINGS', 'ignore')
    from sim import boot
    boot.boot()
    from sim import runner
    if a.replay:
        with open(a.replay) as f:
            cid = json.load(f)['property']
        c = load(cid)
        c.setup()
        return runner.do_replay(c, a.replay)
    if a.selftest:
        return selftest(a)
    if a.setup:
        print('seams installed, code under test imports')
        return 0
    if a.hashes:
        c = load(a.check[0])
        c.setup()
        runner.warm_up(c)
        recs = runner.campaign(
            c, a.tier, a.seed, a.runs or 40, a.workers or 8, 600,
            stop_on_violation=False)
        for r in sorted(recs, key=lambda r: r['i']):
            print(r['i'], r.get('h'), bool(r.get('v')), bool(r.get('e')))
        return 0
    return runner.main_check(
        load(a.check[0]), a.tier, a.seed, a.runs, a.workers, a.cap)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
