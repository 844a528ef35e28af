#!/usr/bin/env python3
"""
mutate.py FILE CHECK[:RUNS]... [--sample N] [--seed S] [--funcs a,b]
Systematic mutation of one file of /repo: every mutant that none of the given
checks reports is printed.  Development aid, no check uses it.
"""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '*', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n, end=False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + \
            (n.end_col_offset if end else n.col_offset)

    def text(n):
        return raw[pos(n):pos(n, True)].decode()

    out = []

    def rep(n, new, what):
        out.append((n.lineno, what, pos(n), pos(n, True), new))

    docs = set()
    func = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(
                    b[0].value, ast.Constant):
                docs.add(b[0])
                docs.add(b[0].value)
    def walk(n, name):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                walk(c, name + '.' + c.name)
            else:
                func[c] = name
                walk(c, name)
    walk(tree, '')
    for n in ast.walk(tree):
        if n in docs:
            continue
        fn = func.get(n, '')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            rep(n, '%s %s %s' % (text(n.left), op, text(n.comparators[0])),
                'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str):
                continue
            rep(n, '(%s) %s (%s)' % (text(n.left), BIN[type(n.op)],
                                     text(n.right)), 'binop')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'int+1')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, j.join('(%s)' % text(v) for v in n.values), 'boolop')
            for i in range(len(n.values)):
                rep(n, '(' + (' and ' if j == ' or ' else ' or ').join(
                    '(%s)' % text(v) for k, v in enumerate(n.values)
                    if k != i) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, text(n.operand), 'not')
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, 'True', 'if True')
            rep(n.test, 'False', 'if False')
        elif isinstance(n, ast.IfExp):
            rep(n, text(n.body), 'ifexp')
            rep(n, text(n.orelse), 'ifexp')
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue,
                            ast.Break, ast.Delete)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'return')
        elif isinstance(n, ast.Slice):
            if n.lower:
                rep(n.lower, '', 'slice lower')
            if n.upper:
                rep(n.upper, '', 'slice upper')
        elif isinstance(n, ast.With):
            out.append((n.lineno, 'no with', pos(n), pos(n.body[0]),
                        'if True:' + ('\n' + ' ' * n.body[0].col_offset)))
        elif isinstance(n, ast.Try):
            for h in n.handlers:
                out.append((h.lineno, 'reraise', pos(h.body[0]),
                            pos(h.body[-1], True), 'raise'))
            if n.finalbody:
                out.append((n.finalbody[0].lineno, 'no finally',
                            pos(n.finalbody[0]), pos(n.finalbody[-1], True),
                            'pass'))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    pass
            if len(n.args) == 1 and not n.keywords and \
                    isinstance(n.func, ast.Name) and n.func.id in (
                        'sorted', 'list', 'set', 'reversed', 'abs', 'max',
                        'min', 'int'):
                rep(n, text(n.args[0]), 'drop ' + n.func.id)
            if isinstance(n.func, ast.Name) and n.func.id in (
                    'max', 'min') and len(n.args) == 2:
                rep(n, '%s(%s, %s)' % (
                    'min' if n.func.id == 'max' else 'max',
                    text(n.args[0]), text(n.args[1])), 'minmax')
    seen = set()
    for line, what, a, b, new in out:
        m = raw[:a] + new.encode() + raw[b:]
        if m in seen or m == raw:
            continue
        seen.add(m)
        try:
            compile(m, 'x', 'exec')
        except SyntaxError:
            continue
        yield line, what, raw[a:b].decode().split('\n')[0][:50], \
            new.split('\n')[0][:50], m


def main():
    p = argparse.ArgumentParser()
    p.add_argument('file')
    p.add_argument('checks', nargs='+')
    p.add_argument('--sample', type=int)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--lines')
    p.add_argument('--jobs', type=int, default=2)
    p.add_argument('--workers', type=int, default=4)
    a = p.parse_args()
    src = open('/repo/' + a.file).read()
    ms = list(mutants(src))
    if a.lines:
        lo, hi = map(int, a.lines.split('-'))
        ms = [m for m in ms if lo <= m[0] <= hi]
    ms.sort(key=lambda m: (m[0], m[1]))
    if a.sample and a.sample < len(ms):
        ms = sorted(random.Random(a.seed).sample(ms, a.sample),
                    key=lambda m: (m[0], m[1]))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def run(m):
        d = tempfile.mkdtemp(prefix='mt')
        try:
            subprocess.check_call(
                ['git', '-C', '/repo', 'worktree', 'list'],
                stdout=subprocess.DEVNULL)
            subprocess.check_call(['cp', '-a', '/repo/.', d])
            with open(os.path.join(d, a.file), 'wb') as f:
                f.write(m[4])
            for c in a.checks:
                c, _, runs = c.partition(':')
                cmd = ['./run.py', c, '--workers', str(a.workers),
                       '--cap', '150']
                if runs:
                    cmd += ['--runs', runs]
                try:
                    r = subprocess.run(
                        cmd, cwd=here, timeout=600, capture_output=True,
                        env=dict(os.environ, VERIF_REPO=d, VERIF_NOSHRINK='1',
                                 VERIF_OUT=d + '/out'))
                except subprocess.TimeoutExpired:
                    return 'timeout ' + c
                if r.returncode != 0:
                    return '%s rc=%d' % (c, r.returncode)
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    print('%s: %d mutants' % (a.file, len(ms)))
    killed = 0
    with ThreadPoolExecutor(a.jobs) as ex:
        for m, r in zip(ms, ex.map(run, ms)):
            if r is None:
                print('SURVIVED %s:%d %s: %s -> %s' % (
                    (a.file,) + m[:4]), flush=True)
            else:
                killed += 1
                if 'rc=1' not in r:
                    print('  (%s) %s:%d %s: %s -> %s' % (
                        (r, a.file) + m[:4]), flush=True)
    print('%s: killed %d of %d' % (a.file, killed, len(ms)), flush=True)


main()
