"""
Single source of properties.jsonl and MANIFEST.json:  tools/registry.py writes
both.
"""
import json
import os
import glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), hook=None):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook))


P = []
C = {}   # id -> check description
NA = {}  # id -> reason

exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

for p in P:
    assert len(p['title']) <= 80, p['id']
    assert len(set(q['id'] for q in P)) == len(P)

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, sort_keys=True) + '\n')

checks = []
for p in P:
    i = p['id']
    mods = glob.glob(os.path.join(HERE, 'checks', i.lower() + '_*.py'))
    if i in NA or not mods:
        continue
    checks.append(dict(
        property=i,
        quick_cmd='./run.py %s --tier quick' % i,
        thorough_cmd='./run.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='deterministic simulation with fault injection: ' + C[i][0],
        level='exploration',
        level_note=C[i][1]))

na = [dict(property=i, reason=r) for i, r in sorted(NA.items())]
for p in P:
    if p['id'] not in NA and p['id'] not in [c['property'] for c in checks]:
        na.append(dict(property=p['id'], reason='check not built yet'))

with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1,
        setup_cmd='./run.py --setup',
        checks=checks,
        not_applicable=na,
        notes='Every check is one seeded campaign of simulated runs (run.py '
              'CHECK).  run.py --replay FILE replays a reported violation.  '
              'No hooks in /repo: the seams are the module-level names of '
              'the standard library, lmdb, requests and soundfile, replaced '
              'before the code under test is imported.  known_findings.json '
              'lists what is known and what was fixed.'),
        f, indent=1, sort_keys=True)
print('%d properties, %d checks, %d not claimed' % (
    len(P), len(checks), len(na)))
