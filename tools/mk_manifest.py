"""Regenerate MANIFEST.json from properties.jsonl and the check modules (run by hand)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NOT = {}
p = os.path.join(HERE, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NOT = json.load(open(p))
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    i = d['id']
    if i in NOT:
        na.append(dict(property=i, reason=NOT[i]))
        continue
    if not os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        na.append(dict(property=i, reason='no check built yet'))
        continue
    src = open(os.path.join(HERE, 'checks', i.lower() + '.py')).read()
    ns = {}
    import sys
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import symex  # noqa
    m = __import__('checks.' + i.lower(), fromlist=['x'])
    checks.append(dict(
        property=i,
        quick_cmd='%s check.py %s --tier quick' % (PY, i),
        thorough_cmd='%s check.py %s --tier thorough' % (PY, i),
        evidence_file='evidence/%s.json' % i,
        technique='symbolic execution of the Python source, obligations decided by z3, '
                  'counterexamples replayed on the real code',
        level='other',
        level_note='Every path of the executed functions is explored for all real inputs within: '
                   + m.BOUNDS + '. Trusted: z3, sympy term rewriting, the library stand-ins, '
                   'and that real arithmetic stands for floats. ' + ' '.join(
                       a + '.' for a in m.ASSUMPTIONS[2:])))
json.dump(dict(version=1, setup_cmd=PY + ' -c "import symex, z3, sympy; print(z3.get_version_string())"',
               checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks read its current sources.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
