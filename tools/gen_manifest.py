"""Writes MANIFEST.json from properties.jsonl and props/."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
NOTES = {}
p = os.path.join(HERE, 'tools', 'level_notes.json')
if os.path.exists(p):
    NOTES = json.load(open(p))
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    i = d['id']
    proof = os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py'))
    n = NOTES.get(i, {})
    checks.append({
        'property': i,
        'quick_cmd': f'/opt/venv/bin/python check.py {i} --tier quick',
        'thorough_cmd': f'/opt/venv/bin/python check.py {i} --tier thorough',
        'technique': n.get('technique') or ('contract-based deductive verification: contracts on the real functions, obligations generated by symbolic execution of their source and discharged by a tensor-term kernel and z3; counterexample replay on the real code' if proof else 'bounded contract checking of the real functions'),
        'level': n.get('level') or ('proof' if proof else 'exploration'),
        'level_note': n.get('note') or ('unbounded where the unit is not marked bounded; assumes the torch contracts of acev/symtorch.py, exact arithmetic' if proof else 'bounded: generated inputs only'),
    })
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -m compileall -q acev oracles props check.py', 'checks': checks, 'not_applicable': []},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
