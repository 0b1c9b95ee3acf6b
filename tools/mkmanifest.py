"""Writes MANIFEST.json (run by hand)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
try:
    lv = json.load(open(os.path.join(HERE, 'mkv', 'levels.json')))
except OSError:
    lv = {}
BT = 'executable pre/postconditions evaluated on the real code over generated inputs (bounded stand-in)'
BN = 'Bounded: the contracts of the functions this property depends on are evaluated on generated inputs and operation sequences; no function of it is counted as proved. Trusts the oracle in mkv/conc and CPython.'
checks = []
for i in ids:
    l = lv.get(i, {})
    checks.append({'property': i, 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % i,
                   'technique': l.get('technique', BT), 'level': l.get('level', 'exploration'), 'level_note': l.get('note', BN)})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && /opt/venv/bin/python -c "import networkx"', 'checks': checks, 'not_applicable': []}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
