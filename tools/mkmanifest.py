"""Writes MANIFEST.json from the contracts present and the table of properties not addressed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))

checks = []
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'contracts', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': './check %s' % pid,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % pid,
                       'technique': 'contract-based deductive verification: verification conditions generated from '
                                    "/repo's current source on every run, discharged by z3 and cvc5",
                       'level': 'proof', 'level_note': NOTES.get(pid, NOTES['default']),
                       'evidence_file': 'evidence/%s.json' % pid})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no contract written yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks are compiled into or added to the repository', 'source_commits': []},
     'notes': 'python3-vt runs the verifier, /opt/venv/bin/python runs the real code. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
