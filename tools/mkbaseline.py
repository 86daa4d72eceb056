#!/usr/bin/env python3-vt
"""Rewrites baseline.json from the run digests left by the last full run of each check (all obligations discharged)."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'baseline.json')
base = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(os.path.join(HERE, 'evidence', 'P*.json'))):
    e = json.load(open(f))
    d = e['coverage'].get('text_digests') or {}
    if d:
        base[e['property']] = dict(sorted(d.items()))
json.dump(base, open(p, 'w'), indent=1, sort_keys=True)
