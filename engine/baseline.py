"""Which source text the obligations of a task were last accepted for (baseline.json, written by tools/mkbaseline.py).

Only used when the solver gives no answer: on text that differs from the recorded one the obligation counts
as failed; on the same text the run is reported as not proved, covered by the concrete run only."""
import ast
import hashlib
import json
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def file_digest(rel):
    p = os.path.join(REPO, rel)
    if not os.path.exists(p):
        return 'missing'
    text = open(p, encoding='utf-8', errors='replace').read()
    if rel.endswith('.f90'):
        from .fortran import lines
        s = '\n'.join(lines(text))
    elif rel.endswith('.py'):
        s = ast.dump(ast.parse(text))
    else:
        s = text
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def digest(result, modules=()):
    files = sorted({k.split('::')[0] for k in list(result['covered']) + list(result['functions']) if '::' in k} | set(modules))
    return hashlib.sha256('|'.join('%s=%s' % (f, file_digest(f)) for f in files).encode()).hexdigest()[:20]


def recorded(pid, task):
    try:
        return json.load(open(os.path.join(HERE, 'baseline.json'))).get(pid, {}).get(task)
    except (OSError, ValueError):
        return None
