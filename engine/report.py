"""Verdict of a check: evidence file, replays, VIOLATION / KNOWN-FINDING lines."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

PY = '/opt/venv/bin/python'

BASE_ASSUMPTIONS = [
    "floating point numbers are treated as mathematical reals and machine integers as mathematical integers; "
    "rounding, overflow, NaN and infinity are outside the proof",
    "the meaning of Python and of the library functions listed under trusted_base is that of /verif/engine "
    "(VC generator interp.py, maploop.py; library contracts models.py); it is cross-checked against CPython by the concrete run",
    "elementary functions (exp, log, sqrt, sin, cos, pow, atan2) are uninterpreted with the axioms in engine/solver.py",
    "calls on loggers are dropped together with their arguments",
    "z3 and cvc5 are sound",
]


def known_findings(here, pid):
    out = []
    p = os.path.join(here, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line[len('known: property=%s ' % pid):]
                key = None
                if rest.startswith('id='):
                    key, rest = rest[3:].split(' ', 1)
                out.append((key, rest))
    return out


def run_replay(here, pid, seconds, seed, tier, hints, scratch):
    """concrete run of the real code; returns dict with failures"""
    mod = os.path.join(here, 'replay', pid.lower() + '.py')
    if not os.path.exists(mod):
        return None
    hf = os.path.join(scratch, 'hints.json')
    of = os.path.join(scratch, 'out.json')
    json.dump(hints, open(hf, 'w'), default=str)
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=scratch, HOME=scratch, OMPI_ALLOW_RUN_AS_ROOT='1',
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', TMPDIR=scratch)
    env.pop('PYTHONPATH', None)
    cmd = [PY, os.path.join(here, 'replay', 'runner.py'), pid, '--time', str(seconds), '--seed', str(seed),
           '--tier', tier, '--hints', hf, '--out', of]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=seconds * 2 + 120, env=env, cwd=scratch)
        log = (p.stdout[-2000:] + p.stderr[-3000:])
    except subprocess.TimeoutExpired as e:
        return {'error': 'concrete run timed out', 'failures': [], 'evaluations': 0, 'distinct': 0, 'samples': [], 'timeout': True}
    if not os.path.exists(of):
        return {'error': 'concrete run failed: ' + log, 'failures': [], 'evaluations': 0, 'distinct': 0, 'samples': []}
    r = json.load(open(of))
    return r


def conclude(pid, results, seed, tier, t0, here, verbose=False, replay=True):
    known = known_findings(here, pid)
    known_ids = {k for k, _ in known if k}
    failed, unsupported = [], []
    nobl = ndis = 0
    backends = {}
    funcs, covered, contracts_used, externals, assumed = set(), set(), set(), set(), set()
    for r in results:
        for f in r['functions']:
            funcs.add(f)
        covered |= set(r['covered'])
        contracts_used |= set(r['contracts_used'])
        externals |= set(r['externals'])
        assumed |= set(r['assumed']) | set(r['assumes'])
        for k, (n, t) in r['backends'].items():
            b = backends.setdefault(k, [0, 0.0])
            b[0] += n
            b[1] += t
        for o in r['obligations']:
            nobl += 1
            if o['status'] == 'proved':
                ndis += 1
            elif not r.get('undecided') and not (r['status'] != 'ok' and (o['status'] == 'unknown' or '/defined: ' in o['name'])):
                # in a task that does not fit the text any more these two kinds say nothing about the property
                failed.append((r, o))
        if r['status'] != 'ok':
            unsupported.append(r)
        if verbose:
            print('task %-40s %-12s obligations %d proved %d paths %d wall %.1f %s' % (
                r['task'], r['status'], len(r['obligations']),
                sum(o['status'] == 'proved' for o in r['obligations']), r['paths'], r['wall'], r['reason'] or ''))
            for o in r['obligations']:
                if o['status'] != 'proved':
                    print('   %s [%s %s %.1fs] %s' % (o['name'], o['status'], o['backend'], o['time'], o['goal']))
                    print('      model:', o['model'])
                    for f in (o['facts'] or [])[-25:]:
                        print('         |', f.replace('\n', ' '))
            if r['vacuous']:
                print('   vacuous:', r['vacuous'])
            slow = sorted(r['obligations'], key=lambda o: -o['time'])[:3]
            for o in slow:
                if o['time'] > 3:
                    print('   slow: %s %.1fs %s' % (o['name'], o['time'], o['backend']))
    hints = [{'task': r['task'], 'obligation': o['name'], 'model': o['model']} for r, o in failed if o['model']]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    conc = None
    secs = 15 if tier == 'quick' else 90
    if failed or unsupported:
        secs = 60 if tier == 'quick' else 180
    try:
        if replay:
            conc = run_replay(here, pid, secs, seed, tier, hints, scratch)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    lines = []
    viol = []
    if conc:
        for f in conc['failures']:
            if f.get('finding') and f['finding'] in known_ids:
                continue
            viol.append(f)
    rdir = os.path.join(here, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rep = None
    if viol or failed:
        data = {'property': pid,
                'failed_obligations': [{'task': r['task'], 'functions': r['functions'], 'obligation': o['name'],
                                        'status': o['status'], 'backend': o['backend'], 'goal': o['goal'],
                                        'facts': o['facts'], 'model': o['model']} for r, o in failed],
                'not_verified': [{'task': r['task'], 'reason': r['reason']} for r in unsupported],
                'failing_inputs': viol[:5],
                'rerun': '%s %s/replay/runner.py %s --case <this file>' % (PY, here, pid)}
        h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
        rep = os.path.join(rdir, '%s-%s.json' % (pid, h))
        with open(rep, 'w') as fh:
            json.dump(data, fh, indent=1, default=str)
    proved = not failed and not unsupported
    bounded = []
    for r in unsupported:
        bounded.append({'task': r['task'], 'functions': r['functions'], 'reason': r['reason']})
    level = 'proof' if proved else 'other'
    cov = {'obligations': nobl, 'discharged': ndis,
           'checker_cmd': 'python3-vt /verif/run.py %s' % pid,
           'trusted_base': sorted('library contract: ' + e for e in externals) +
           ['z3 %s (python), cvc5 (binary), engine/*.py' % _z3v()],
           'functions_under_contract': sorted(funcs),
           'functions_executed_symbolically': sorted(covered),
           'contracts_assumed_at_call_sites': sorted(contracts_used),
           'backends': {k: {'calls': v[0], 'solver_s': round(v[1], 2)} for k, v in sorted(backends.items())},
           'tasks': [{'task': r['task'], 'status': r['status'], 'obligations': len(r['obligations']),
                      'proved': sum(o['status'] == 'proved' for o in r['obligations']), 'paths': r['paths'],
                      'wall_s': r['wall']} for r in results],
           'vacuity': {'obligations_with_satisfiable_hypotheses': sum(
               1 for r in results for o in r['obligations'] if o['cover'] in ('sat', 'unknown')),
               'vacuous': [v for r in results for v in r['vacuous']]},
           'not_proved_bounded_instead': bounded,
           'text_digests': {r['task']: r.get('digest') for r in results}}
    if conc is not None:
        cov['concrete_run_bounded'] = {
            'evaluations': conc.get('evaluations', 0), 'distinct_nontrivial': conc.get('distinct', 0),
            'rule': conc.get('rule', ''), 'samples': conc.get('samples', [])[:5],
            'seconds': secs, 'error': conc.get('error'),
            'note': 'contracts evaluated on the real code under CPython; bounded, not counted as proved'}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': BASE_ASSUMPTIONS + sorted(assumed), 'violations': len(viol) + (1 if failed and not viol else 0),
          'wall_s': round(time.time() - t0, 2)}
    edir = os.path.join(here, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for key, text in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    print('%s: %d/%d obligations discharged in %d tasks; %d tasks bounded only; concrete run: %s evaluations%s; %.1f s' % (
        pid, ndis, nobl, len(results), len(bounded), conc.get('evaluations') if conc else 'no',
        ' (%s)' % conc['error'][:300] if conc and conc.get('error') else '', time.time() - t0))
    for b in bounded:
        print('  bounded stand-in for %s: %s' % (b['task'], b['reason']))
    for r, o in failed[:8]:
        print('  obligation not discharged: %s / %s (%s)' % (r['task'], o['name'], o['status']))
    for f in viol[:3]:
        print('  failing input: %s' % f['msg'][:600])
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if failed:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep))
        return 1
    return 0


def _z3v():
    import z3
    return z3.get_version_string()
