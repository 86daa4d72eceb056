#!/usr/bin/env python3-vt
"""Decides one property: run.py P15 [--task NAME] [--verbose]"""
import argparse
import os
import shutil
import sys
import tempfile
import time
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine import contract, report  # noqa: E402


def worker(args):
    pid, name, verbose, factor, end = args
    from engine import baseline, solver
    from engine.interp import ModuleSrc
    for k in solver.STATS:
        solver.STATS[k] = [0, 0.0]
    t = next(x for x in contract.load(pid) if x.name == name)
    if factor > 1:
        t.budget, t.deadline = t.budget * factor, 300.0
    t.deadline = max(1.0, min(t.deadline, end - time.time()))
    ModuleSrc.cache.clear()
    r = contract.run_task(t, verbose)
    r['digest'] = baseline.digest(r, ModuleSrc.cache)
    r['backends'] = {k: [v[0], round(v[1], 3)] for k, v in solver.STATS.items() if v[0]}
    return r


def undecided(r):
    bad = [o for o in r['obligations'] if o['status'] != 'proved']
    return bool(bad) and all(o['status'] == 'unknown' for o in bad)


def shown(pid, results, seed, tier):
    """whether the real code fails on some input anyway"""
    hints = [{'task': r['task'], 'obligation': o['name'], 'model': o['model']} for r in results for o in r['obligations'] if o['status'] != 'proved' and o['model']]
    known = {k for k, _ in report.known_findings(HERE, pid) if k}
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        c = report.run_replay(HERE, pid, 25, seed, tier, hints, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return any(f.get('finding') not in known for f in c['failures'])


def retry(pid, results, t0, seed, tier):
    """no answer from the solver: once more, alone and with four times the budget; on text the obligations
    were accepted for before, a missing answer is a matter of time and the task counts as not proved"""
    from engine import baseline
    todo = [i for i, r in enumerate(results) if undecided(r)]
    if todo and all(undecided(r) or all(o['status'] == 'proved' for o in r['obligations']) for r in results) and not shown(pid, results, seed, tier):
        for i in todo:
            if time.time() - t0 < 300:
                with mp.get_context('fork').Pool(1) as pool:
                    results[i] = pool.apply(worker, ((pid, results[i]['task'], False, 4, t0 + 480),))
    for r in results:
        if (undecided(r) or r['status'] != 'ok') and r['digest'] == baseline.recorded(pid, r['task']):
            bad = [o['name'] for o in r['obligations'] if o['status'] == 'unknown']
            if bad:
                r['undecided'] = bad
                r['status'], r['reason'] = 'unsupported', 'no answer from the solver for: ' + ', '.join(sorted(set(bad))[:3])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--task')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '6')))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    tasks = contract.load(a.pid)
    if a.task:
        tasks = [t for t in tasks if a.task in t.name]
    jobs = [(a.pid, t.name, a.verbose, 1, t0 + 420) for t in tasks]
    # a failed import of the solver etc. must not look like a verdict: every task returns a result
    if a.verbose or len(jobs) <= 1:
        results = [worker(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(min(a.j, len(jobs)), maxtasksperchild=1) as pool:
            results = list(pool.imap(worker, jobs))
    if not a.no_replay:
        retry(a.pid, results, t0, seed, tier)
    sys.exit(report.conclude(a.pid, results, seed, tier, t0, HERE, verbose=a.verbose or bool(a.task), replay=not a.no_replay))


if __name__ == '__main__':
    main()
