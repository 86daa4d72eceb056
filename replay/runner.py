"""Runs the real code of /repo on concrete inputs and evaluates a property's contract on them."""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(HERE))


class NoExt:
    """the interpreted code is what is under contract: compiled extensions are hidden"""

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[-1] in ('_windmodels', '_maputils', '_akima', '_pressureProfile') and \
                not getattr(sys, '_verif_allow_ext', False):
            raise ImportError(name)
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--time', type=float, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--hints')
    ap.add_argument('--out')
    ap.add_argument('--case')
    a = ap.parse_args()
    sys.meta_path.insert(0, NoExt())
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    t0 = time.time()
    failures = []
    res = {'evaluations': 0, 'distinct': 0, 'samples': [], 'failures': failures, 'error': None, 'rule': ''}

    def dump():
        if a.out:
            tmp = a.out + '.tmp'
            with open(tmp, 'w') as fh:
                json.dump(res, fh, default=str)
            os.rename(tmp, a.out)
    try:
        m = importlib.import_module('replay.' + a.pid.lower())
    except Exception as e:
        # the code under check cannot even be imported
        res['error'] = 'import failed: ' + traceback.format_exc()[-1500:]
        dump()
        return
    res['rule'] = getattr(m, 'RULE', (m.__doc__ or '').strip())
    rng = random.Random(a.seed)
    np.random.seed(a.seed)
    seen = set()

    def run(case):
        try:
            msg = m.check(case)
        except getattr(m, 'SKIP', ()) as e:
            return
        except Exception as e:
            if getattr(m, 'RAISES_OK', False):
                msg = None
            else:
                msg = 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-800:])
        res['evaluations'] += 1
        k = json.dumps(case, sort_keys=True, default=str)[:2000]
        if k not in seen:
            seen.add(k)
            if len(res['samples']) < 5:
                res['samples'].append(json.loads(k) if len(k) < 1500 else k[:300])
        if msg:
            f = {'case': case}
            if isinstance(msg, dict):
                f.update(msg)
            else:
                f['msg'] = str(msg)
            if f.get('finding') and sum(g.get('finding') == f['finding'] for g in failures) >= 20:
                return
            failures.append(f)
            print('FAIL', f['msg'][:400], 'case', k[:300])
    if a.case:
        d = json.load(open(a.case))
        cs = [f['case'] for f in d['failing_inputs']] if 'failing_inputs' in d else [d]
        for c in cs:
            run(c)
        dump()
        sys.exit(1 if failures else 0)
    hints = json.load(open(a.hints)) if a.hints else []
    if hasattr(m, 'from_model'):
        for h in hints:
            try:
                cs = m.from_model(h['task'], h['obligation'], h['model'])
            except Exception:
                cs = []
            for c in cs or []:
                try:
                    run(c)
                except Exception:
                    pass
    ids = set()
    try:
        for case in m.cases(rng, a.tier):
            if time.time() - t0 > a.time or (a.tier == 'quick' and res['evaluations'] >= 100000):
                break
            run(case)
            new = [f for f in failures if not f.get('finding')]
            if len(new) >= 3 or len(failures) > 400:
                break
    except Exception:
        res['error'] = traceback.format_exc()[-1500:]
    res['distinct'] = len(seen)
    dump()


if __name__ == '__main__':
    main()
