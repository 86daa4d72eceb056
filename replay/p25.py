"""L-moments against the definition by probability-weighted moments, fits against their defining equations."""
import math
import numpy as np
from scipy.special import gamma
from Utilities import lmomentFit as L


def cases(rng, tier):
    out = []
    for k in range(250 if tier == 'quick' else 1500):
        n = rng.choice([3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 31, 60, 101, 200])
        kind = rng.choice(['uniform', 'gumbel', 'ties', 'neg', 'ints'])
        out.append({'kind': 'sample', 'n': n, 'dist': kind, 'seed': rng.randrange(10 ** 6), 'nmom': rng.choice([1, 2, 3, 4, 5, 6])})
    for k in range(400 if tier == 'quick' else 2000):
        t3 = rng.choice([rng.uniform(-1.2, 1.2), rng.uniform(-1, 1), rng.uniform(-0.2, 0.4), rng.uniform(-0.999, -0.75), 0.0, 1.0, -1.0, 0.1699, -0.8, -0.97, rng.uniform(0.1698, 0.17)])
        l2 = rng.choice([rng.uniform(0.01, 20), rng.uniform(0.01, 20), 0.0, -1.0])
        out.append({'kind': 'fit', 'm': [rng.uniform(-50, 80), l2, t3]})
    return out


def from_model(task, obligation, model):
    if 'l1' in model:
        yield {'kind': 'fit', 'm': [float(model.get(k, 0)) for k in ('l1', 'l2', 't3')]}


def sample(case):
    r = np.random.RandomState(case['seed'])
    n = case['n']
    d = {'uniform': lambda: r.uniform(10, 90, n), 'gumbel': lambda: r.gumbel(30, 9, n), 'ties': lambda: np.round(r.uniform(0, 6, n)),
         'neg': lambda: r.normal(-20, 5, n), 'ints': lambda: r.randint(0, 100, n)}[case['dist']]()
    d = np.sort(d)
    if d[0] == d[-1]:
        d = d.astype(float)
        d[-1] += 1.0
    return d


def definition(x):
    n = len(x)
    x = [float(v) for v in x]
    b0 = sum(x) / n
    b1 = sum(j * v for j, v in enumerate(x)) / (n * (n - 1.))
    b2 = sum(j * (j - 1) * v for j, v in enumerate(x)) / (n * (n - 1.) * (n - 2.))
    l1, l2, l3 = b0, 2 * b1 - b0, 6 * b2 - 6 * b1 + b0
    return [l1, l2, l3 / l2]


def near(a, b, tol=1e-8, scale=1.0):
    return abs(a - b) <= tol * max(scale, abs(b))


def check(case):
    if case['kind'] == 'sample':
        x = sample(case)
        nm = min(case['nmom'], len(x))
        want = definition(x)
        for name, got in (('samlmu(%d)' % nm, L.samlmu(x.copy(), nm)), ('samlmu3', L.samlmu3(x.copy()))):
            if got is None:
                return '%s gives no moments of a sample of %d values' % (name, len(x))
            for i in range(min(3, len(got))):
                if not near(got[i], want[i], 1e-7, max(1.0, abs(x).max()) if i < 2 else 1.0):
                    return '%s: moment %d of a sample of %d values is %r, by definition %r' % (name, i + 1, len(x), got[i], want[i])
            if len(got) > 1 and got[1] < 0:
                return '%s: second L-moment %r' % (name, got[1])
        return None
    l1, l2, t3 = case['m']
    ok = l2 > 0 and abs(t3) < 1
    p = L.pelgpa(list(case['m']))
    if not ok:
        for name, q in (('pelgpa', p), ('pelgev', L.pelgev(list(case['m'])))):
            if np.any(np.asarray(q) != 0):
                return '%s gives %r for %r, which no distribution has' % (name, list(q), case['m'])
        return None
    xi, al, k = p
    if 1 + t3 > 1e-6:
        got = [xi + al / (1 + k), al / ((1 + k) * (2 + k)), (1 - k) / (3 + k)]
        for i in range(3):
            if not near(got[i], case['m'][i], 1e-6, max(1.0, abs(xi), abs(al)) if i == 0 else 1.0):
                return 'pelgpa %r: parameters %r have moments %r' % (case['m'], list(p), got)
    if t3 < 0.995 and t3 > -0.995:
        xi, al, k = L.pelgev(list(case['m']))
        if abs(k) < 1e-9:
            got = [xi + 0.5772156649 * al, al * math.log(2.0), 2 * math.log(3.0) / math.log(2.0) - 3]
        else:
            g = gamma(1 + k)
            got = [xi + al * (1 - g) / k, al * (1 - 2.0 ** -k) * g / k, 2 * (1 - 3.0 ** -k) / (1 - 2.0 ** -k) - 3]
        for i in range(3):
            if not near(got[i], case['m'][i], 1e-5, max(1.0, abs(xi), abs(al), l2) if i < 2 else 1.0):
                return 'pelgev %r: parameters %r have moments %r' % (case['m'], [xi, al, k], got)
    return None
