"""All unit pairs, scalars and arrays, compared with the definitions of the units."""
import itertools
import numpy as np
from Utilities import metutils as m

KINDS = [{'mps': 1, 'kph': 1 / 3.6, 'kts': 0.514444, 'mph': 0.44704},
         {'Pa': 1, 'hPa': 100, 'kPa': 1000, 'Pascals': 1, 'inHg': 3386.389, 'mmHg': 133.3224},
         {'m': 1, 'km': 1000, 'mi': 1609.344, 'nm': 1852, 'deg': 111125.1, 'rad': 6366248.653},
         {'gkg': 1, 'kgkg': 1000}]
TEMP = {('C', 'F'): lambda x: x * 1.8 + 32, ('F', 'C'): lambda x: (x - 32) / 1.8, ('C', 'K'): lambda x: x + 273,
        ('K', 'C'): lambda x: x - 273}
NONE = {('mi', 'nm'), ('nm', 'mi'), ('mi', 'rad'), ('rad', 'mi')}
ALIAS = {'kmh': 'kph', 'm/s': 'mps'}
ALL = [u for k in KINDS for u in k] + ['C', 'F', 'K', 'furlong', 'kmh', 'm/s', '']


def expected(a, b):
    if a == b:
        return lambda x: x
    a, b = ALIAS.get(a, a), ALIAS.get(b, b)
    if (a, b) in TEMP:
        return TEMP[(a, b)]
    if (a, b) not in NONE:
        for k in KINDS:
            if a in k and b in k:
                return lambda x: x * k[a] / k[b]
    return lambda x: x


def cases(rng, tier):
    for a, b in itertools.product(ALL, ALL):
        yield dict(a=a, b=b, v=[0., 1., -3.5, 1000.])
    while True:
        yield dict(a=rng.choice(ALL), b=rng.choice(ALL), v=[rng.uniform(-500, 5000) for _ in range(rng.randint(1, 5))])


def from_model(task, obl, mo):
    t = task.replace('temperature ', '').replace('array from ', '').split(' to ')
    if len(t) == 2:
        return [dict(a=t[0], b=t[1], v=[float(mo.get('x', 1)), float(mo.get('y', 2))])]


def check(c):
    a, b = c['a'], c['b']
    f = expected(a, b)
    v = np.array(c['v'])
    old = v.copy()
    r = np.asarray(m.convert(v, a, b))
    if not (v == old).all():
        return 'convert(%r, %r, %r) modified its input to %r' % (old.tolist(), a, b, v.tolist())
    e = f(old)
    tol = 2e-3 * (np.abs(e) + (33 if (a, b) in TEMP else 0)) + 1e-12
    if (np.abs(r - e) > tol).any():
        return 'convert(%r, %r, %r) = %r, expected %r' % (old.tolist(), a, b, r.tolist(), e.tolist())
    for x, y in zip(c['v'], r):
        s = float(m.convert(x, a, b))
        if abs(s - y) > 1e-9 * (1 + abs(y)):
            return 'convert(%r, %r, %r) = %r on a scalar, %r in an array' % (x, a, b, s, y)
    o = np.argsort(old)
    if (np.diff(r[o]) < 0).any():
        return 'order not preserved from %r to %r' % (a, b)
    back = np.asarray(m.convert(m.convert(old, a, b), b, a))
    if (np.abs(back - old) > 4e-3 * (np.abs(old) + (33 if (a, b) in TEMP else 0)) + 1e-9).any():
        return '%r from %r to %r and back is %r' % (old.tolist(), a, b, back.tolist())
    w = [int(x) for x in c['v']]
    r2 = np.asarray(m.convert(w, a, b))
    if (np.abs(r2 - f(np.array(w, dtype=float))) > 2e-3 * (np.abs(r2) + 33) + 1e-12).any():
        return 'convert(%r, %r, %r) = %r' % (w, a, b, r2.tolist())
