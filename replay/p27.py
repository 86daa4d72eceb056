"""Arrays in any order with ties and out-of-range values; angles over several turns."""
import numpy as np
from Utilities import maputils as m


def cases(rng, tier):
    vals = [0, 1, -1, 2.5, 0.25, 5, -7, 100, 3]
    for a in ([0], [1, 2], [2, 1], [3, 3], [0, 0.5, 1, 1.5], [1.5, 1, .5, 0], [5, -5, 0], [2, 0, 2], [1, 3, 2, 9, -4]):
        for v in vals:
            yield dict(a=a, v=v)
    for k in range(-64, 65):
        yield dict(ang=k * np.pi / 8)
    while True:
        n = rng.randint(1, 12)
        a = [rng.choice([rng.uniform(-10, 10), rng.randint(-5, 5)]) for _ in range(n)]
        o = rng.random()
        if o < .4:
            a.sort()
        elif o < .7:
            a.sort(reverse=True)
        yield dict(a=a, v=rng.choice([rng.uniform(-15, 15), rng.choice(a), rng.randint(-12, 12)]))
        yield dict(ang=rng.uniform(-15, 15))


def from_model(task, obl, mo):
    if 'array' in mo:
        return [dict(a=[float(x) for x in mo['array']], v=float(mo['value']))]
    if 'angle' in mo:
        return [dict(ang=float(mo['angle']))]


def check(c):
    if 'a' in c:
        for dt in (float, int) if all(float(x).is_integer() for x in c['a']) else (float,):
            a = np.array(c['a'], dtype=dt)
            b = a.copy()
            i = m.find_index(a, c['v'])
            if not (0 <= i < len(a)):
                return 'find_index(%r, %r) = %r out of range' % (b.tolist(), c['v'], i)
            d = np.abs(b - c['v'])
            if d[i] > d.min():
                return 'find_index(%r, %r) = %r but element %d is nearer' % (b.tolist(), c['v'], i, d.argmin())
            v = m.find_nearest(a, c['v'])
            if v not in b or abs(v - c['v']) > d.min():
                return 'find_nearest(%r, %r) = %r' % (b.tolist(), c['v'], v)
            if not (a == b).all():
                return 'array modified'
            for bad in (np.array([1., 2.]), [1., 2.], np.array([1.])):
                for f in (m.find_index, m.find_nearest):
                    try:
                        f(a, bad)
                    except ValueError:
                        continue
                    return '%s accepted the value %r' % (f.__name__, bad)
    else:
        x = c['ang']
        for f, g in ((m.bearing2theta, m.theta2bearing), (m.theta2bearing, m.bearing2theta)):
            t = f(x)
            if not (-1e-12 <= t <= 2 * np.pi + 1e-12):
                return '%s(%r) = %r outside one turn' % (f.__name__, x, t)
            if np.abs(np.exp(1j * t) - np.exp(1j * (np.pi / 2 - x))) > 1e-9:
                return '%s(%r) = %r is not the reflected angle' % (f.__name__, x, t)
            b = g(t)
            if np.abs(np.exp(1j * b) - np.exp(1j * x)) > 1e-9:
                return '%s(%s(%r)) = %r' % (g.__name__, f.__name__, x, b)
            arr = np.array([x, x + 1, x - 2])
            old = arr.copy()
            ta = f(arr)
            if abs(ta[0] - t) > 1e-12 or not (arr == old).all():
                return '%s differs on arrays' % f.__name__
